//! C05: amalgamation of a CTBN into a CTMP.
use crate::util::*;
use ndarray::Array3;
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess};
use serde_json::{json, Value};

/// Integer rates (numerator over `scale`) of every node, parents sorted ascending.
#[derive(Clone)]
pub struct Model {
    pub cards: Vec<usize>,
    pub edges: Vec<(usize, usize)>,
    pub q: Vec<Array3<i64>>,
}

impl Model {
    pub fn json(&self) -> Value {
        json!({"cards": self.cards,
               "pars": (0..self.cards.len()).map(|i| set(&parents_of(&self.edges, i))).collect::<Vec<_>>(),
               "q": self.q.iter().map(|c| a3j(c, |x| *x)).collect::<Vec<_>>()})
    }
    pub fn net(&self, scale: f64) -> CtbnNetwork {
        let mut net = mk_net(&self.cards, &self.edges);
        for (i, c) in self.q.iter().enumerate() {
            par_mut(&mut net, i).set_cim(lay3(c.mapv(|x| x as f64 / scale), i + c.dim().1)).unwrap();
        }
        net
    }
    pub fn total(&self) -> usize {
        self.cards.iter().product()
    }
    /// rates drawn by `rate(node, u, x, y)`; rows whose exit would be zero get one positive rate
    pub fn fill(cards: Vec<usize>, edges: Vec<(usize, usize)>, mut rate: impl FnMut(usize, usize, usize, usize) -> i64) -> Model {
        let mut q = vec![];
        for i in 0..cards.len() {
            let c = cards[i];
            let u = n_configs(&cards, &parents_of(&edges, i));
            let mut m = a3(u, c, c, |u, x, y| if x == y { 0 } else { rate(i, u, x, y) });
            for u in 0..u {
                for x in 0..c {
                    let mut s: i64 = (0..c).map(|y| m[[u, x, y]]).sum();
                    if s == 0 {
                        let y = (x + 1 + u % (c - 1)) % c;
                        m[[u, x, y]] = 1;
                        s = 1;
                    }
                    m[[u, x, x]] = -s;
                }
            }
            q.push(m);
        }
        Model { cards, edges, q }
    }
}

pub fn record(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "amalg");
    let n_ep = if deep { 600 } else { 150 };
    for ep in 0..n_ep {
        let (n, lo, hi, cap): (usize, usize, usize, usize) = match ep % 6 {
            0 => (1, 2, 14, 14),
            1 => (2, 2, 4, 12),
            2 => (g.range(2, 3), 2, 6, 90),
            3 => (g.range(3, 5), 2, 3, 110),
            4 => (g.range(4, 7), 2, 3, 200),
            _ => (g.range(2, 4), 2, 11, if deep { 400 } else { 220 }),
        };
        let mut cards: Vec<usize> = vec![];
        while cards.len() < n {
            let room = cap / cards.iter().product::<usize>().max(1);
            if room < 2 {
                break;
            }
            cards.push(g.range(lo, hi.min(room).max(lo)));
            if cards.iter().product::<usize>() > cap {
                cards.pop();
                break;
            }
        }
        let dens = g.range(0, 3);
        let mut edges = random_edges(&mut g, cards.len(), dens, 3, 6);
        for i in (1..edges.len()).rev() {
            edges.swap(i, g.below(i + 1));
        }
        let wide = g.chance(1, 3);
        let sparse = g.chance(1, 2);
        let m = Model::fill(cards, edges, |_, _, _, _| {
            if sparse && g.chance(1, 2) {
                0
            } else if wide {
                1i64 << g.below(24)
            } else {
                g.range(1, 4000) as i64
            }
        });
        // sizes of the intensities: ordinary, tiny, large
        let scale = [256.0, 2f64.powi(30), 256.0, 2f64.powi(60), 2f64.powi(-8), 2f64.powi(20)][(ep / 6) % 6];
        event(log, &m, scale);
    }
    // joint spaces beyond 256 states
    let big: [&[usize]; 8] = [&[2; 9], &[18, 17], &[300], &[3, 7, 4, 4], &[2; 12], &[3; 7], &[2, 2, 3, 5, 5, 2], &[2; 13]];
    for cards in big.iter().take(if deep { 8 } else { 6 }) {
        let edges = random_edges(&mut g, cards.len(), 1, 4, 3);
        let m = Model::fill(cards.to_vec(), edges, |_, _, x, y| if cards[0] > 10 && x % 7 != y % 7 { 0 } else { g.range(0, 4000) as i64 });
        event(log, &m, 256.0);
    }
    for ep in 0..(if deep { 300 } else { 90 }) {
        let n = g.range(1, 4);
        let cards: Vec<usize> = (0..n).map(|_| g.range(2, if n > 2 { 3 } else { 5 })).collect();
        let dens = g.range(0, 3);
        let edges = random_edges(&mut g, n, dens, 3, 3);
        let sparse = g.chance(1, 2);
        let m = Model::fill(cards, edges, |_, _, _, _| if sparse && g.chance(1, 2) { 0 } else { 1 });
        let size = [1.0, 1e-5, 1e3, 1e5][ep % 4];
        reals(log, &mut g, &m, size, ep % 3);
    }
}

/// Rates that are no dyadic fractions; rows that sum to zero exactly (kind 0), up to rounding
/// (kind 1) or only up to what the checked setter tolerates (kind 2).
fn reals(log: &mut Log, g: &mut Gen, m: &Model, size: f64, kind: usize) {
    let cims: Vec<Array3<f64>> = m
        .q
        .iter()
        .map(|q| {
            let mut c = q.mapv(|x| if x > 0 { size * (g.unit() + 1e-3) } else { 0.0 });
            close_rows(&mut c);
            let (u, n, _) = c.dim();
            for u in 0..u {
                for x in 0..n {
                    let e = match kind {
                        0 => 0.0,
                        1 => c[[u, x, x]] * (g.unit() - 0.5) * 4e-16,
                        _ => 1.4e-8 * [1.0, -1.0, g.unit()][g.below(3)],
                    };
                    if c[[u, x, x]] + e < 0.0 {
                        c[[u, x, x]] += e;
                    }
                }
            }
            c
        })
        .collect();
    let r = guard("amalgamation", || {
        let mut net = mk_net(&m.cards, &m.edges);
        for (i, c) in cims.iter().enumerate() {
            if par_mut(&mut net, i).set_cim(lay3(c.clone(), i + kind)).is_err() {
                return None;
            }
        }
        let c = net.amalgamation();
        let same = (0..m.cards.len()).all(|i| par(&net, i).get_cim().as_ref() == Some(&cims[i]));
        let p = par(&c, 0);
        let cim = p.get_cim().as_ref().unwrap();
        let (mut rows, mut dev) = (vec![], vec![]);
        for (s, r) in cim.index_axis(ndarray::Axis(0), 0).outer_iter().enumerate() {
            let off: f64 = r.iter().enumerate().filter(|x| x.0 != s).map(|x| x.1).sum();
            rows.push(json!(r.iter().enumerate().filter(|(t, v)| *t != s && **v != 0.0).map(|(t, v)| json!([t, hex(*v)])).collect::<Vec<_>>()));
            dev.push(q(r[s] + off, 1e12));
        }
        Some(json!({"e": "reals", "cards": m.cards, "pars": m.json()["pars"],
            "q": cims.iter().map(|c| c.outer_iter().map(|a| a.outer_iter().map(|r| r.iter()
                .map(|v| if *v == 0.0 { "0".to_string() } else { hex(*v) }).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "nodes": c.get_number_of_nodes(), "card": c.get_node(0).get_reserved_space_as_parent(), "shape": cim.shape(),
            "valid": p.validate_params().is_ok(), "same": same, "rows": rows, "dev": dev}))
    });
    match r {
        Ok(Some(v)) => log.ev(v),
        Ok(None) => {} // beyond what the setter tolerates: not a network of the domain
        Err(e) => log.ev(json!({"e": "panic", "msg": e, "net": m.json(), "kind": kind})),
    }
}
fn hex(v: f64) -> String {
    format!("{:x}", v.to_bits())
}

fn event(log: &mut Log, m: &Model, scale: f64) {
    let r = guard("amalgamation", || {
        let net = m.net(scale);
        let before: Vec<Option<Array3<f64>>> = (0..m.cards.len()).map(|i| par(&net, i).get_cim().clone()).collect();
        let adj = net.get_adj_matrix().cloned();
        let c = net.amalgamation();
        let same = (0..m.cards.len()).all(|i| par(&net, i).get_cim() == &before[i]) && net.get_adj_matrix() == adj.as_ref();
        let n = c.get_number_of_nodes();
        let p = par(&c, 0);
        let cim = p.get_cim().as_ref().unwrap();
        let rows: Vec<Value> = cim
            .index_axis(ndarray::Axis(0), 0)
            .outer_iter()
            .map(|r| {
                json!(r
                    .iter()
                    .enumerate()
                    .filter(|(_, v)| **v != 0.0)
                    .map(|(j, v)| json!([j, exact(*v, scale)]))
                    .collect::<Vec<_>>())
            })
            .collect();
        json!({"e": "amalg", "net": m.json(), "nodes": n, "card": c.get_node(0).get_reserved_space_as_parent(),
               "shape": cim.shape(), "valid": p.validate_params().is_ok(), "same": same, "rows": rows})
    });
    log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e, "net": m.json()})));
}
