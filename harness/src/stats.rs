//! C12, C13, C14: sufficient statistics, estimators, structure scores.
use crate::util::*;
use ndarray::{Array1, Array2};
use reCTBN::parameter_learning::*;
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, ctmp::CtmpProcess, NetworkProcess};
use reCTBN::structure_learning::score_function::*;
use reCTBN::tools::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;

#[derive(Clone)]
pub struct Data {
    pub cards: Vec<usize>,
    pub edges: Vec<(usize, usize)>,
    pub unit: i64,
    /// real time = t / unit * 2^e2
    pub e2: i32,
    pub t: Vec<Vec<i64>>,
    pub s: Vec<Vec<Vec<usize>>>,
}
impl Data {
    pub fn dataset(&self) -> Dataset {
        Dataset::new(
            self.t
                .iter()
                .zip(&self.s)
                .enumerate()
                .map(|(k, (t, s))| {
                    // in different memory layouts
                    let lay = k + s.len();
                    Trajectory::new(
                        lay1(t.iter().map(|x| *x as f64 * self.tick()).collect::<Array1<f64>>(), lay / 2),
                        lay2(Array2::from_shape_fn((s.len(), self.cards.len()), |(i, j)| s[i][j]), lay),
                    )
                })
                .collect(),
        )
    }
    pub fn tick(&self) -> f64 {
        2f64.powi(self.e2) / self.unit as f64
    }
    pub fn event(&self) -> Value {
        let tr: Vec<Value> = self.t.iter().zip(&self.s).map(|(t, s)| json!({"t": t, "s": s})).collect();
        json!({"e": "ds", "cards": self.cards, "edges": self.edges, "unit": self.unit, "e2": self.e2, "trajs": tr})
    }
    pub fn rows(&self) -> usize {
        self.t.iter().map(|x| x.len() - 1).sum()
    }
    fn total(&self) -> i64 {
        self.t.iter().map(|x| x[x.len() - 1] - x[0]).sum()
    }
}

fn sparse(m: &ndarray::Array3<usize>, t: &Array2<f64>, tick: f64) -> Value {
    let mv: Vec<Value> =
        m.indexed_iter().filter(|(_, v)| **v != 0).map(|((u, x, y), v)| json!([u, x, y, v])).collect();
    let tv: Vec<Value> =
        t.indexed_iter().filter(|(_, v)| **v != 0.0).map(|((u, x), v)| json!([u, x, exact(*v, 1.0 / tick)])).collect();
    json!({"m": mv, "t": tv, "shape": m.shape(), "tshape": t.shape()})
}
fn merge(mut a: Value, b: Value) -> Value {
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
    a
}

pub fn ss_event<T: NetworkProcess>(net: &T, d: &Data, ds: &Dataset, node: usize, ps: &BTreeSet<usize>) -> Value {
    let r = guard("sufficient_statistics", || sufficient_statistics(net, ds, node, ps));
    match r {
        Ok((m, t)) => merge(json!({"e": "ss", "node": node, "ps": set(ps)}), sparse(&m, &t, d.tick())),
        Err(e) => json!({"e": "panic", "msg": e}),
    }
}

fn fingerprint<T: NetworkProcess>(net: &T) -> String {
    net.get_node_indices()
        .map(|i| {
            let p = par(net, i);
            format!("{}|{:?}|{:?}|{:?}|{:?}|{:?};", p.get_label(), p.get_reserved_space_as_parent(), p.get_cim(),
                    p.get_transitions(), p.get_residence_time(), net.get_parent_set(i))
        })
        .collect()
}

fn fit_event<T: NetworkProcess>(net: &T, d: &Data, ds: &Dataset, node: usize, ps: Option<&BTreeSet<usize>>,
                                bayes: Option<(usize, i64)>) -> Value {
    let before = fingerprint(net);
    let label0 = net.get_node(node).get_label().clone();
    let r = guard("fit", || match bayes {
        None => MLE {}.fit(net, ds, node, ps.cloned()),
        Some((a, t)) => BayesianApproach { alpha: a, tau: t as f64 * d.tick() }.fit(net, ds, node, ps.cloned()),
    });
    let p = match r {
        Err(e) => return json!({"e": "panic", "msg": e}),
        Ok(p) => p,
    };
    let p = inner(&p);
    let (c, m, t) = match (p.get_cim(), p.get_transitions(), p.get_residence_time()) {
        (Some(c), Some(m), Some(t)) => (c, m, t),
        _ => return json!({"e": "panic", "msg": "a fitted node lacks its parameters"}),
    };
    let q: Vec<Vec<Vec<Value>>> = c
        .outer_iter()
        .map(|m| m.outer_iter().map(|r| r.iter().map(|x| limbs(*x * 2f64.powi(d.e2))).collect()).collect())
        .collect();
    let none = BTreeSet::new();
    let (alpha, tau) = bayes.unwrap_or((0, 0));
    merge(
        json!({"e": "fit", "kind": if bayes.is_some() {"bayes"} else {"mle"}, "alpha": alpha, "tau": tau, "node": node,
            "given": ps.is_some(), "ps": set(ps.unwrap_or(&none)), "q": q, "qshape": c.shape(), "label0": label0,
            "label": p.get_label(), "card": p.get_reserved_space_as_parent(), "netok": fingerprint(net) == before}),
        sparse(m, t, d.tick()),
    )
}

fn score_event<T: NetworkProcess>(net: &T, d: &Data, ds: &Dataset, node: usize, ps: &BTreeSet<usize>, bic: bool,
                                  alpha: usize, tau: i64) -> Value {
    let t = tau as f64 * d.tick();
    let r = guard("score", || if bic { BIC::new(alpha, t).call(net, node, ps, ds) } else { LogLikelihood::new(alpha, t).call(net, node, ps, ds) });
    match r {
        Ok(v) => json!({"e": "score", "kind": if bic {"bic"} else {"ll"}, "alpha": alpha, "tau": tau, "node": node,
            "ps": set(ps), "v": limbs(v)}),
        Err(e) => json!({"e": "panic", "msg": e}),
    }
}

/// random trajectories; `free`: several variables may change at once, rows may repeat
pub fn random_data(g: &mut Gen, cards: &[usize], edges: Vec<(usize, usize)>, unit: i64, trajs: usize, rows: usize,
                   dt: &mut dyn FnMut(&mut Gen) -> i64, free: bool) -> Data {
    let mut d = Data { cards: cards.to_vec(), edges, unit, e2: 0, t: vec![], s: vec![] };
    for _ in 0..trajs {
        let n = if g.chance(1, 8) { 1 } else { g.range(2.min(rows), rows) };
        let start = if g.chance(1, 3) { 0 } else if g.chance(1, 4) { -dt(g) } else { dt(g) };
        let (mut t, mut s) = (vec![start], vec![cards.iter().map(|c| g.below(*c)).collect::<Vec<_>>()]);
        for k in 1..n {
            let mut v: Vec<usize> = s[k - 1].clone();
            if free {
                for i in 0..cards.len() {
                    if g.chance(1, 2) {
                        v[i] = g.below(cards[i]);
                    }
                }
            } else if k < n - 1 {
                let i = g.below(cards.len());
                v[i] = (v[i] + 1 + g.below(cards[i].max(2) - 1)) % cards[i];
            }
            t.push(t[k - 1] + dt(g));
            s.push(v);
        }
        d.t.push(t);
        d.s.push(s);
    }
    d
}

fn queries<T: NetworkProcess>(log: &mut Log, g: &mut Gen, net: &T, d: &Data, stats_only: bool, ctmp: bool, n_q: usize) {
    let ds = d.dataset();
    log.ev(d.event());
    let n = d.cards.len();
    for _ in 0..n_q {
        let node = g.below(n);
        let mut ps: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..g.below(4) {
            let p = g.below(n);
            if p != node && !ctmp {
                ps.insert(p);
            }
        }
        let u = n_configs(&d.cards, &ps);
        let c = d.cards[node];
        if u * c * c > 400_000 {
            continue;
        }
        log.ev(ss_event(net, d, &ds, node, &ps));
        if !ctmp && u * c <= 1000 && g.chance(1, 4) {
            // the node among the variables it is conditioned on
            let mut own = ps.clone();
            own.insert(node);
            log.ev(ss_event(net, d, &ds, node, &own));
        }
        if stats_only || u * c * c > 300 {
            continue;
        }
        let own: BTreeSet<usize> = parents_of(&d.edges, node);
        for k in 0..2 {
            let bayes = if g.chance(1, 3) {
                None
            } else {
                Some((*g.pick(&[0usize, 1, 1, 2, 5, 17]), *g.pick(&[0i64, 1, 2, 3, d.unit, 7 * d.unit])))
            };
            let given = k == 0 || n_configs(&d.cards, &own) * c * c > 300;
            log.ev(fit_event(net, d, &ds, node, if given { Some(&ps) } else { None }, bayes));
        }
        let tmax = d.total() as usize;
        let (a, tau) = (*g.pick(&[1usize, 1, 2, 3, 10, 100]), *g.pick(&[1i64, 2, 5, d.unit, 3 * d.unit]));
        if a + (d.rows() + 1) * u < 19000 && tau as usize + tmax * u < 19000 && d.rows() > 0 && u * (d.unit as usize) < 19000 {
            for bic in [false, true] {
                log.ev(score_event(net, d, &ds, node, &ps, bic, a, tau));
            }
        }
    }
}

fn net_of(d: &Data) -> CtbnNetwork {
    mk_net(&d.cards, &d.edges)
}

pub fn record(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "stats");
    let reps = if deep { 8 } else { 1 };
    // small data, all laws; larger times for the statistics alone
    for ep in 0..70 * reps {
        let n = g.range(1, 5);
        let cards: Vec<usize> = (0..n).map(|_| { let lo = 2 - g.chance(1, 12) as usize; g.range(lo, 4) }).collect();
        let edges = random_edges(&mut g, n, 1, 2, 2);
        let unit = *g.pick(&[1i64, 2, 8, 64]);
        let (trajs, rows) = (g.range(1, 5), g.range(2, 25));
        let free = g.chance(2, 3);
        let mut dt = |g: &mut Gen| if g.chance(1, 8) { 0 } else { g.range(1, 9) as i64 };
        let d = random_data(&mut g, &cards, edges, unit, trajs, rows, &mut dt, free);
        let net = net_of(&d);
        queries(log, &mut g, &net, &d, false, false, if ep % 3 == 0 { 6 } else { 3 });
    }
    // the unit of time may be tiny or huge
    for ep in 0..16 * reps {
        let n = g.range(1, 4);
        let cards: Vec<usize> = (0..n).map(|_| g.range(2, 3)).collect();
        let edges = random_edges(&mut g, n, 1, 2, 2);
        let (trajs, rows) = (g.range(1, 4), g.range(2, 20));
        let mut dt = |g: &mut Gen| if g.chance(1, 8) { 0 } else { g.range(1, 9) as i64 };
        let mut d = random_data(&mut g, &cards, edges, 1, trajs, rows, &mut dt, ep % 2 == 0);
        d.e2 = [-60, -45, -33, -27, -20, -10, 10, 24, 33, 50][ep % 10];
        let net = net_of(&d);
        queries(log, &mut g, &net, &d, false, false, 3);
    }
    // times over many magnitudes, statistics only: every bit counts
    for _ in 0..20 * reps {
        let n = g.range(2, 4);
        let cards: Vec<usize> = (0..n).map(|_| g.range(2, 3)).collect();
        let edges = vec![];
        let unit = *g.pick(&[1i64 << 10, 1 << 20, 1 << 30, 1, 1 << 40]);
        let mut dt = |g: &mut Gen| 1 + (g.next() >> 40) as i64 >> g.below(24);
        let d = random_data(&mut g, &cards, edges, unit, 3, 30, &mut dt, true);
        let net = net_of(&d);
        queries(log, &mut g, &net, &d, true, false, 3);
    }
    // many trajectories, long trajectories, large cardinalities, many nodes
    for ep in 0..6 * reps {
        let (cards, trajs, rows): (Vec<usize>, usize, usize) = match ep % 6 {
            0 => (vec![2, 3], 403, 4),
            1 => (vec![3, 2, 2], 1, 2507),
            2 => (vec![300, 2, 17], 2, 150),
            3 => (vec![2; 24], 3, 60),
            4 => (vec![70, 65, 3], 3, 100),
            _ => (vec![2, 2, 3], 7, 700),
        };
        let edges = random_edges(&mut g, cards.len(), 1, 3, 2);
        let mut dt = |g: &mut Gen| g.range(1, 6) as i64;
        let free = ep % 2 == 0;
        let d = random_data(&mut g, &cards, edges, 4, trajs, rows, &mut dt, free);
        let net = net_of(&d);
        queries(log, &mut g, &net, &d, false, false, 4);
    }
    // more rows, nodes and configurations than small integers can count
    for ep in 0..7 * reps {
        let ep = [0, 1, 2, 3, 4, 10, 11][ep % 7]; // 10: many trajectories, 11: many configurations
        let (cards, trajs, rows): (Vec<usize>, usize, usize) = match ep {
            10 => (vec![2, 2], 67_003, 2),
            11 => (vec![2; 20], 2, 60),
            0 => (vec![2, 2], 1, 70_013),
            1 => (vec![2; 80], 2, 40),
            2 => ((0..290).map(|k| 2 + k % 2).collect(), 1, 25),
            3 => (vec![2], 1, 9_000),
            _ => (vec![17, 2, 16, 3], 1, 900),
        };
        let n = cards.len();
        let edges = random_edges(&mut g, n, 1, n, 2);
        let last = if ep == 3 { 2 } else { 6 };
        let mut dt = |g: &mut Gen| g.range(1, last) as i64;
        let free = ep != 0 && ep != 3;
        let mut d = random_data(&mut g, &cards, edges, 4, trajs, rows, &mut dt, free);
        while d.rows() < trajs * rows / 4 {
            d = random_data(&mut g, &cards, d.edges, 4, trajs, rows, &mut dt, free);
        }
        let (net, ds) = (net_of(&d), d.dataset());
        log.ev(d.event());
        if ep == 11 {
            let ps: BTreeSet<usize> = (2..20).collect();
            log.ev(ss_event(&net, &d, &ds, 1, &ps));
            continue;
        }
        let sets: Vec<(usize, Vec<usize>)> = match ep {
            10 => vec![(0, vec![1])],
            0 => vec![(0, vec![1]), (1, vec![])],
            1 => vec![(3, vec![64, 79]), (79, vec![0, 31, 33, 63, 65]), (66, vec![78])],
            2 => vec![(1, vec![255, 256, 289]), (289, vec![0]), (257, vec![1, 258])],
            3 => vec![(0, vec![])],
            _ => vec![(1, vec![0, 2, 3]), (3, vec![0, 2])],
        };
        for (node, ps) in sets {
            let ps: BTreeSet<usize> = ps.into_iter().collect();
            log.ev(ss_event(&net, &d, &ds, node, &ps));
            for b in [None, Some((*g.pick(&[3usize, 1000, 100_000]), *g.pick(&[2i64, 4000, 400_000])))] {
                log.ev(fit_event(&net, &d, &ds, node, Some(&ps), b));
            }
            let own = parents_of(&d.edges, node);
            if n_configs(&cards, &own) < 30 {
                log.ev(fit_event(&net, &d, &ds, node, None, Some((2, 3))));
            }
            let u = n_configs(&cards, &ps);
            if 1 + (d.rows() + 1) * u < 19000 && 4 + d.total() as usize * u < 19000 {
                log.ev(score_event(&net, &d, &ds, node, &ps, true, 1, 4));
                log.ev(score_event(&net, &d, &ds, node, &ps, false, 2, 1));
            }
        }
    }
    // many configurations: each one gets only a small share of the prior
    for ep in 0..5 * reps {
        let cards: Vec<usize> = match ep % 5 {
            0 => vec![2, 3, 3, 4],
            1 => vec![4, 2, 4, 4],
            2 => vec![2, 2, 2, 2, 2, 2, 2, 2],
            3 => vec![2, 8, 9],
            _ => vec![3, 3, 3, 3],
        };
        let n = cards.len();
        let node = if ep % 5 == 1 { 1 } else { 0 };
        let edges = random_edges(&mut g, n, 1, 3, 2);
        let mut dt = |g: &mut Gen| g.range(1, 6) as i64;
        let d = random_data(&mut g, &cards, edges, 4, 2, 30, &mut dt, true);
        let (net, ds) = (net_of(&d), d.dataset());
        log.ev(d.event());
        let ps: BTreeSet<usize> = (0..n).filter(|i| *i != node).collect();
        log.ev(ss_event(&net, &d, &ds, node, &ps));
        for a in [1, 2] {
            log.ev(fit_event(&net, &d, &ds, node, Some(&ps), Some((a, 1))));
            if d.rows() > 0 {
                log.ev(score_event(&net, &d, &ds, node, &ps, a == 2, a, 1));
            }
        }
    }
    // sampled data, times rounded to the grid
    for ep in 0..6 * reps {
        let cards: Vec<usize> = vec![2, 3, 2 + ep % 2];
        let edges = vec![(0, 1), (1, 2), (2, 0)];
        let mut net = mk_net(&cards, &edges);
        let mut pg = UniformParametersGenerator::new(0.5..3.0, Some(g.next()));
        pg.generate_parameters(&mut net);
        let sd = g.next();
        let ds = match guard("trajectory_generator", || trajectory_generator(&net, 6, 12.0, Some(sd))) {
            Ok(d) => d,
            Err(e) => {
                log.ev(json!({"e": "panic", "msg": e}));
                continue;
            }
        };
        let d = Data {
            cards: cards.clone(),
            edges: edges.clone(),
            unit: 16,
            e2: 0,
            t: ds.get_trajectories().iter().map(|t| t.get_time().iter().map(|x| (x * 16.0).round() as i64).collect()).collect(),
            s: ds.get_trajectories().iter().map(|t| t.get_events().outer_iter().map(|r| r.to_vec()).collect()).collect(),
        };
        queries(log, &mut g, &net, &d, false, false, 5);
    }
    // a CTMP
    for _ in 0..6 * reps {
        let c = g.range(2, 6);
        let mut p = CtmpProcess::new();
        p.add_node(mk_node("n0", c)).unwrap();
        let mut dt = |g: &mut Gen| g.range(1, 6) as i64;
        let d = random_data(&mut g, &[c], vec![], 8, 3, 30, &mut dt, false);
        queries(log, &mut g, &p, &d, false, true, 2);
    }
}

/// datasets enumerated by TLC
pub fn replay(log: &mut Log, input: &str) {
    for line in input.lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        let us = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
        let cards = us(&v["cards"]);
        let mut d = Data { cards: cards.clone(), edges: vec![(0, 1)], unit: 4, e2: 0, t: vec![], s: vec![] };
        for t in v["trajs"].as_array().unwrap() {
            d.t.push(us(&t["t"]).into_iter().map(|x| x as i64).collect());
            d.s.push(t["s"].as_array().unwrap().iter().map(|r| us(r)).collect());
        }
        let (net, ds) = (net_of(&d), d.dataset());
        log.ev(d.event());
        for node in 0..2 {
            for ps in [BTreeSet::new(), BTreeSet::from([1 - node])] {
                log.ev(ss_event(&net, &d, &ds, node, &ps));
                log.ev(fit_event(&net, &d, &ds, node, Some(&ps), None));
                log.ev(fit_event(&net, &d, &ds, node, Some(&ps), Some((1, 3))));
                if d.rows() > 0 {
                    log.ev(score_event(&net, &d, &ds, node, &ps, node == 0, 1, 3));
                }
            }
        }
        log.ev(fit_event(&net, &d, &ds, 1, None, Some((2, 1))));
    }
}
