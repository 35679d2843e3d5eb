//! C06, C07, C08: forward sampling, dataset generation, sampling statistics.
use crate::amalg::Model;
use crate::util::*;
use ndarray::Array3;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess};
use reCTBN::sampling::{ForwardSampler, Sampler};
use reCTBN::tools::{trajectory_generator, Dataset};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// real rate of an integer rate
#[derive(Clone, Copy, PartialEq)]
pub enum Units {
    Sixteenths,
    Classes, // 1 -> 2^-40, 1000 -> 2^30
    Powers,  // v -> 2^(v-20)
    Slack,   // tiny rates whose rows sum to zero only up to the tolerance
    Hub,     // 1 -> 2^-24, 1000 -> 2^30
}

pub fn real(m: &Model, i: usize, un: Units, g: &mut Gen) -> Array3<f64> {
    let mut c = m.q[i].mapv(|v| {
        if v <= 0 {
            return 0.0;
        }
        match un {
            Units::Sixteenths => v as f64 / 16.0,
            Units::Classes => 2f64.powi(if v >= 1000 { 30 } else { -40 }),
            Units::Powers => 2f64.powi(v as i32 - 20),
            Units::Hub => 2f64.powi(if v >= 1000 { 30 } else { -24 }),
            Units::Slack => v as f64 * 1e-11,
        }
    });
    close_rows(&mut c);
    if un == Units::Slack {
        let n = c.dim().1;
        for u in 0..c.dim().0 {
            for x in 0..n {
                // the exit intensity is off by up to 1.2e-8, of the order of the rates
                let e = if g.chance(1, 2) { -1.2e-8 * g.unit() } else { 0.5 * c[[u, x, x]] * -g.unit() };
                let lim = -c[[u, x, x]] * 0.6;
                c[[u, x, x]] += e.min(lim).min(1.2e-8).max(-1.2e-8);
            }
        }
    }
    c
}

pub fn build(m: &Model, un: Units, g: &mut Gen) -> CtbnNetwork {
    let mut net = mk_net(&m.cards, &m.edges);
    for i in 0..m.cards.len() {
        let c = real(m, i, un, g);
        par_mut(&mut net, i).set_cim(lay3(c, i + m.cards.len())).unwrap();
    }
    net
}

/// the same network in another unit of time
fn rescale(net: &mut CtbnNetwork, e: i32) {
    for k in net.get_node_indices() {
        let c = par(net, k).get_cim().clone().unwrap();
        par_mut(net, k).set_cim(c.mapv(|x| x * 2f64.powi(e))).unwrap();
    }
}

fn sgn(d: f64) -> i64 {
    if d.is_nan() {
        2
    } else if d > 0.0 {
        1
    } else if d < 0.0 {
        -1
    } else {
        0
    }
}

fn random_model(g: &mut Gen, ep: usize, un: Units) -> Model {
    let n = match ep % 5 {
        0 => g.range(1, 2),
        1 => g.range(2, 3),
        2 => g.range(3, 5),
        3 => g.range(4, 8),
        _ => g.range(8, 14),
    };
    let big = ep % 5 < 2;
    let cards: Vec<usize> = (0..n).map(|_| if big { g.range(2, 12) } else { g.range(2, 4) }).collect();
    let dens = g.range(1, 3);
    let edges = random_edges(g, n, dens, 4, if big { 2 } else { 4 });
    let zeros = g.range(0, 3);
    Model::fill(cards, edges, |_, _, _, _| {
        if g.chance(zeros, 4) {
            0
        } else {
            match un {
                Units::Sixteenths => g.range(1, 200) as i64,
                Units::Classes | Units::Hub => *g.pick(&[1, 1000]),
                Units::Powers => g.range(1, 40) as i64,
                Units::Slack => g.range(1, 3000) as i64,
            }
        }
    })
}

/// follows one sampler and logs what it returns
fn follow(log: &mut Log, s: &mut impl Sampler, steps: usize, un: Units) {
    let mut prev: Option<f64> = None;
    let mut after_slow = 0;
    for _ in 0..steps {
        let r = guard("next", || s.next());
        let x = match r {
            Ok(Some(x)) => x,
            Ok(None) => {
                log.ev(json!({"e": "panic", "what": "sampler ended"}));
                return;
            }
            Err(m) => {
                log.ev(json!({"e": "panic", "msg": m}));
                return;
            }
        };
        let mut v = json!({"e": "s", "st": unstate(&x.state), "zero": x.t == 0.0,
                           "ord": prev.map(|p| sgn(x.t - p)).unwrap_or(0)});
        if un == Units::Classes || un == Units::Hub {
            if let Some(p) = prev {
                v["fast"] = json!(x.t - p <= 1e-3);
            }
            if un == Units::Classes && x.t > 1e6 {
                after_slow += 1;
            }
        }
        log.ev(v);
        prev = Some(x.t);
        if after_slow > 6 {
            return;
        }
    }
}

/// Networks with many nodes, a node with many children, a node with many states.
fn wide_model(g: &mut Gen, kind: usize) -> (Model, Units) {
    let mut q: Vec<Array3<i64>> = vec![];
    let m = |cards: Vec<usize>, edges: Vec<(usize, usize)>, q| Model { cards, edges, q };
    match kind {
        // every child of the hub follows it at once; the hub moves rarely. The hub is the
        // first, the last or a middle node
        0 | 1 | 2 => {
            let n = [71, 280, 90][kind];
            let hub = [0, n - 1, 67][kind];
            let cards = vec![2; n];
            let edges: Vec<(usize, usize)> = (0..n).filter(|i| *i != hub).map(|i| (hub, i)).collect();
            for i in 0..n {
                q.push(if i == hub {
                    a3(1, 2, 2, |_, x, y| if x == y { -1 } else { 1 })
                } else {
                    a3(2, 2, 2, |u, x, y| (if u != x { 1000 } else { 1 }) * if x == y { -1 } else { 1 })
                });
            }
            (m(cards, edges, q), Units::Hub)
        }
        // a child with a parent far away, states beyond 256
        3 => {
            let cards = vec![300, 2, 3];
            let edges = vec![(0, 2), (1, 0)];
            (Model::fill(cards, edges, |i, _, x, y| if i == 0 && (x + y) % 11 > 0 { 0 } else { g.range(1, 200) as i64 }), Units::Sixteenths)
        }
        _ => {
            let n = [300, 130, 66][kind % 3];
            let cards: Vec<usize> = (0..n).map(|_| g.range(2, 3)).collect();
            let mut edges = random_edges(g, n, 1, n, 2);
            edges.push((n - 1, 0));
            edges.sort();
            edges.dedup();
            (Model::fill(cards, edges, |_, _, _, _| g.range(0, 200) as i64), Units::Sixteenths)
        }
    }
}

pub fn record(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "sampler");
    for kind in 0..(if deep { 9 } else { 6 }) {
        let (m, un) = wide_model(&mut g, kind);
        let net = build(&m, un, &mut g);
        log.ev(json!({"e": "net", "net": m.json(), "ep": 500000 + kind}));
        for k in 0..2 {
            let given: Option<Vec<usize>> = if k == 0 { None } else { Some(m.cards.iter().map(|c| g.below(*c)).collect()) };
            log.ev(json!({"e": "new", "given": given.clone().unwrap_or_default()}));
            let seed = Some(g.next());
            match guard("new", || ForwardSampler::new(&net, seed, given.map(|x| state(&x)))) {
                Ok(mut s) => {
                    let len = if un == Units::Hub { 3 * m.cards.len() } else { 60 };
                    follow(log, &mut s, len, un);
                    s.reset();
                    log.ev(json!({"e": "reset"}));
                    follow(log, &mut s, len / 2, un);
                }
                Err(e) => log.ev(json!({"e": "panic", "msg": e})),
            }
        }
        if un != Units::Hub {
            datasets(log, &mut g, &m, &net, un, 0);
        }
    }
    let kinds = [Units::Sixteenths, Units::Classes, Units::Powers, Units::Slack];
    let nets = if deep { 400 } else { 80 };
    for ep in 0..nets {
        let un = kinds[ep % 4];
        let m = random_model(&mut g, ep, un);
        let mut net = build(&m, un, &mut g);
        let unit = if un == Units::Sixteenths || un == Units::Powers { [0, 40, 0, -45, 25, 0, -25, 60][ep / 4 % 8] } else { 0 };
        if unit != 0 {
            rescale(&mut net, unit);
        }
        log.ev(json!({"e": "net", "net": m.json(), "ep": ep}));
        let runs = if un == Units::Classes { 12 } else { 3 };
        for k in 0..runs {
            let given: Option<Vec<usize>> = if (k + ep / 4) % 3 == 0 {
                None
            } else {
                Some(m.cards.iter().map(|c| g.below(*c)).collect())
            };
            log.ev(json!({"e": "new", "given": given.clone().unwrap_or_default()}));
            let seed = if g.chance(1, 5) { None } else { Some(g.next() >> g.below(60)) };
            let s = guard("new", || ForwardSampler::new(&net, seed, given.map(|x| state(&x))));
            let mut s = match s {
                Ok(s) => s,
                Err(e) => {
                    log.ev(json!({"e": "panic", "msg": e}));
                    continue;
                }
            };
            for r in 0..3 {
                if r > 0 {
                    s.reset();
                    log.ev(json!({"e": "reset"}));
                }
                let len = *g.pick(&[1, 2, 20, 40]);
                follow(log, &mut s, if un == Units::Classes { 60 } else { len }, un);
            }
        }
        if un == Units::Sixteenths || un == Units::Powers {
            for _ in 0..2 {
                datasets(log, &mut g, &m, &net, un, unit);
            }
        }
        if m.total() <= 300 && un == Units::Sixteenths && unit == 0 {
            ctmp(log, &mut g, &m, &net);
        }
    }
    // statistics, in parallel
    let n_stat = if deep { 60 } else { 16 };
    let jobs: Vec<(usize, u64)> = (0..n_stat).map(|i| (i, g.next())).collect();
    let steps = if deep { 2_000_000 } else { 300_000 };
    let r = guard("statistics", || {
        jobs.par_iter().map(|(i, s)| statistics(*i, *s, steps)).collect::<Vec<Vec<Value>>>()
    });
    match r {
        Ok(vs) => vs.into_iter().flatten().for_each(|v| log.ev(v)),
        Err(m) => log.ev(json!({"e": "panic", "msg": m})),
    }
    let jobs: Vec<(usize, u64)> = (0..if deep { 30 } else { 10 }).map(|i| (i, g.next())).collect();
    let r = guard("restarts", || jobs.par_iter().map(|(i, s)| restarts(*i, *s)).collect::<Vec<Vec<Value>>>());
    match r {
        Ok(vs) => vs.into_iter().flatten().for_each(|v| log.ev(v)),
        Err(m) => log.ev(json!({"e": "panic", "msg": m})),
    }
    let r = guard("inits", || {
        let js: Vec<u64> = (0..14).map(|_| g.next()).collect();
        js.par_iter().enumerate().map(|(i, s)| inits(i, *s)).collect::<Vec<Vec<Value>>>().concat()
    });
    match r {
        Ok(vs) => vs.into_iter().for_each(|v| log.ev(v)),
        Err(m) => log.ev(json!({"e": "panic", "msg": m})),
    }
    let jobs: Vec<(usize, u64)> = (0..if deep { 200 } else { 60 }).map(|i| (i, g.next())).collect();
    let r = guard("draws", || jobs.par_iter().map(|(i, s)| draws(*i, *s)).collect::<Vec<Vec<Value>>>());
    match r {
        Ok(vs) => vs.into_iter().flatten().for_each(|v| log.ev(v)),
        Err(m) => log.ev(json!({"e": "panic", "msg": m})),
    }
    poisson(log, &mut g);
    long(log, &mut g, deep);
    huge(log, &mut g, deep);
    cut(log, &mut g, deep);
    late(log, &mut g, deep);
    for i in 0..(if deep { 4 } else { 2 }) {
        let seed = g.next();
        let i = i + 2 * (seed % 2) as usize;
        let evs = guard("rare", || rare(i, seed, deep)).unwrap_or_else(|e| vec![json!({"e": "panic", "msg": e})]);
        evs.into_iter().for_each(|v| log.ev(v));
    }
}

fn datasets(log: &mut Log, g: &mut Gen, m: &Model, net: &CtbnNetwork, un: Units, unit: i32) {
    let want = *g.pick(&[1, 2, 5, 9, if m.cards.len() <= 2 { 300 } else { 12 }]);
    // around 0, 1 or 10 jumps per trajectory
    let exit = if un == Units::Powers { 2f64.powi(18) } else { 8.0 * m.cards.len() as f64 };
    let t_end = g.unit() * [0.02, 1.0, 10.0][g.below(3)] / exit / 2f64.powi(unit);
    let seed = if g.chance(1, 5) { None } else { Some(g.next()) };
    let r = guard("trajectory_generator", || {
        data_event(&trajectory_generator(net, want, t_end, seed), want, t_end)
    });
    log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
}

fn data_event(d: &Dataset, want: u64, t_end: f64) -> Value {
    let ts: Vec<Value> = d
        .get_trajectories()
        .iter()
        .map(|t| {
            let ti = t.get_time();
            let n = ti.len();
            json!({"rows": a2j(t.get_events(), |x| *x as i64),
                   "ord": (1..n).map(|k| sgn(ti[k] - ti[k - 1])).collect::<Vec<_>>(),
                   "zero": n > 0 && ti[0] == 0.0, "end": n > 0 && ti[n - 1] == t_end,
                   "before": (0..n.max(1) - 1).all(|k| ti[k] < t_end)})
        })
        .collect();
    json!({"e": "data", "want": want, "trajs": ts})
}

fn ctmp(log: &mut Log, g: &mut Gen, m: &Model, net: &CtbnNetwork) {
    let c = match guard("amalgamation", || net.amalgamation()) {
        Ok(c) => c,
        Err(_) => return, // C05
    };
    for start in [0, g.below(m.total()), m.total() - 1] {
        for want in [1, 2, 5] {
            let seed = g.next();
            let mut path: Vec<usize> = vec![];
            let r = guard("ctmp", || {
                let mut s = ForwardSampler::new(&c, Some(seed), Some(state(&[start])));
                for _ in 0..want {
                    path.push(unstate(&s.next().unwrap().state)[0]);
                }
            });
            let mut v = json!({"e": "ctmp", "start": start, "want": want, "path": path});
            if let Err(e) = r {
                v["panic"] = json!(e);
                // whether what was returned up to there follows the intensities
                let q = |x: usize, y: usize| matches!(c.get_node(0), Params::DiscreteStatesContinousTime(p) if p.get_cim().as_ref().map_or(false, |m| m[[0, x, y]] > 0.0));
                v["legal"] = json!(path.first().map_or(true, |x| *x == start) && path.windows(2).all(|w| w[0] != w[1] && q(w[0], w[1])));
            }
            log.ev(v);
        }
    }
}

/// long run on a small network: per joint state and last mover, the next jump and the waiting time
fn statistics(i: usize, seed: u64, steps: usize) -> Vec<Value> {
    let mut g = Gen::new(seed, "stat");
    let cards: Vec<usize> = match i % 8 {
        0 => vec![3],
        1 => vec![2, 2],
        2 => vec![2, 3],
        3 => vec![2, 2, 2],
        4 => vec![6],
        5 => vec![3, 3],
        6 => vec![2, 2, 2, 2],
        _ => vec![4, 2, 2],
    };
    let n = cards.len();
    let edges = match i % 3 {
        0 => random_edges(&mut g, n, 1, 2, 3),
        1 => random_edges(&mut g, n, 3, 4, 3),
        // a cycle, both directions of parenthood
        _ => (0..n).filter(|_| n > 1).map(|k| (k, (k + 1) % n)).collect(),
    };
    let zeros = if i % 2 == 0 { 0 } else { 1 };
    let m = Model::fill(cards, edges, |_, _, _, _| {
        if g.chance(zeros, 4) {
            0
        } else {
            *g.pick(&[3, 16, 40, 90])
        }
    });
    // the law does not depend on the unit of time
    let scale = 2f64.powi([0, -45, 0, 35, 0, -27][i % 6]);
    let mut net = build(&m, Units::Sixteenths, &mut g);
    for k in 0..n {
        let c = par(&net, k).get_cim().clone().unwrap();
        par_mut(&mut net, k).set_cim(c.mapv(|x| x * scale)).unwrap();
    }
    #[derive(Default)]
    struct Acc {
        n: u64,
        // jump -> how often, and how often after a short stay
        jumps: BTreeMap<(usize, usize), (u64, u64)>,
        dec: [u64; 10],
        bad: u64,
        // stay before short or not x this one short or not
        pp: [u64; 4],
    }
    let mut acc: BTreeMap<(Vec<usize>, i64), Acc> = BTreeMap::new();
    let mut s = ForwardSampler::new(&net, Some(seed), None);
    let mut done = 0;
    while done < steps {
        s.reset();
        let mut last = s.next().unwrap();
        let mut st = unstate(&last.state);
        let mut mover = -1i64;
        let mut before = None;
        for _ in 0..2000 {
            let x = s.next().unwrap();
            let nst = unstate(&x.state);
            let d: Vec<usize> = (0..n).filter(|k| nst[*k] != st[*k]).collect();
            let lam: i64 = (0..n)
                .map(|k| -m.q[k][[index_of(&m.cards, &parents_of(&m.edges, k), &st), st[k], st[k]]])
                .sum();
            let e = acc.entry((st.clone(), mover)).or_default();
            e.n += 1;
            let k = *d.first().unwrap_or(&0);
            let p = 1.0 - (-(lam as f64) / 16.0 * scale * (x.t - last.t)).exp();
            let short = p < 0.5;
            let j = e.jumps.entry((k, nst[k])).or_default();
            j.0 += 1;
            j.1 += short as u64;
            if (0.0..=1.0).contains(&p) && d.len() == 1 {
                e.dec[((p * 10.0) as usize).min(9)] += 1;
            } else {
                e.bad += 1;
            }
            if let Some(b) = before {
                e.pp[2 * b as usize + short as usize] += 1;
            }
            before = Some(short);
            mover = k as i64;
            st = nst;
            last = x;
            done += 1;
        }
    }
    let mut out = vec![json!({"e": "net", "net": m.json(), "ep": 100000 + i})];
    for ((st, mv), a) in acc {
        let lam: i64 = (0..m.cards.len())
            .map(|k| -m.q[k][[index_of(&m.cards, &parents_of(&m.edges, k), &st), st[k], st[k]]])
            .sum();
        out.push(json!({"e": "stat", "st": st, "prev": mv, "n": a.n, "lam": lam, "bad": a.bad, "dec": a.dec, "pp": a.pp,
            "jumps": a.jumps.into_iter().map(|((i, y), c)| json!([i, y, c.0, c.1])).collect::<Vec<_>>()}));
    }
    out
}

/// the first jump after a reset, wherever the run before was left
fn restarts(i: usize, seed: u64) -> Vec<Value> {
    let mut g = Gen::new(seed, "restart");
    let cards: Vec<usize> = [vec![2], vec![2, 2], vec![3], vec![2, 3], vec![2, 2, 2]][i % 5].clone();
    let n = cards.len();
    let edges = random_edges(&mut g, n, 2, 3, 2);
    let m = Model::fill(cards.clone(), edges, |_, _, _, _| *g.pick(&[3, 16, 40]));
    let net = build(&m, Units::Sixteenths, &mut g);
    let st: Vec<usize> = cards.iter().map(|c| g.below(*c)).collect();
    let lam: i64 = (0..n).map(|k| -m.q[k][[index_of(&cards, &parents_of(&m.edges, k), &st), st[k], st[k]]]).sum();
    let mut s = ForwardSampler::new(&net, Some(seed), Some(state(&st)));
    let mut jumps: BTreeMap<(usize, usize), (u64, u64)> = BTreeMap::new();
    let (mut dec, mut pp, mut bad, mut before, total) = ([0u64; 10], [0u64; 4], 0, false, 30_000);
    for h in 0..total {
        s.reset();
        let a = s.next().unwrap();
        let b = s.next().unwrap();
        let nst = unstate(&b.state);
        let d: Vec<usize> = (0..n).filter(|k| nst[*k] != st[*k]).collect();
        let p = 1.0 - (-(lam as f64) / 16.0 * (b.t - a.t)).exp();
        let short = p < 0.5;
        if unstate(&a.state) == st && a.t == 0.0 && (0.0..=1.0).contains(&p) && d.len() == 1 {
            dec[((p * 10.0) as usize).min(9)] += 1;
            let j = jumps.entry((d[0], nst[d[0]])).or_default();
            j.0 += 1;
            j.1 += short as u64;
        } else {
            bad += 1;
        }
        if h % 2 == 1 {
            pp[2 * before as usize + short as usize] += 1;
        }
        before = short;
        for _ in 0..g.below(6) {
            s.next();
        }
    }
    vec![
        json!({"e": "net", "net": m.json(), "ep": 600000 + i}),
        json!({"e": "stat", "st": st, "prev": -1, "n": total, "lam": lam, "bad": bad, "dec": dec, "pp": pp,
            "jumps": jumps.into_iter().map(|((i, y), c)| json!([i, y, c.0, c.1])).collect::<Vec<_>>()}),
    ]
}

/// first states without a requested one: new samplers, resets of one sampler, datasets
fn inits(i: usize, seed: u64) -> Vec<Value> {
    let mut g = Gen::new(seed, "init");
    let cards: Vec<usize> = match i / 3 {
        0 => vec![2, 3],
        1 => vec![3, 2, 2],
        2 => vec![11],
        3 => vec![300],
        _ => (0..70).map(|k| 2 + k % 3).collect(),
    };
    let edges = random_edges(&mut g, cards.len(), 1, cards.len().max(2), 2);
    let m = Model::fill(cards.clone(), edges, |_, _, _, _| g.range(1, 100) as i64);
    let net = build(&m, Units::Sixteenths, &mut g);
    // the joint state; with many nodes, each one together with another one
    let groups: Vec<Vec<usize>> =
        if cards.len() > 9 { (0..cards.len()).map(|k| vec![k, (k + 1 + k % 7) % cards.len()]).collect() } else { vec![(0..cards.len()).collect()] };
    let n = if cards.len() > 9 { 4000 } else { 40000 };
    let of = |gr: &Vec<usize>| gr.iter().map(|k| cards[*k]).collect::<Vec<usize>>();
    let mut counts: Vec<Vec<u64>> = groups.iter().map(|gr| vec![0u64; of(gr).iter().product()]).collect();
    let mut out = 0;
    let mut add = |v: Vec<usize>| {
        if v.len() == cards.len() && v.iter().zip(cards.iter()).all(|(a, c)| a < c) {
            for (gr, cn) in groups.iter().zip(counts.iter_mut()) {
                let w: Vec<usize> = gr.iter().map(|k| v[*k]).collect();
                cn[index_of(&of(gr), &(0..gr.len()).collect(), &w)] += 1;
            }
        } else {
            out += 1;
        }
    };
    match i % 3 {
        0 => (0..n).for_each(|k| {
            let mut s = ForwardSampler::new(&net, Some(seed.wrapping_add(k)), None);
            add(unstate(&s.next().unwrap().state));
        }),
        1 => {
            let mut s = ForwardSampler::new(&net, Some(seed), None);
            (0..n).for_each(|k| {
                if k > 0 {
                    s.reset();
                }
                add(unstate(&s.next().unwrap().state));
            })
        }
        _ => trajectory_generator(&net, n, 1e-3, Some(seed))
            .get_trajectories()
            .iter()
            .for_each(|t| add(t.get_events().row(0).to_vec())),
    }
    groups.iter().zip(counts).map(|(gr, c)| json!({"e": "init", "cards": of(gr), "n": n, "counts": c, "out": out})).collect()
}

/// draws of next state and residence time from one node
fn draws(i: usize, seed: u64) -> Vec<Value> {
    let mut g = Gen::new(seed, "draw");
    let card = match i % 4 {
        0 => 2,
        1 => 3,
        2 => g.range(3, 6),
        _ if i == 7 => 290,
        _ => g.range(6, 14),
    };
    let slack = i % 3 == 2;
    let u = if card > 100 { 1 } else { g.range(1, 3) };
    let zeros = g.range(0, 3);
    let mut m = Model::fill(vec![card], vec![], |_, _, _, _| 1);
    m.q[0] = a3(u, card, card, |_, x, y| if x == y || g.chance(zeros, 4) { 0 } else { *g.pick(if card > 100 { &[1i64, 2, 9, 25, 40] } else { &[1i64, 2, 30, 250, 600] }) });
    for a in 0..u {
        for x in 0..card {
            if (0..card).all(|y| m.q[0][[a, x, y]] == 0) {
                let y = (x + 1 + g.below(card - 1)) % card;
                m.q[0][[a, x, y]] = 5;
            }
            let s: i64 = (0..card).filter(|y| *y != x).map(|y| m.q[0][[a, x, y]]).sum();
            m.q[0][[a, x, x]] = -s;
        }
    }
    let un = if slack { Units::Slack } else { Units::Sixteenths };
    let scale = if slack { 1.0 } else { 2f64.powi([0, -45, 35, -27][(i / 3) % 4]) };
    let c = real(&m, 0, un, &mut g).mapv(|x| x * scale);
    let mut p = DiscreteStatesContinousTimeParams::new("x".into(), domain(card));
    p.set_cim(c.clone()).unwrap();
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let n = if card <= 3 { 60000 } else { 20000 };
    let mut out = vec![json!({"e": "net", "net": {"cards": [], "pars": [], "q": []}, "ep": 200000 + i})];
    for a in 0..u {
        for x in (0..card).filter(|x| card < 100 || x % 41 == 7) {
            let mut counts = vec![0u64; card];
            let (mut o, mut bad) = (0, 0);
            let mut dec = [0u64; 10];
            let mut short = vec![0u64; card];
            let mut pp = [0u64; 4];
            let mut before = false;
            let lam = -c[[a, x, x]];
            for k in 0..n {
                // the order the sampler has: the time first, or the other way round
                let mut next = None;
                if k >= n / 2 {
                    next = Some(p.get_random_state(x, a, &mut rng));
                }
                let is_short = match p.get_random_residence_time(x, a, &mut rng) {
                    Ok(t) if t >= 0.0 => {
                        let d = (((1.0 - (-lam * t).exp()) * 10.0) as usize).min(9);
                        dec[d] += 1;
                        d < 5
                    }
                    _ => {
                        bad += 1;
                        false
                    }
                };
                match next.unwrap_or_else(|| p.get_random_state(x, a, &mut rng)) {
                    Ok(StateType::Discrete(y)) if y < card => {
                        counts[y] += 1;
                        short[y] += is_short as u64;
                    }
                    _ => o += 1,
                }
                if k % 2 == 1 {
                    pp[2 * before as usize + is_short as usize] += 1;
                }
                before = is_short;
            }
            let row: Vec<i64> = (0..card).map(|y| m.q[0][[a, x, y]]).collect();
            out.push(json!({"e": "draw", "row": row, "x": x, "n": n, "counts": counts, "out": o,
                            "slack": slack, "dec": dec, "bad": bad, "short": short, "pp": pp}));
        }
    }
    out
}

/// rare transitions and extreme residence times: millions of draws of one node
fn rare(i: usize, seed: u64, deep: bool) -> Vec<Value> {
    let mut g = Gen::new(seed, "rare");
    let card = g.range(3, 6);
    // rates in millionths of the exit intensity; the rare ones before and after the others
    let (tot, m): (i64, i64) = (1_000_000, if deep { 400 } else { 60 });
    let x = i % card;
    let others: Vec<usize> = (0..card).filter(|y| *y != x).collect();
    let common = others[i % others.len()];
    let mut row: Vec<i64> = (0..card).map(|y| if y == x || y == common { 0 } else { *g.pick(&[2i64, 3, 5, 40]) }).collect();
    row[common] = tot - row.iter().sum::<i64>();
    row[x] = -tot;
    let unit = 2f64.powi([0, -40, 30, 3][i % 4]);
    let c = a3(1, card, card, |_, y, z| match (y == x, y == z) {
        (true, _) => row[z] as f64 * unit,
        (_, true) => -unit,
        _ => if z == (y + 1) % card { unit } else { 0.0 },
    });
    let mut p = DiscreteStatesContinousTimeParams::new("x".into(), domain(card));
    p.set_cim(c).unwrap();
    let mean = 1.0 / (tot as f64 * unit);
    let chunks = 48u64;
    let per = (m * tot) as u64 / chunks;
    let parts: Vec<(Vec<u64>, u64, [u64; 6])> = (0..chunks)
        .into_par_iter()
        .map(|k| {
            let mut rng = ChaCha8Rng::seed_from_u64(seed ^ (k << 32));
            let (mut counts, mut out, mut tails) = (vec![0u64; card], 0, [0u64; 6]);
            for _ in 0..per {
                match p.get_random_state(x, 0, &mut rng) {
                    Ok(StateType::Discrete(y)) if y < card => counts[y] += 1,
                    _ => out += 1,
                }
                match p.get_random_residence_time(x, 0, &mut rng) {
                    Ok(t) if t >= 0.0 && t < f64::INFINITY => {
                        let r = t / mean;
                        for (h, b) in [r > 12.0, r > 9.0, r > 6.0, r < 1e-6, r < 1e-3, r > 40.0].iter().enumerate() {
                            tails[h] += *b as u64;
                        }
                    }
                    _ => out += 1,
                }
            }
            (counts, out, tails)
        })
        .collect();
    let counts: Vec<u64> = (0..card).map(|y| parts.iter().map(|t| t.0[y]).sum()).collect();
    let out: u64 = parts.iter().map(|t| t.1).sum();
    let tails: Vec<u64> = (0..6).map(|h| parts.iter().map(|t| t.2[h]).sum()).collect();
    vec![
        json!({"e": "net", "net": {"cards": [], "pars": [], "q": []}, "ep": 500000 + i}),
        json!({"e": "rare", "row": row, "x": x, "m": m, "counts": counts, "out": out, "tails": tails}),
    ]
}

/// more than a million jumps: the rows are summed up instead of being listed
fn huge(log: &mut Log, g: &mut Gen, deep: bool) {
    for i in 0..(if deep { 3 } else { 1 }) {
        let cards = [vec![2, 3], vec![2], vec![4, 2, 2]][i % 3].clone();
        let n = cards.len();
        let m = Model::fill(cards.clone(), vec![], |_, _, _, _| 1);
        let exit: i64 = (0..n).map(|k| m.cards[k] as i64 - 1).sum();
        let net = m.net(1.0);
        let jumps = [1_300_000i64, 5_000_000, 17_500_000][i];
        let t_end = jumps as f64 / exit as f64;
        let seed = g.next();
        log.ev(json!({"e": "net", "net": m.json(), "ep": 600000 + i}));
        let r = guard("trajectory_generator", || {
            let d = trajectory_generator(&net, 1, t_end, Some(seed));
            let t = &d.get_trajectories()[0];
            let (ti, ev) = (t.get_time(), t.get_events());
            let k = ti.len();
            let dom = ev.rows().into_iter().all(|r| r.iter().zip(&cards).all(|(x, c)| x < c));
            let one = (1..k - 1).filter(|j| (0..n).filter(|h| ev[[*j, *h]] != ev[[*j - 1, *h]]).count() == 1).count();
            let last = ev.row(k - 1) == ev.row(k - 2);
            let ord = ti.windows(2).into_iter().filter(|w| w[0] <= w[1]).count();
            // jumps in each tenth of the time
            let mut tenth = [0i64; 10];
            (1..k - 1).for_each(|j| tenth[((ti[j] / t_end * 10.0) as usize).min(9)] += 1);
            json!({"e": "huge", "jumps": jumps, "got": d.get_trajectories().len(), "rows": ev.nrows(), "times": k, "dom": dom,
                   "one": one, "last": last, "ord": ord, "tenth": tenth, "zero": ti[0] == 0.0, "end": ti[k - 1] == t_end,
                   "before": ti[k - 2] < t_end})
        });
        log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
    }
}

/// The same trajectory cut at, just before and just after one of its transitions.
fn cut(log: &mut Log, g: &mut Gen, deep: bool) {
    for i in 0..(if deep { 60 } else { 12 }) {
        let cards = vec![g.range(2, 3), 2];
        let m = Model::fill(cards, vec![(0, 1)], |_, _, _, _| 1);
        let mut net = m.net(1.0);
        let e = [0, 40, -40, 7][i % 4];
        rescale(&mut net, e);
        log.ev(json!({"e": "net", "net": m.json(), "ep": 700000 + i}));
        let seed = g.next();
        let whole = 30.0 / 2f64.powi(e);
        let r = guard("trajectory_generator", || {
            let d = trajectory_generator(&net, 1, whole, Some(seed));
            let t = &d.get_trajectories()[0];
            let times = t.get_time().to_vec();
            let times = &times[..times.len() - 1];
            let mut evs = vec![];
            for k in 0..times.len() {
                let near = |ulps: i64| f64::from_bits((times[k].to_bits() as i64 + ulps).max(1) as u64);
                let ends = if k == 0 { vec![5e-324, f64::MIN_POSITIVE] } else { vec![near(0), near(1), near(-1), near(5), near(-40), near(1 << 20), near(1 << 30), near(-(1 << 30)), near(1 << 42)] };
                for end in ends {
                    let c = trajectory_generator(&net, 1, end, Some(seed));
                    let c = &c.get_trajectories()[0];
                    let n = c.get_time().len();
                    // the trajectory may be sampled differently for another end time
                    let same = (0..n.min(times.len() + 1) - 1).all(|j| c.get_time()[j] == times[j] && c.get_events().row(j) == t.get_events().row(j));
                    evs.push(json!([times.iter().filter(|x| **x < end).count(), n, same, c.get_time()[n - 1] == end]));
                }
            }
            json!({"e": "cut", "cuts": evs})
        });
        log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
    }
}

/// The stays after a first one that is 2^k times as long.
fn late(log: &mut Log, g: &mut Gen, deep: bool) {
    for i in 0..(if deep { 40 } else { 8 }) {
        let k = [10, 20, 24, 30, 34, 27, 16, 5][i % 8];
        let other = g.range(2, 4);
        let m = Model::fill(vec![2, other], vec![(0, 1)], |_, _, _, _| 1);
        let mut net = m.net(1.0);
        let slow = 2f64.powi(-k);
        let never = 2f64.powi(-90);
        par_mut(&mut net, 0).set_cim(ndarray::arr3(&[[[-slow, slow], [never, -never]]])).unwrap();
        let mut c = ndarray::Array3::zeros((2, other, other));
        for x in 0..other {
            for y in 0..other {
                for u in 0..2 {
                    c[[u, x, y]] = if u == 0 { never } else { 1.0 } * if x == y { 1.0 - other as f64 } else { 1.0 };
                }
            }
        }
        par_mut(&mut net, 1).set_cim(c).unwrap();
        log.ev(json!({"e": "net", "net": m.json(), "ep": 800000 + i}));
        let n = 3000;
        let seed = g.next();
        let r = guard("late", || {
            let mut s = ForwardSampler::new(&net, Some(seed), Some(state(&[0, 0])));
            s.next();
            let mut last = s.next().unwrap();
            let (mut dec, mut zero) = ([0i64; 10], 0);
            for _ in 0..n {
                let a = s.next().unwrap();
                let stay = (a.t - last.t) * (other as f64 - 1.0);
                // the share of stays that are shorter
                dec[((1.0 - (-stay).exp()) * 10.0).clamp(0.0, 9.0) as usize] += 1;
                zero += (stay <= 0.0) as i64;
                last = a;
            }
            json!({"e": "late", "k": k, "n": n, "dec": dec, "zero": zero})
        });
        log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
    }
}

/// very long trajectories of processes that jump at a constant total rate
fn long(log: &mut Log, g: &mut Gen, deep: bool) {
    for i in 0..(if deep { 9 } else { 3 }) {
        let cards = [vec![2], vec![2, 2], vec![3]][i % 3].clone();
        let n = cards.len();
        let m = Model::fill(cards, vec![], |_, _, _, _| 1);
        let exit: i64 = (0..n).map(|k| m.cards[k] as i64 - 1).sum();
        let mut net = m.net(1.0);
        let unit = [0, 44, -44, 0, 30, -30, 60, -60, 10][(i + 2) % 9];
        rescale(&mut net, unit);
        let exit = exit as f64 * 2f64.powi(unit);
        let jumps = [20000i64, 6000, 70000][i % 3];
        let seed = g.next();
        log.ev(json!({"e": "net", "net": m.json(), "ep": 400000 + i}));
        let t_end = jumps as f64 / exit;
        let r = guard("trajectory_generator", || {
            let d = trajectory_generator(&net, 1, t_end, Some(seed));
            let mut v = data_event(&d, 1, t_end);
            v["e"] = json!("long");
            v["jumps"] = json!(jumps);
            let ti = d.get_trajectories()[0].get_time();
            // the last transition is not far from the end, the first not far from the start
            let gap = |a: f64, b: f64| q((b - a) * exit, 1000.0);
            let k = ti.len();
            v["gaps"] = json!([gap(ti[0], ti[1.min(k - 1)]), gap(ti[k.max(2) - 2], ti[k - 1])]);
            v
        });
        log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
    }
}

/// a process that always jumps at the same total rate, observed for one half-life
fn poisson(log: &mut Log, g: &mut Gen) {
    for i in 0..8 {
        let unit = 2f64.powi([0, 0, 0, 0, 41, 30, -45, 60][i]);
        let cards = match i % 4 {
            0 => vec![2],
            1 => vec![3, 2],
            2 => vec![2, 2, 2],
            _ => vec![2; 6],
        };
        let n = cards.len();
        let edges = random_edges(g, n, 1, 2, 2);
        let m = Model::fill(cards, edges, |_, _, _, _| 1);
        let mut net = mk_net(&m.cards, &m.edges);
        for k in 0..n {
            let c = m.cards[k];
            let r = 1.0 / (c - 1) as f64;
            let cim = a3(m.q[k].dim().0, c, c, |_, x, y| if x == y { -unit } else { r * unit });
            par_mut(&mut net, k).set_cim(cim).unwrap();
        }
        let k = if i == 0 { 70000u64 } else { 20000 };
        let seed = g.next();
        let r = guard("poisson", || {
            let d = trajectory_generator(&net, k, 2f64.ln() / n as f64 / unit, Some(seed));
            let mut zeros = 0;
            let mut total = 0;
            // pairs of trajectories, one after the other: whether they have no jump at all
            let mut pp = [0u64; 4];
            // the first state of the first node, and whether there is no jump
            let mut first = [0u64; 4];
            let mut before = false;
            for (h, t) in d.get_trajectories().iter().enumerate() {
                let j = t.get_time().len() as i64 - 2;
                total += j;
                if j == 0 {
                    zeros += 1;
                }
                if h % 2 == 1 {
                    pp[2 * before as usize + (j == 0) as usize] += 1;
                }
                before = j == 0;
                first[2 * (t.get_events()[[0, n - 1]] == 0) as usize + (j == 0) as usize] += 1;
            }
            json!({"e": "poisson", "k": k, "got": d.get_trajectories().len(), "zeros": zeros, "total": total, "pp": pp, "first": first})
        });
        log.ev(json!({"e": "net", "net": m.json(), "ep": 300000 + i}));
        log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
    }
}
