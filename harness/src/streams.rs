//! C09: seeds and streams of randomness.
use crate::amalg::Model;
use crate::reward::Rf;
use crate::util::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::*;
use reCTBN::reward::*;
use reCTBN::sampling::{ForwardSampler, Sampler};
use reCTBN::tools::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::{Arc, Barrier};

const PAIRS: [(u64, u64); 12] = [
    (1 << 60, (1 << 60) + 1),
    (u64::MAX, 1),
    (0, 1),
    (1, 2),
    (u64::MAX, 0),
    (7, 7 + (1 << 32)),
    (5, 5 | (1 << 63)),
    (3, 3 << 32),
    (1 << 31, 1 << 63),
    (0xDEADBEEF, 0xDEADBEEF_00000000),
    (u64::MAX, u64::MAX >> 1),
    (u32::MAX as u64, u64::MAX),
];
fn digest(parts: impl Iterator<Item = u64>) -> String {
    let mut h = 0xcbf29ce484222325u64;
    let mut g = 0x9E3779B97F4A7C15u64;
    for p in parts {
        for b in p.to_le_bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        g = (g ^ p).rotate_left(23).wrapping_mul(0xBF58476D1CE4E5B9);
    }
    format!("{:016x}{:016x}", h, g)
}
fn st(s: &NetworkProcessState) -> u64 {
    unstate(s).into_iter().fold(0, |a, x| a * 16 + x as u64)
}
/// what a component works on; everything derives from the number of the test
struct World {
    nets: Vec<CtbnNetwork>,
    models: Vec<Model>,
    cards: Vec<Vec<usize>>,
    rfs: Vec<Rf>,
}
fn world(ep: usize) -> World {
    let mut g = Gen::new(11, &format!("world {}", ep % 16));
    let mut w = World { nets: vec![], models: vec![], cards: vec![], rfs: vec![] };
    for _ in 0..2 {
        let n = g.range(2, 4);
        let cards: Vec<usize> = (0..n).map(|_| g.range(2, 3)).collect();
        let edges = random_edges(&mut g, n, 1, 2, 2);
        let m = Model::fill(cards.clone(), edges, |_, _, _, _| g.range(1, 9) as i64);
        w.nets.push(m.net(2.0));
        w.rfs.push(Rf::random(&mut g, &cards, 1, 9));
        w.models.push(m);
        w.cards.push(cards);
    }
    w
}
fn blank(n: usize) -> CtbnNetwork {
    mk_net(&vec![2; n], &[])
}
enum Comp<'a> {
    Sampler(ForwardSampler<'a, CtbnNetwork>),
    Graph(UniformGraphGenerator),
    Params(UniformParametersGenerator),
    /// functions of their arguments and the seed
    Data(Option<u64>),
    Mc(MonteCarloReward),
    Space(MonteCarloReward),
}
fn create<'a>(w: &'a World, kind: &str, inp: usize, seed: Option<u64>) -> Comp<'a> {
    let net = &w.nets[0];
    // the last bit of inp: with or without an initial state; one of two parameters otherwise
    let b = inp % 2;
    match kind {
        "sampler" => Comp::Sampler(ForwardSampler::new(net, seed, if b == 1 { Some(state(&vec![1; w.cards[0].len()])) } else { None })),
        "graph" => Comp::Graph(UniformGraphGenerator::new([0.5, 0.4][b], seed)),
        "params" => Comp::Params(UniformParametersGenerator::new([0.0..5.0, 1.0..2.0][b].clone(), seed)),
        "data" => Comp::Data(seed),
        k => {
            let c = if b == 0 { RewardCriteria::FiniteHorizon } else { RewardCriteria::InfiniteHorizon { discount_factor: 0.5 } };
            let m = MonteCarloReward::new(7, 1e-9, 0.1, 2.0, c, seed);
            if k == "mc" { Comp::Mc(m) } else { Comp::Space(m) }
        }
    }
}
/// one use: the digest of everything it returned, and the digests of its parts
fn apply(w: &World, c: &mut Comp, arg: usize) -> (String, Vec<String>) {
    match c {
        Comp::Sampler(s) => {
            let v: Vec<u64> = (0..12).map(|_| s.next().unwrap()).flat_map(|x| [x.t.to_bits(), st(&x.state)]).collect();
            (digest(v.into_iter()), vec![])
        }
        Comp::Graph(g) => {
            let mut net = blank([11, 12][arg]);
            g.generate_graph(&mut net);
            let v: Vec<u64> = net.get_node_indices().flat_map(|i| net.get_parent_set(i).into_iter().map(move |p| (p * 100 + i) as u64).collect::<Vec<_>>()).collect();
            (digest(v.into_iter()), vec![])
        }
        Comp::Params(g) => {
            let mut net = w.models[arg].net(2.0);
            g.generate_parameters(&mut net);
            let parts: Vec<String> = net
                .get_node_indices()
                .map(|i| match par(&net, i).get_cim() {
                    Some(c) => digest(c.iter().map(|x| x.to_bits())),
                    None => "none".into(),
                })
                .collect();
            (parts.join(""), parts)
        }
        Comp::Data(seed) => {
            let d = trajectory_generator(&w.nets[arg], 3, 20.0, *seed);
            let parts: Vec<String> = d
                .get_trajectories()
                .iter()
                .map(|t| digest(t.get_time().iter().map(|x| x.to_bits()).chain(t.get_events().iter().map(|x| *x as u64))))
                .collect();
            (parts.join(""), parts)
        }
        Comp::Mc(m) => {
            let net = &w.nets[arg];
            let x = m.evaluate_state(net, &w.rfs[arg].real(net), &state(&vec![1; w.cards[arg].len()]));
            (digest([x.to_bits()].into_iter()), vec![])
        }
        Comp::Space(m) => {
            let net = &w.nets[arg];
            let mut v: Vec<(u64, u64)> = m.evaluate_state_space(net, &w.rfs[arg].real(net)).into_iter().map(|(s, x)| (st(&s), x.to_bits())).collect();
            v.sort();
            (digest(v.into_iter().flat_map(|x| [x.0, x.1])), vec![])
        }
    }
}
fn reset(c: &mut Comp) {
    if let Comp::Sampler(s) = c {
        s.reset()
    }
}
fn seed_of(ep: usize, which: usize) -> Option<u64> {
    let mut g = Gen::new(12, &format!("seeds {}", ep));
    let (a, b) = if ep % 3 == 2 { (g.next(), g.next()) } else { PAIRS[(ep / 3) % PAIRS.len()] };
    [None, Some(a), Some(b)][which]
}
#[derive(Clone)]
struct Op {
    op: String,
    slot: usize,
    kind: String,
    inp: usize,
    seed: usize,
    arg: usize,
}
fn ops_of(v: &Value) -> Vec<Op> {
    let n = |x: &Value, k: &str| x[k].as_u64().unwrap_or(0) as usize;
    v["ops"]
        .as_array()
        .unwrap()
        .iter()
        .map(|o| Op {
            op: o["op"].as_str().unwrap().into(),
            slot: n(o, "slot"),
            kind: o["kind"].as_str().unwrap_or("").into(),
            inp: n(o, "inp"),
            seed: n(o, "seed"),
            arg: n(o, "arg"),
        })
        .collect()
}
fn step<'a>(w: &'a World, ep: usize, c: &mut Option<Comp<'a>>, o: &Op, slot: usize) -> Value {
    let r = guard("stream", || match o.op.as_str() {
        "new" => {
            *c = Some(create(w, &o.kind, o.inp, seed_of(ep, o.seed)));
            json!({"e": "new", "slot": slot, "kind": o.kind, "inp": o.inp, "seed": o.seed})
        }
        "reset" => {
            reset(c.as_mut().unwrap());
            json!({"e": "reset", "slot": slot})
        }
        _ => {
            let (d, p) = apply(w, c.as_mut().unwrap(), o.arg);
            json!({"e": "use", "slot": slot, "arg": o.arg, "d": d, "parts": p})
        }
    });
    r.unwrap_or_else(|e| json!({"e": "panic", "msg": e}))
}
/// variant 0: in order; 1: one thread per component; 2: in order, in another process that logs everything
fn run(ep: usize, ops: &[Op], variant: usize) -> Vec<Value> {
    let base = variant * 10;
    if variant == 1 {
        let k = ops.iter().map(|o| o.slot).max().unwrap_or(0) + 1;
        let start = Arc::new(Barrier::new(k));
        let hs: Vec<_> = (0..k)
            .map(|s| {
                let mine: Vec<Op> = ops.iter().filter(|o| o.slot == s).cloned().collect();
                let start = start.clone();
                std::thread::spawn(move || {
                    let w = world(ep);
                    let mut c = None;
                    start.wait();
                    mine.iter().map(|o| step(&w, ep, &mut c, o, base + s)).collect::<Vec<_>>()
                })
            })
            .collect();
        return hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![json!({"e": "panic", "msg": "thread"})])).collect();
    }
    let w = world(ep);
    let mut cs: Vec<Option<Comp>> = vec![];
    ops.iter()
        .map(|o| {
            while cs.len() <= o.slot {
                cs.push(None);
            }
            step(&w, ep, &mut cs[o.slot], o, base + o.slot)
        })
        .collect()
}
/// One use of each kind of component for thousands of seeds: small ones, powers of two and
/// of ten with their neighbours, random ones.
pub fn record(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "seeds");
    let per = if deep { 4000 } else { 900 };
    for (j, kind) in ["sampler", "graph", "params", "data", "mc", "space"].iter().enumerate() {
        let w = world(j + seed as usize);
        let inp = if *kind == "sampler" { 1 } else { 0 };
        let mut seeds: BTreeSet<u64> = (0..per).collect();
        seeds.extend((0..64).flat_map(|k| [1u64 << k, (1u64 << k).wrapping_add(1), (1u64 << k).wrapping_sub(1), u64::MAX - (1u64 << k)]));
        seeds.extend((0..20).flat_map(|k| [10u64.pow(k), 10u64.pow(k) + 1, 7 * 10u64.pow(k % 19)]));
        // pairs that agree in all but one bit, or in all but their order
        for _ in 0..per / 2 {
            let x = g.next();
            seeds.extend([x, x ^ (1 << g.below(64)), x.swap_bytes(), x.rotate_left(32), !x, x.wrapping_neg()]);
        }
        let n = seeds.len();
        let (mut d, mut parts, mut bad) = (vec![], vec![], None);
        for s in seeds {
            match guard("seeds", || apply(&w, &mut create(&w, kind, inp, Some(s)), 0)) {
                Ok((x, p)) => {
                    d.push(x);
                    parts.extend(p);
                }
                Err(e) => bad = Some(e),
            }
        }
        log.ev(match bad {
            None => json!({"e": "seeds", "kind": kind, "n": n, "d": d, "parts": parts}),
            Some(e) => json!({"e": "panic", "msg": e}),
        });
    }
    overlap(log, seed, deep);
    fresh(log, seed, deep);
}
/// Thousands of uses of one component: how many results there are, and how many differ.
fn fresh(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "fresh");
    let k = if deep { 100_000 } else { 12_000 };
    let pair = {
        let mut n = mk_net(&[2], &[]);
        par_mut(&mut n, 0).set_cim(ndarray::arr3(&[[[-1.0, 1.0], [1.0, -1.0]]])).unwrap();
        n
    };
    for kind in ["reset", "stays", "data", "params", "graph", "mc"] {
        for s in [Some(g.next()), None] {
            let r = guard("fresh", || {
                let all: Vec<(u64, u64)> = match kind {
                    "reset" => {
                        let mut f = ForwardSampler::new(&pair, s, None);
                        (0..k).map(|_| { f.reset(); f.next(); (f.next().unwrap().t.to_bits(), f.next().unwrap().t.to_bits()) }).collect()
                    }
                    "stays" => {
                        let mut f = ForwardSampler::new(&pair, s, None);
                        let t: Vec<f64> = (0..20 * k).map(|_| f.next().unwrap().t).collect();
                        let d: Vec<u64> = t.windows(2).map(|w| ((w[1] - w[0]) * (1u64 << 28) as f64) as u64).collect();
                        // three stays in a row
                        d.windows(3).step_by(2).map(|w| (w[0], w[1] << 32 | w[2] & 0xffff_ffff)).collect()
                    }
                    "data" => trajectory_generator(&pair, k as u64, 30.0, s)
                        .get_trajectories()
                        .iter()
                        .filter(|t| t.get_time().len() > 4)
                        .map(|t| (t.get_time()[1].to_bits(), t.get_time()[2].to_bits()))
                        .collect(),
                    "params" => {
                        let mut f: UniformParametersGenerator = RandomParametersGenerator::new(1.0..2.0, s);
                        let mut n = mk_net(&[3], &[]);
                        n.initialize_adj_matrix();
                        (0..k)
                            .map(|_| {
                                f.generate_parameters(&mut n);
                                let c = par(&n, 0).get_cim().as_ref().unwrap().clone();
                                (c[[0, 0, 0]].to_bits(), c[[0, 1, 1]].to_bits())
                            })
                            .collect()
                    }
                    "graph" => {
                        let mut f: UniformGraphGenerator = RandomGraphGenerator::new(0.5, s);
                        let mut n = blank(11);
                        (0..k)
                            .map(|_| {
                                f.generate_graph(&mut n);
                                let m = |i: usize| n.get_children_set(i).iter().fold(0u64, |a, x| a | 1 << x);
                                ((0..5).fold(0, |a, i| a << 11 | m(i)), (5..10).fold(0, |a, i| a << 11 | m(i)))
                            })
                            .collect()
                    }
                    _ => {
                        // rewards of single trajectories, recovered from the averages
                        let mut f = reCTBN::reward::reward_function::FactoredRewardFunction::initialize_from_network_process(&pair);
                        f.get_instantaneous_reward_mut(0).assign(&ndarray::arr1(&[0.0, 1.0]));
                        let start = state(&[0]);
                        let s = s.unwrap_or(77);
                        let sum = |n: usize| {
                            MonteCarloReward::new(n, 1.0, 0.0, 8.0, RewardCriteria::FiniteHorizon, Some(s)).evaluate_state(&pair, &f, &start) * n as f64
                        };
                        let mut v: Vec<u64> = vec![];
                        for from in [1usize, 129, 257, 513, 1001, 1025, 2049, 4097, 5001, 8193, 10001] {
                            let t: Vec<f64> = (0..7).map(|j| if from + j == 1 { 0.0 } else { sum(from + j - 1) }).collect();
                            v.extend(t.windows(2).map(|w| ((w[1] - w[0]) * 1e7).round() as i64 as u64));
                        }
                        v.chunks(2).map(|w| (w[0] / 16, w[1] / 16)).collect()
                    }
                };
                json!({"e": "fresh", "kind": kind, "n": all.len(), "d": all.iter().collect::<BTreeSet<_>>().len()})
            });
            log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
        }
    }
}

/// The values behind what a component returns, several uses and several seeds: no stretch
/// of random numbers is used twice. Equal values get equal numbers.
fn overlap(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "overlap");
    let q = |x: f64| (x.abs() * (1u64 << 40) as f64).round() as u64;
    // one node whose state always stays for an exponential time of mean one
    let ring = {
        let mut n = mk_net(&[5], &[]);
        let c = ndarray::Array3::from_shape_fn((1, 5, 5), |(_, x, y)| if x == y { -1.0 } else { 0.25 });
        par_mut(&mut n, 0).set_cim(c).unwrap();
        n
    };
    let stays = |t: Vec<f64>| -> Vec<u64> { t.windows(2).map(|w| ((w[1] - w[0]) * (1u64 << 36) as f64).round() as u64).collect() };
    for kind in ["sampler", "data", "params", "wide", "graph"] {
        for ep in 0..if deep { 12 } else { 3 } {
            let s0 = match ep % 3 { 0 => g.next(), 1 => g.next() >> 40, _ => g.next() >> 32 << 32 };
            let seeds = [Some(s0), Some(s0 + 1), Some(s0 ^ 1 << 33), None, None];
            let r = guard("overlap", || {
                let mut uses: Vec<Vec<u64>> = vec![];
                for s in seeds {
                    match kind {
                        "sampler" => {
                            let mut f = ForwardSampler::new(&ring, s, None);
                            for k in [300usize, 40, 900, 3] {
                                uses.push(stays((0..k).map(|_| f.next().unwrap().t).collect()));
                                f.reset();
                            }
                        }
                        "data" => {
                            let (k, end) = [(4, 300.0), (40, 20.0), (1, 900.0)][ep % 3];
                            for t in trajectory_generator(&ring, k, end, s).get_trajectories() {
                                let t = t.get_time().to_vec();
                                // the last row is the end of the observation
                                uses.push(stays(t[..t.len() - 1].to_vec()));
                            }
                        }
                        "graph" => {
                            let mut f: UniformGraphGenerator = RandomGraphGenerator::new(0.5, s);
                            for k in [24usize, 30, 24] {
                                let mut net = blank(k);
                                f.generate_graph(&mut net);
                                let bits: Vec<u64> = (0..k)
                                    .flat_map(|i| {
                                        let c = net.get_children_set(i);
                                        (0..k).filter(move |j| *j != i).map(move |j| c.contains(&j) as u64).collect::<Vec<_>>()
                                    })
                                    .collect();
                                // stretches of 56 decisions
                                uses.push(bits.windows(56).map(|w| w.iter().fold(0, |a, b| a * 2 + b)).collect());
                            }
                        }
                        k => {
                            let mut f: UniformParametersGenerator = RandomParametersGenerator::new(0.0..1.0, s);
                            for h in 0..3 {
                                let mut net = if k == "wide" {
                                    // from hundreds to thousands of rows
                                    let n = [11, 9, 10][h] + ep % 3;
                                    mk_net(&vec![2; n + 1], &(0..n).map(|i| (i, n)).collect::<Vec<_>>())
                                } else {
                                    mk_net(&[2, 3, 2, 4, 2, 2, 3], &[(0, 1), (1, 2), (2, 3), (3, 4), (1, 4), (5, 6), (6, 5)])
                                };
                                f.generate_parameters(&mut net);
                                uses.push(
                                    net.get_node_indices()
                                        .flat_map(|i| {
                                            let c = par(&net, i).get_cim().as_ref().unwrap().clone();
                                            (0..c.dim().0).flat_map(|u| (0..c.dim().1).map(|x| q(c[[u, x, x]])).collect::<Vec<_>>()).collect::<Vec<_>>()
                                        })
                                        .collect(),
                                );
                            }
                        }
                    }
                }
                uses
            });
            log.ev(match r {
                Ok(uses) => {
                    let mut ids = std::collections::BTreeMap::new();
                    let uses: Vec<Vec<usize>> = uses
                        .into_iter()
                        .map(|u| u.into_iter().map(|v| { let n = ids.len(); *ids.entry(v).or_insert(n) }).collect())
                        .collect();
                    json!({"e": "overlap", "kind": kind, "uses": uses})
                }
                Err(e) => json!({"e": "panic", "msg": e}),
            });
        }
    }
}
pub fn replay(log: &mut Log, input: &str) {
    let tests: Vec<Vec<Op>> = input.lines().map(|l| ops_of(&serde_json::from_str(l).unwrap())).collect();
    let child = std::env::var("STREAMS_CHILD").is_ok();
    if child {
        log_everything();
        // backwards, so that what ran before differs
        for ep in (0..tests.len()).rev() {
            log.ev(json!({"e": "child", "ep": ep, "evs": run(ep, &tests[ep], 2)}));
        }
        return;
    }
    let dir = std::env::temp_dir().join(format!("streams-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (inp, out) = (dir.join("in"), dir.join("out"));
    std::fs::write(&inp, input).unwrap();
    let ok = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["replay", "streams", inp.to_str().unwrap(), out.to_str().unwrap()])
        .env("STREAMS_CHILD", "1")
        .env("SEED", "77")
        .env("RAYON_NUM_THREADS", "2")
        .stdout(std::process::Stdio::null())
        .status()
        .unwrap();
    assert!(ok.success());
    let mut other: Vec<Value> = vec![Value::Null; tests.len()];
    for l in std::fs::read_to_string(&out).unwrap().lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        other[v["ep"].as_u64().unwrap() as usize] = v["evs"].clone();
    }
    for f in [&inp, &out] {
        std::fs::remove_file(f).unwrap();
    }
    std::fs::remove_dir(&dir).unwrap();
    for (ep, ops) in tests.iter().enumerate() {
        log.ev(json!({"e": "test", "ep": ep}));
        for v in run(ep, ops, 0) {
            log.ev(v);
        }
        for v in run(ep, ops, 1) {
            log.ev(v);
        }
        for v in other[ep].as_array().unwrap() {
            log.ev(v.clone());
        }
    }
}
