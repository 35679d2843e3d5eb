//! C10, C11: random graphs and random parameters.
use crate::util::*;
use rayon::prelude::*;
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, ctmp::CtmpProcess, NetworkProcess};
use reCTBN::tools::*;
use serde_json::{json, Value};

fn edges_of<T: NetworkProcess>(net: &T) -> (Vec<Vec<usize>>, Vec<Vec<usize>>) {
    let n = net.get_number_of_nodes();
    let (mut p, mut c) = (vec![], vec![]);
    for i in 0..n {
        p.extend(net.get_parent_set(i).into_iter().map(|x| vec![x, i]));
        c.extend(net.get_children_set(i).into_iter().map(|x| vec![i, x]));
    }
    (p, c)
}
fn cards_of<T: NetworkProcess>(net: &T) -> Vec<usize> {
    net.get_node_indices().map(|i| net.get_node(i).get_reserved_space_as_parent()).collect()
}
fn labels_ok(net: &CtbnNetwork) -> bool {
    net.get_node_indices().all(|i| net.get_node(i).get_label() == &format!("n{}", i))
}
fn some_seed(g: &mut Gen) -> Option<u64> {
    if g.chance(1, 6) {
        None
    } else {
        Some(g.next() >> g.below(64))
    }
}

fn graph_event(gen: &mut UniformGraphGenerator, net: &mut CtbnNetwork, num: u64, den: u64) -> Value {
    let r = guard("generate_graph", || {
        gen.generate_graph(net);
        let (p, c) = edges_of(net);
        json!({"e": "graph", "num": num, "den": den, "edges": p, "cedges": c, "cards": cards_of(net), "labels": labels_ok(net)})
    });
    r.unwrap_or_else(|e| json!({"e": "panic", "msg": e}))
}

fn param_event<T: NetworkProcess>(gen: &mut UniformParametersGenerator, net: &mut T, lo: f64, hi: f64) -> Value {
    let r = guard("generate_parameters", || {
        gen.generate_parameters(net);
        let (p, _) = edges_of(net);
        let nodes: Vec<Value> = net
            .get_node_indices()
            .map(|i| match par(net, i).get_cim() {
                None => json!({"shape": [], "valid": false, "neg": 0, "min": 0, "max": 0}),
                Some(c) => {
                    let neg = c.indexed_iter().filter(|((_, a, b), v)| a != b && !(**v >= 0.0 && v.is_finite())).count();
                    let ex: Vec<f64> = c.outer_iter().flat_map(|m| m.diag().iter().map(|x| -x).collect::<Vec<_>>()).collect();
                    let mn = ex.iter().cloned().fold(f64::INFINITY, f64::min);
                    let mx = ex.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                    json!({"shape": c.shape(), "valid": par(net, i).validate_params().is_ok(),
                           "neg": neg, "min": q(mn, 1e6 / hi), "max": q(mx, 1e6 / hi)})
                }
            })
            .collect();
        json!({"e": "params", "lo": q(lo, 1e6 / hi), "nodes": nodes, "edges": p, "cards": cards_of(net)})
    });
    r.unwrap_or_else(|e| json!({"e": "panic", "msg": e}))
}

pub fn record(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "gener");
    let dens: [(u64, u64); 12] = [
        (0, 1), (1, 1), (1, 2), (1, 4), (3, 10), (9, 10), (1, 100), (99, 100), (1, 250), (1, 16), (1, 3), (997, 1000),
    ];
    for ep in 0..(if deep { 400 } else { 90 }) {
        let n = match ep % 5 {
            0 => g.range(0, 2),
            1 => g.range(2, 4),
            2 => g.range(3, 6),
            3 => g.range(5, 8),
            _ => g.range(8, 20),
        };
        let big = ep % 5 < 2;
        let cards: Vec<usize> = (0..n).map(|_| if big { g.range(2, 11) } else { g.range(2, 3) }).collect();
        let mut net = CtbnNetwork::new();
        for (i, c) in cards.iter().enumerate() {
            net.add_node(mk_node(&format!("n{}", i), *c)).unwrap();
        }
        // sometimes without structure, sometimes with one that has to disappear
        let mut edges = vec![];
        if g.chance(2, 3) {
            net.initialize_adj_matrix();
            if n > 1 {
                edges = random_edges(&mut g, n, 1, 2, 4);
                for (p, c) in &edges {
                    net.add_edge(*p, *c);
                }
            }
        }
        log.ev(json!({"e": "net", "cards": cards, "edges": edges, "ep": ep}));
        let (mut num, mut den) = *g.pick(&dens);
        let mut gg = UniformGraphGenerator::new(num as f64 / den as f64, some_seed(&mut g));
        let (lo, hi) = *g.pick(&[(0.5, 5.0), (0.0, 1.0), (2.0, 2.5), (1e-3, 1e-2), (0.0, 1e4), (100.0, 1000.0), (1e-12, 1e-9), (0.0, 1e-15)]);
        let mut pg = UniformParametersGenerator::new(lo..hi, some_seed(&mut g));
        let mut have = edges.len();
        let mut init = false;
        for _ in 0..6 {
            match g.below(6) {
                0 | 1 | 2 => {
                    if g.chance(1, 4) {
                        let x = *g.pick(&dens);
                        num = x.0;
                        den = x.1;
                        gg = UniformGraphGenerator::new(num as f64 / den as f64, some_seed(&mut g));
                    }
                    let v = graph_event(&mut gg, &mut net, num, den);
                    have = v["edges"].as_array().map(|a| a.len()).unwrap_or(0);
                    log.ev(v);
                    init = true;
                }
                3 if n > 1 => {
                    let p = g.below(n);
                    let c = (p + 1 + g.below(n - 1)) % n;
                    if n <= 8 || have < 2 * n {
                        net.add_edge(p, c);
                        init = true;
                        log.ev(json!({"e": "edge", "p": p, "c": c}));
                    }
                }
                _ => {
                    // keep what has to be allocated within bounds
                    let small = init
                        && (0..n).all(|i| net.get_parent_set(i).iter().map(|p| cards[*p]).product::<usize>() * cards[i] * cards[i] < 60000);
                    if small {
                        log.ev(param_event(&mut pg, &mut net, lo, hi));
                    }
                }
            }
        }
    }
    // large networks, domains and parent sets
    for ep in 0..(if deep { 16 } else { 4 }) {
        let (cards, edges): (Vec<usize>, Vec<(usize, usize)>) = match ep % 4 {
            0 => (vec![2; 70], vec![(0, 69), (68, 3)]),
            1 => (vec![3, 300, 2, 2], vec![(0, 1), (3, 2)]),
            2 => (vec![2, 19, 17, 3], vec![(1, 0), (2, 0), (0, 3)]),
            _ => ((0..140).map(|k| 2 + k % 2).collect(), (0..139).map(|k| (k, k + 1)).collect()),
        };
        let mut net = mk_net(&cards, &edges);
        log.ev(json!({"e": "net", "cards": cards, "edges": edges, "ep": 5000 + ep}));
        let mut pg = UniformParametersGenerator::new(0.5..5.0, some_seed(&mut g));
        log.ev(param_event(&mut pg, &mut net, 0.5, 5.0));
        let mut gg = UniformGraphGenerator::new(0.01, some_seed(&mut g));
        log.ev(graph_event(&mut gg, &mut net, 1, 100));
        if (0..cards.len()).all(|i| net.get_parent_set(i).iter().map(|p| cards[*p]).product::<usize>() * cards[i] * cards[i] < 200_000) {
            log.ev(param_event(&mut pg, &mut net, 0.5, 5.0));
        }
        if cards.len() < 100 {
            let mut gg = UniformGraphGenerator::new(1.0, some_seed(&mut g));
            log.ev(graph_event(&mut gg, &mut net, 1, 1));
            let mut gg = UniformGraphGenerator::new(0.5, some_seed(&mut g));
            log.ev(graph_event(&mut gg, &mut net, 1, 2));
        }
    }
    // more parent configurations than 16 bits can number
    {
        let cards: Vec<usize> = (0..20).map(|k| if k == 5 { 3 } else { 2 }).collect();
        let edges: Vec<(usize, usize)> = (1..18).map(|k| (k, 0)).chain([(0, 19), (18, 5)]).collect();
        let mut net = mk_net(&cards, &edges);
        log.ev(json!({"e": "net", "cards": cards, "edges": edges, "ep": 5500}));
        let mut pg = UniformParametersGenerator::new(0.5..5.0, some_seed(&mut g));
        log.ev(param_event(&mut pg, &mut net, 0.5, 5.0));
    }
    // graphs on more nodes than 8 bits can number, seen through the degrees
    for (k, (num, den)) in [(1u64, 1u64), (1, 2), (1, 50), (0, 1)].into_iter().enumerate() {
        let n = [300usize, 290, 520, 300][k];
        let mut net = mk_net(&vec![2; n], &[(n - 1, 0)]);
        log.ev(json!({"e": "net", "cards": vec![2; n], "edges": [[n - 1, 0]], "ep": 5600 + k}));
        let mut gg = UniformGraphGenerator::new(num as f64 / den as f64, some_seed(&mut g));
        let r = guard("generate_graph", || {
            gg.generate_graph(&mut net);
            let par: Vec<_> = (0..n).map(|i| net.get_parent_set(i)).collect();
            let chi: Vec<_> = (0..n).map(|i| net.get_children_set(i)).collect();
            let agree = (0..n).all(|i| par[i].iter().all(|p| *p < n && chi[*p].contains(&i)) && chi[i].iter().all(|c| *c < n && par[*c].contains(&i)));
            json!({"e": "degrees", "num": num, "den": den, "ins": par.iter().map(|s| s.len()).collect::<Vec<_>>(),
                   "outs": chi.iter().map(|s| s.len()).collect::<Vec<_>>(), "agree": agree,
                   "loops": (0..n).filter(|i| par[*i].contains(i)).count(), "labels": labels_ok(&net), "cards": cards_of(&net)})
        });
        log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
    }
    // parameters of a CTMP
    for ep in 0..6 {
        let c = [2, 3, 5, 8, 20, 60][ep];
        let mut p = CtmpProcess::new();
        p.add_node(mk_node("n0", c)).unwrap();
        log.ev(json!({"e": "net", "cards": [c], "edges": [], "ep": 1000 + ep}));
        let mut pg = UniformParametersGenerator::new(1.0..3.0, some_seed(&mut g));
        for _ in 0..2 {
            log.ev(param_event(&mut pg, &mut p, 1.0, 3.0));
        }
    }
    // frequencies
    let runs = if deep { 60000 } else { 12000 };
    for (k, (num, den)) in dens.iter().chain(&[(1, 2), (1, 10)]).enumerate() {
        let n = if k >= dens.len() { 70 } else { 4 + k % 3 };
        let runs = if k >= dens.len() { 500 } else { runs };
        let cards = vec![2; n];
        let mut net = mk_net(&cards, &[]);
        log.ev(json!({"e": "net", "cards": cards, "edges": [], "ep": 2000 + k}));
        let sd = g.next();
        let fresh = k % 2 == 1;
        let r = guard("graph frequencies", || {
            let mut gg = UniformGraphGenerator::new(*num as f64 / *den as f64, Some(sd));
            let mut cells = vec![vec![0u64; n]; n];
            for i in 0..runs {
                if fresh {
                    gg = UniformGraphGenerator::new(*num as f64 / *den as f64, Some(sd.wrapping_add(i)));
                }
                gg.generate_graph(&mut net);
                for c in 0..n {
                    for p in net.get_parent_set(c) {
                        cells[p][c] += 1;
                    }
                }
            }
            let mut v = vec![];
            for p in 0..n {
                for c in 0..n {
                    v.push(json!([p, c, cells[p][c]]));
                }
            }
            json!({"e": "pairs", "n": runs, "num": num, "den": den, "cells": v})
        });
        log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
    }
    for (k, (num, den)) in [(1u64, 2u64), (1, 4), (3, 4)].iter().enumerate() {
        let cards = vec![2; 3];
        let mut net = mk_net(&cards, &[]);
        log.ev(json!({"e": "net", "cards": cards, "edges": [], "ep": 3000 + k}));
        let sd = g.next();
        let r = guard("joint", || {
            let mut gg = UniformGraphGenerator::new(*num as f64 / *den as f64, Some(sd));
            let pairs = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)];
            let mut cnt = vec![0u64; 64];
            for _ in 0..runs {
                gg.generate_graph(&mut net);
                let mut code = 0;
                for (b, (p, c)) in pairs.iter().enumerate() {
                    if net.get_parent_set(*c).contains(p) {
                        code |= 1 << b;
                    }
                }
                cnt[code] += 1;
            }
            let cells: Vec<Value> = cnt.iter().enumerate().map(|(i, c)| json!([(i as u32).count_ones(), c])).collect();
            json!({"e": "joint", "n": runs, "num": num, "den": den, "cells": cells})
        });
        log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
    }
    // every two edges together, in the same graph and in successive graphs
    for (k, (num, den, n)) in [(1u64, 2u64, 70usize), (1, 4, 40), (3, 10, 30)].iter().enumerate() {
        let net = mk_net(&vec![2; *n], &[]);
        log.ev(json!({"e": "net", "cards": vec![2; *n], "edges": [], "ep": 3500 + k}));
        let sd = g.next();
        let r = guard("cooc", || {
            let r = if deep { 20 * 64 } else { 10 * 64 };
            let mut gg = UniformGraphGenerator::new(*num as f64 / *den as f64, Some(sd));
            let mut net = net;
            let now = |k: usize| k / 64;
            let mut here = vec![vec![0u64; r / 64]; n * n];
            let mut next = here.clone();
            for i in 0..=r {
                gg.generate_graph(&mut net);
                for c in 0..*n {
                    for p in net.get_parent_set(c) {
                        if i < r {
                            here[p * n + c][now(i)] |= 1 << (i % 64);
                        }
                        if i > 0 {
                            next[p * n + c][now(i - 1)] |= 1 << ((i - 1) % 64);
                        }
                    }
                }
            }
            let off: Vec<usize> = (0..n * n).filter(|e| e / n != e % n).collect();
            let agree = |a: &Vec<u64>, b: &Vec<u64>| a.iter().zip(b).map(|(x, y)| (!(x ^ y)).count_ones() as u64).sum::<u64>();
            let join = |a: (u64, u64), b: (u64, u64)| (a.0.min(b.0), a.1.max(b.1));
            let all = |lag: bool| {
                off.par_iter()
                    .map(|e| {
                        off.iter()
                            .filter(|f| lag || *f < e)
                            .map(|f| agree(&here[*e], if lag { &next[*f] } else { &here[*f] }))
                            .fold((u64::MAX, 0), |a, x| join(a, (x, x)))
                    })
                    .reduce(|| (u64::MAX, 0), join)
            };
            let (s, t) = (all(false), all(true));
            json!({"e": "cooc", "n": r, "num": num, "den": den, "agree": [s.0, s.1, t.0, t.1]})
        });
        log.ev(r.unwrap_or_else(|e| json!({"e": "panic", "msg": e})));
    }
    for (k, (lo, hi)) in [(0.5, 5.0), (0.0, 1.0), (10.0, 11.0), (1e-4, 1e-2), (0.0, 3.0), (1e-9, 1e-8), (0.0, 1e-20), (3.0, 3.000000001)].iter().enumerate() {
        // the last one with many states and configurations
        let cards = if k == 4 { vec![2, 300, 9, 8] } else { vec![2, 3, 4, 6] };
        let edges = if k == 4 { vec![(1, 0), (2, 3)] } else { vec![(0, 1), (1, 2), (0, 2), (3, 0)] };
        let reps = if k == 4 { 300 } else { 1500 };
        let mut net = mk_net(&cards, &edges);
        log.ev(json!({"e": "net", "cards": cards, "edges": edges, "ep": 4000 + k}));
        let sd = g.next();
        // per position of the row, so that no configuration or state is treated specially
        let r = guard("spread", || {
            let mut pg = UniformParametersGenerator::new(*lo..*hi, Some(sd));
            let mut acc: std::collections::BTreeMap<(usize, usize, usize), [u64; 10]> = Default::default();
            let mut out = 0;
            for _ in 0..reps {
                pg.generate_parameters(&mut net);
                for i in 0..4 {
                    for ((u, a, b), v) in par(&net, i).get_cim().as_ref().unwrap().indexed_iter() {
                        if a == b {
                            let t = ((-v - lo) / (hi - lo) * 10.0).floor();
                            if t >= -1.0 && t <= 10.0 {
                                acc.entry((i, u, a)).or_insert([0; 10])[t.max(0.0).min(9.0) as usize] += 1;
                            } else {
                                out += 1;
                            }
                        }
                    }
                }
            }
            (acc, out)
        });
        match r {
            Ok((acc, out)) => {
                for (_, d) in acc {
                    log.ev(json!({"e": "spread", "n": reps, "dec": d, "out": out}));
                }
            }
            Err(e) => log.ev(json!({"e": "panic", "msg": e})),
        }
    }
}

/// sequences of insertions and generations printed by GenMC
pub fn replay(log: &mut Log, input: &str) {
    let mut g = Gen::new(std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1), "gener-replay");
    for (ep, line) in input.lines().enumerate() {
        let t: Value = serde_json::from_str(line).unwrap();
        let cards: Vec<usize> = t["cards"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let mut net = CtbnNetwork::new();
        for (i, c) in cards.iter().enumerate() {
            net.add_node(mk_node(&format!("n{}", i), *c)).unwrap();
        }
        log.ev(json!({"e": "net", "cards": cards, "edges": [], "ep": ep}));
        // one generator per density for the whole sequence
        let mut graphs: std::collections::BTreeMap<(u64, u64), UniformGraphGenerator> = Default::default();
        let mut pg = UniformParametersGenerator::new(0.5..2.0, some_seed(&mut g));
        for op in t["ops"].as_array().unwrap() {
            let (a, b) = (op[1].as_u64().unwrap(), op[2].as_u64().unwrap());
            match op[0].as_str().unwrap() {
                "node" => {
                    let n = net.get_number_of_nodes();
                    net.add_node(mk_node(&format!("n{}", n), a as usize)).unwrap();
                    log.ev(json!({"e": "addnode", "card": a}));
                }
                "edge" => {
                    net.add_edge(a as usize, b as usize);
                    log.ev(json!({"e": "edge", "p": a, "c": b}));
                }
                "graph" => {
                    let sd = some_seed(&mut g);
                    let gg = graphs.entry((a, b)).or_insert_with(|| UniformGraphGenerator::new(a as f64 / b as f64, sd));
                    log.ev(graph_event(gg, &mut net, a, b));
                }
                _ => log.ev(param_event(&mut pg, &mut net, 0.5, 2.0)),
            }
        }
    }
}
