//! C01, C02, C03: histories of network operations on CtbnNetwork.
use crate::learn::dummy_data;
use crate::util::*;
use ndarray::{Array1, Array2, Array3};
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess};
use reCTBN::structure_learning::score_based_algorithm::HillClimbing;
use reCTBN::structure_learning::score_function::ScoreFunction;
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;

/// A network under test together with the values handed to it, so that what it
/// holds can be reported by name.
pub struct Sut {
    pub net: CtbnNetwork,
    cims: Vec<Array3<f64>>,
    trs: Vec<Array3<usize>>,
    rts: Vec<Array2<f64>>,
    next: usize,
}

/// Scores: 0 fewer parents are better, 1 more parents are better, otherwise arbitrary.
struct Arbitrary(u64);
impl ScoreFunction for Arbitrary {
    fn call<T: NetworkProcess>(&self, _: &T, node: usize, ps: &BTreeSet<usize>, _: &reCTBN::tools::Dataset) -> f64 {
        match self.0 {
            0 => -(ps.len() as f64),
            1 => ps.len() as f64,
            k => Gen::new(k ^ ps.iter().map(|p| 1u64 << p).sum::<u64>(), &node.to_string()).unit(),
        }
    }
}

fn token<T: PartialEq>(reg: &[T], v: &Option<T>) -> i64 {
    match v {
        None => 0,
        Some(x) => reg.iter().position(|y| y == x).map(|i| i as i64 + 1).unwrap_or(-1),
    }
}

impl Sut {
    pub fn new() -> Sut {
        Sut { net: CtbnNetwork::new(), cims: vec![], trs: vec![], rts: vec![], next: 1 }
    }
    fn card(&self, n: usize) -> usize {
        self.net.get_node(n).get_reserved_space_as_parent()
    }
    /// number of configurations of the node's current parents, from what was inserted
    fn u(&self, n: usize, edges: &BTreeSet<(usize, usize)>) -> usize {
        edges.iter().filter(|e| e.1 == n).map(|e| self.card(e.0)).product()
    }
    fn configs(&self, n: usize, edges: &BTreeSet<(usize, usize)>) -> f64 {
        edges.iter().filter(|e| e.1 == n).map(|e| self.card(e.0) as f64).product()
    }
    fn fresh_cim(&mut self, u: usize, c: usize) -> Array3<f64> {
        let k = self.next as f64;
        self.next += 1;
        let mut m = a3(u, c, c, |i, x, y| if x == y { 0.0 } else { k + (i + x * c + y) as f64 / 1024.0 });
        close_rows(&mut m);
        m
    }
    pub fn set_cim(&mut self, n: usize, u: usize, unchecked: bool) -> (usize, bool) {
        let c = self.card(n);
        let m = self.fresh_cim(u, c);
        self.cims.push(m.clone());
        let m = lay3(m, self.next);
        let p = par_mut(&mut self.net, n);
        let ok = if unchecked {
            p.set_cim_unchecked(m);
            true
        } else {
            p.set_cim(m).is_ok()
        };
        (self.cims.len(), ok)
    }
    pub fn reject_cim(&mut self, n: usize, u: usize) -> bool {
        let c = self.card(n);
        let mut m = self.fresh_cim(u, c);
        m[[u - 1, c - 1, 0]] += 0.5;
        par_mut(&mut self.net, n).set_cim(m).is_ok()
    }
    pub fn set_tr(&mut self, n: usize, u: usize) -> usize {
        let c = self.card(n);
        let k = self.next;
        self.next += 1;
        let m = a3(u, c, c, |i, x, y| k * 1000 + i * c * c + x * c + y);
        self.trs.push(m.clone());
        par_mut(&mut self.net, n).set_transitions(lay3(m, k));
        self.trs.len()
    }
    pub fn set_rt(&mut self, n: usize, u: usize) -> usize {
        let c = self.card(n);
        let k = self.next;
        self.next += 1;
        let m = Array2::from_shape_fn((u, c), |(i, x)| k as f64 + (i * c + x) as f64 / 1024.0);
        self.rts.push(m.clone());
        par_mut(&mut self.net, n).set_residence_time(lay2(m, k));
        self.rts.len()
    }
    fn graph(&mut self, density: f64, seed: u64) {
        UniformGraphGenerator::new(density, Some(seed)).generate_graph(&mut self.net)
    }
    /// learn a structure with a score of our own
    fn learn(&mut self, score: Arbitrary, max: Option<usize>) {
        let n = self.net.get_number_of_nodes();
        let net = std::mem::replace(&mut self.net, CtbnNetwork::new());
        self.net = HillClimbing::new(score, max).fit_transform(net, &dummy_data(n));
    }
    /// random parameters; returns the name of every node's matrix
    fn gen_params(&mut self, seed: u64) -> Vec<i64> {
        UniformParametersGenerator::new(0.5..3.0, Some(seed)).generate_parameters(&mut self.net);
        for i in 0..self.net.get_number_of_nodes() {
            if let Some(c) = par(&self.net, i).get_cim() {
                self.cims.push(c.clone());
            }
        }
        self.tokens().0
    }
    /// the edges, read from the parent sets
    fn read_edges(&self) -> BTreeSet<(usize, usize)> {
        let mut e = BTreeSet::new();
        for i in 0..self.net.get_number_of_nodes() {
            e.extend(self.net.get_parent_set(i).into_iter().map(|p| (p, i)));
        }
        e
    }
    pub fn tokens(&self) -> (Vec<i64>, Vec<i64>, Vec<i64>) {
        let n = self.net.get_number_of_nodes();
        let mut r = (vec![], vec![], vec![]);
        for i in 0..n {
            let p = par(&self.net, i);
            r.0.push(token(&self.cims, p.get_cim()));
            r.1.push(token(&self.trs, p.get_transitions()));
            r.2.push(token(&self.rts, p.get_residence_time()));
        }
        r
    }
    /// What every public query says about the network.
    pub fn observe(&self) -> Value {
        let net = &self.net;
        let n = net.get_number_of_nodes();
        let t = self.tokens();
        let q = guard("queries", || {
            let p: Vec<Value> = (0..n).map(|i| set(&net.get_parent_set(i))).collect();
            let c: Vec<Value> = (0..n).map(|i| set(&net.get_children_set(i))).collect();
            (p, c)
        });
        let (known, p, c) = match q {
            Ok((p, c)) => (true, p, c),
            Err(_) => (false, vec![], vec![]),
        };
        let adj = match net.get_adj_matrix() {
            None => json!({"some": false, "edges": [], "shape": []}),
            Some(a) => json!({"some": true, "shape": a.shape(),
                "edges": a.indexed_iter().filter(|(_, x)| **x > 0).map(|((p, c), _)| vec![p, c]).collect::<Vec<_>>()}),
        };
        json!({"n": n, "idx": net.get_node_indices().collect::<Vec<_>>(),
            "labels": (0..n).map(|i| net.get_node(i).get_label().clone()).collect::<Vec<_>>(),
            "cards": (0..n).map(|i| self.card(i)).collect::<Vec<_>>(),
            "cim": t.0, "tr": t.1, "rt": t.2,
            "known": known, "par": p, "chi": c, "adj": adj})
    }
}

// ------------------------------------------------------------------ replay
/// One generated test per line: {"ops":[..],"expect":{..}}; logs what the code
/// holds after the last operation, in the vocabulary of the specification.
pub fn replay(log: &mut Log, input: &str) {
    for line in input.lines() {
        let t: Value = serde_json::from_str(line).unwrap();
        let r = guard("replay", || {
            let mut s = Sut::new();
            let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
            let mut init = false;
            let mut rets = true;
            for op in t["ops"].as_array().unwrap() {
                let a = op["a"].as_u64().unwrap() as usize;
                let b = op["b"].as_u64().unwrap() as usize;
                match op["op"].as_str().unwrap() {
                    "AddNode" => {
                        let i = s.net.get_number_of_nodes();
                        rets &= s.net.add_node(mk_node(&format!("n{}", i), a)).unwrap() == i;
                        edges.clear();
                        init = false;
                    }
                    "Init" => {
                        s.net.initialize_adj_matrix();
                        edges.clear();
                        init = true;
                    }
                    "AddEdge" => {
                        s.net.add_edge(a, b);
                        edges.insert((a, b));
                        init = true;
                    }
                    "Graph" | "Learn" => {
                        let n = s.net.get_number_of_nodes();
                        if op["op"] == "Graph" {
                            s.graph(a as f64, 7);
                        } else {
                            s.learn(Arbitrary(a as u64), None);
                        }
                        edges = (0..n).flat_map(|p| (0..n).map(move |c| (p, c))).filter(|e| a == 1 && e.0 != e.1).collect();
                        init = true;
                    }
                    "GenParams" => rets &= s.gen_params(11).iter().all(|t| *t > 0),
                    "SetCim" => {
                        let u = s.u(a, &edges);
                        rets &= s.set_cim(a, u, false).1;
                    }
                    "RejectCim" => {
                        let u = s.u(a, &edges);
                        rets &= !s.reject_cim(a, u);
                    }
                    "SetTr" => {
                        let u = s.u(a, &edges);
                        s.set_tr(a, u);
                    }
                    "SetRt" => {
                        let u = s.u(a, &edges);
                        s.set_rt(a, u);
                    }
                    "Reset" => s.net.get_node_mut(a).reset_params(),
                    o => panic!("op {}", o),
                }
            }
            let n = s.net.get_number_of_nodes();
            // parents and children are only defined once the structure exists
            let (mut p, mut c) = (vec![], vec![]);
            if init {
                for i in 0..n {
                    for x in s.net.get_parent_set(i) {
                        p.push(vec![x, i]);
                    }
                    for x in s.net.get_children_set(i) {
                        c.push(vec![i, x]);
                    }
                }
            }
            p.sort();
            c.sort();
            let t = s.tokens();
            let bit = |v: Vec<i64>| v.into_iter().map(|x| if x > 0 { 1 } else { x }).collect::<Vec<i64>>();
            json!({"e": "end", "rets": rets, "pedges": p, "cedges": c,
                   "cards": (0..n).map(|i| s.card(i)).collect::<Vec<_>>(),
                   "cim": bit(t.0), "tr": bit(t.1), "rt": bit(t.2)})
        });
        match r {
            Ok(v) => log.ev(v),
            Err(m) => log.ev(json!({"e": "end", "panic": m})),
        }
    }
}

// ------------------------------------------------------------------ record
pub fn record(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "net");
    let episodes = if deep { 400 } else { 60 };
    for ep in 0..episodes {
        let maxn = match ep % 6 {
            0 => 2,
            1 => 3,
            2 => 5,
            3 => 8,
            4 => 12,
            _ => 16,
        };
        episode(log, &mut g, maxn, if deep { 120 } else { 60 }, ep);
    }
    for ep in 0..(if deep { 12 } else { 3 }) {
        many_nodes(log, &mut g, ep);
        many_params(log, &mut g, ep);
    }
    for ep in 0..(if deep { 200 } else { 40 }) {
        index_episode(log, &mut g, ep);
    }
    for ep in 0..(if deep { 60 } else { 16 }) {
        big_index_episode(log, &mut g, ep);
    }
}

/// Index spaces beyond any narrow integer type: remainders modulo three primes.
fn big_index_episode(log: &mut Log, g: &mut Gen, ep: usize) {
    let cards: Vec<usize> = match ep % 4 {
        0 => (0..9).map(|_| g.range(3, 5)).collect(),
        1 => (0..4).map(|_| g.range(60, 90)).collect(),
        2 => vec![2; 40],
        _ => vec![300, 7, 257, 16, 255, 2, 256],
    };
    let n = cards.len();
    let mut edges = random_edges(g, n, 9, 10, n);
    if n > 9 {
        edges.retain(|e| e.1 % 13 == 5);
    }
    let net = mk_net(&cards, &edges);
    log.ev(json!({"e": "netis", "cards": cards, "edges": edges}));
    let rem = |x: usize| json!([x % 32749, x % 32719, x % 32717]);
    let all: BTreeSet<usize> = (0..n).collect();
    for j in 0..12 {
        let st: Vec<usize> = cards.iter().map(|c| if j == 0 { c - 1 } else if j % 3 == 1 { c - 1 - g.below(2) } else { g.below(*c) }).collect();
        let nst = state(&st);
        let v = guard("index", || {
            let own: Vec<Value> = (0..n).map(|i| rem(net.get_param_index_network(i, &nst))).collect();
            let s = if j % 2 == 0 { all.clone() } else { g.subset(n, 3, 4) };
            let k = net.get_param_index_from_custom_parent_set(&nst, &all);
            let back = CtbnNetwork::idx_to_state(&Array1::from_vec(cards.clone()), k);
            json!({"e": "bigindex", "st": st, "own": own, "s": set(&s),
                   "i": rem(net.get_param_index_from_custom_parent_set(&nst, &s)), "back": a1j(&back)})
        });
        log.ev(v.unwrap_or_else(|m| json!({"e": "panic", "msg": m, "what": "index"})));
    }
}

/// Hundreds of nodes: numbers beyond one byte.
fn many_nodes(log: &mut Log, g: &mut Gen, ep: usize) {
    let n = [257, 300, 520][ep % 3];
    let cards: Vec<usize> = (0..n).map(|_| g.range(2, 4)).collect();
    let mut edges: Vec<(usize, usize)> = (0..250).map(|_| (g.below(n), g.below(n))).collect();
    // hubs: one node with many children, one with many parents
    let (hub, sink) = (g.below(n), n - 1 - g.below(3));
    edges.extend((0..60).map(|_| (hub, g.below(n))));
    edges.extend((0..if ep % 2 == 0 { 280.min(n) } else { 20 }).map(|i| (i, sink)));
    let v = guard("many", || {
        let mut net = CtbnNetwork::new();
        let rets: Vec<usize> = cards.iter().enumerate().map(|(i, c)| net.add_node(mk_node(&format!("L{}", i), *c)).unwrap()).collect();
        for (p, c) in &edges {
            net.add_edge(*p, *c);
        }
        let label = |i: usize| net.get_node(i).get_label()[1..].parse::<usize>().unwrap();
        json!({"e": "many", "cards": cards, "edges": edges, "rets": rets, "n": net.get_number_of_nodes(),
            "idx": net.get_node_indices().collect::<Vec<_>>(), "labels": (0..n).map(label).collect::<Vec<_>>(),
            "held": (0..n).map(|i| net.get_node(i).get_reserved_space_as_parent()).collect::<Vec<_>>(),
            "par": (0..n).flat_map(|i| net.get_parent_set(i).into_iter().map(move |p| (p, i))).collect::<Vec<_>>(),
            "chi": (0..n).flat_map(|i| net.get_children_set(i).into_iter().map(move |c| (i, c))).collect::<Vec<_>>()})
    });
    log.ev(json!({"e": "new", "ep": "many"}));
    log.ev(v.unwrap_or_else(|m| json!({"e": "panic", "msg": m, "what": "many"})));
}

/// Hundreds of nodes with parameters: which of them survive a change of structure.
fn many_params(log: &mut Log, g: &mut Gen, ep: usize) {
    let n = [257, 300, 520][ep % 3];
    let mut s = Sut::new();
    let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    let hub = g.below(n);
    for i in 0..n {
        s.net.add_node(mk_node(&format!("L{}", i), g.range(2, 4))).unwrap();
    }
    let mut add = |s: &mut Sut, edges: &mut BTreeSet<(usize, usize)>, p: usize, c: usize| {
        s.net.add_edge(p, c);
        edges.insert((p, c));
    };
    for round in 0..8 {
        // at most three parents each, so that the matrices stay small
        for _ in 0..150 {
            let (p, c) = (if g.chance(1, 4) { hub } else { g.below(n) }, if g.chance(1, 4) { n - 1 - g.below(n - 250) } else { g.below(n) });
            if edges.iter().filter(|e| e.1 == c).count() < 2 {
                add(&mut s, &mut edges, p, c);
            }
        }
        for i in 0..s.net.get_number_of_nodes() {
            let u = s.u(i, &edges);
            s.set_cim(i, u, round % 2 == 0);
            s.set_tr(i, u);
            s.set_rt(i, u);
        }
        let before = (s.tokens(), edges.clone(), s.net.get_number_of_nodes());
        let v = guard("manyp", || {
            let mut op = match round {
                0 | 3 | 6 => {
                    // the last, the first, any node
                    let c = match round { 0 => n - 1, 3 => 0, _ => g.below(n) };
                    let p = g.below(n);
                    add(&mut s, &mut edges, p, c);
                    json!({"op": "addedge", "p": p, "c": c})
                }
                1 => {
                    s.graph(0.003, g.next());
                    json!({"op": "replace"})
                }
                2 | 5 => {
                    s.net.add_node(mk_node("new", 2)).unwrap();
                    json!({"op": "addnode"})
                }
                4 => {
                    s.net.initialize_adj_matrix();
                    json!({"op": "init"})
                }
                _ => {
                    s.graph(0.0, g.next());
                    json!({"op": "replace"})
                }
            };
            edges = if round == 2 || round == 5 { BTreeSet::new() } else { s.read_edges() };
            let t = s.tokens();
            // 0: nothing, 1: what was set, 2: anything else
            let code = |b: &Vec<i64>, a: &Vec<i64>| -> Vec<i64> {
                a.iter().enumerate().map(|(i, x)| if *x == 0 { 0 } else if b.get(i) == Some(x) { 1 } else { 2 }).collect()
            };
            op["e"] = json!("manyp");
            op["n"] = json!(before.2);
            op["edges"] = json!(before.1);
            op["now"] = json!(edges);
            op["cim"] = json!(code(&before.0 .0, &t.0));
            op["tr"] = json!(code(&before.0 .1, &t.1));
            op["rt"] = json!(code(&before.0 .2, &t.2));
            op
        });
        log.ev(v.unwrap_or_else(|m| json!({"e": "panic", "msg": m, "what": "manyp"})));
    }
}

fn episode(log: &mut Log, g: &mut Gen, maxn: usize, steps: usize, ep: usize) {
    let mut s = Sut::new();
    let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    log.ev(json!({"e": "new", "ep": ep}));
    for step in 0..steps {
        let n = s.net.get_number_of_nodes();
        // keep the configuration count of every node small enough to allocate
        let small = |s: &Sut, c: usize, p: usize, edges: &BTreeSet<(usize, usize)>| {
            let mut e = edges.clone();
            e.insert((p, c));
            s.configs(c, &e) * (s.card(c) as f64).powi(2) <= 6000.0
        };
        let mut k = g.below(100);
        if n == 0 || step < 2 {
            k = 0;
        }
        // the same edge over and over again: up to the widths a counter may have
        let many = ep % 4 == 1 && n > 1 && (step == 15 || step == 40);
        let v = if many {
            let c = g.below(n);
            let p = g.below(n);
            if !small(&s, c, p, &edges) {
                continue;
            }
            let times = [255, 1, 65279, 1];
            for (j, t) in times.iter().enumerate() {
                let r = guard("add_edge", || (0..*t).for_each(|_| s.net.add_edge(p, c)));
                edges.insert((p, c));
                if j < 3 {
                    let mut v = json!({"e": "addedge", "p": p, "c": c, "times": t, "ok": r.is_ok()});
                    v["obs"] = guard("observe", || s.observe()).unwrap_or_else(|m| json!({"panic": m}));
                    log.ev(v);
                }
            }
            json!({"e": "addedge", "p": p, "c": c, "times": 1, "ok": true})
        } else if k < 10 && n < maxn || n == 0 {
            let card = *g.pick(&[2, 2, 3, 3, 4, 5, 7, 11, 12]);
            // labels need not be distinct
            let label = format!("L{}", g.below(6));
            let r = guard("add_node", || s.net.add_node(mk_node_with(&label, card, g)));
            edges.clear();
            json!({"e": "addnode", "card": card, "label": label,
                   "ret": r.map(|x| x.map(|i| i as i64).unwrap_or(-1)).unwrap_or(-2)})
        } else if k < 13 && n < 7 && k != 10 {
            let learn = g.chance(1, 2);
            let d = *g.pick(&[0.0, 0.3, 0.6, 1.0]);
            let (max, kind) = (*g.pick(&[None, Some(1), Some(2)]), *g.pick(&[0, 1, 99]));
            let sd = g.next();
            let r = guard("replace", || if learn { s.learn(Arbitrary(if kind > 1 { sd | 2 } else { kind }), max) } else { s.graph(d, sd) });
            edges = guard("parents", || s.read_edges()).unwrap_or_default();
            json!({"e": "replace", "ok": r.is_ok(), "edges": edges, "learned": learn})
        } else if k < 13 && k == 10 && s.net.get_adj_matrix().is_some() && (0..n).all(|i| s.configs(i, &edges) < 3000.0) {
            let r = guard("genparams", || s.gen_params(g.next()));
            json!({"e": "genparams", "ok": r.is_ok(), "v": r.unwrap_or_default()})
        } else if k < 13 {
            let r = guard("init", || s.net.initialize_adj_matrix());
            edges.clear();
            json!({"e": "init", "ok": r.is_ok()})
        } else if k < 50 {
            let c = g.below(n);
            let p = if !edges.is_empty() && g.chance(1, 6) {
                edges.iter().nth(g.below(edges.len())).unwrap().0
            } else {
                g.below(n)
            };
            if !small(&s, c, p, &edges) {
                continue;
            }
            let r = guard("add_edge", || s.net.add_edge(p, c));
            edges.insert((p, c));
            json!({"e": "addedge", "p": p, "c": c, "ok": r.is_ok()})
        } else if k < 95 {
            let i = g.below(n);
            if s.configs(i, &edges) * (s.card(i) as f64).powi(2) > 6000.0 {
                continue;
            }
            let u = s.u(i, &edges);
            let r = guard("set", || match k % 6 {
                0 => {
                    let (t, ok) = s.set_cim(i, u, false);
                    json!({"e": "setcim", "n": i, "v": t, "ok": ok})
                }
                1 => {
                    let (t, ok) = s.set_cim(i, u, true);
                    json!({"e": "setcim", "n": i, "v": t, "ok": ok})
                }
                2 => json!({"e": "rejectcim", "n": i, "ok": !s.reject_cim(i, u)}),
                3 => json!({"e": "settr", "n": i, "v": s.set_tr(i, u)}),
                4 => json!({"e": "setrt", "n": i, "v": s.set_rt(i, u)}),
                _ => {
                    let (t, ok) = s.set_cim(i, u, false);
                    json!({"e": "setcim", "n": i, "v": t, "ok": ok})
                }
            });
            r.unwrap_or_else(|m| json!({"e": "panic", "msg": m}))
        } else {
            let i = g.below(n);
            let r = guard("reset", || s.net.get_node_mut(i).reset_params());
            json!({"e": "resetparams", "n": i, "ok": r.is_ok()})
        };
        let mut v = v;
        v["obs"] = guard("observe", || s.observe()).unwrap_or_else(|m| json!({"panic": m}));
        log.ev(v);
    }
}

/// A node to insert: sometimes it already carries parameters, which must not survive.
fn mk_node_with(label: &str, card: usize, g: &mut Gen) -> Params {
    let mut n = mk_node(label, card);
    if g.chance(1, 2) {
        let Params::DiscreteStatesContinousTime(p) = &mut n;
        let mut m = a3(1, card, card, |_, x, y| if x == y { 0.0 } else { 0.25 });
        close_rows(&mut m);
        p.set_cim_unchecked(m);
        p.set_transitions(a3(1, card, card, |_, _, _| 9));
        p.set_residence_time(Array2::from_elem((1, card), 0.75));
    }
    n
}

/// C03: indices of many joint states for every node, and for arbitrary sets.
fn index_episode(log: &mut Log, g: &mut Gen, ep: usize) {
    let n = match ep % 5 {
        0 => g.range(1, 3),
        1 => g.range(2, 5),
        2 => g.range(4, 8),
        3 => g.range(6, 12),
        _ => 9,
    };
    let cards: Vec<usize> = (0..n)
        .map(|_| match ep % 5 {
            0 => g.range(2, 12),
            // a node with a single state adds nothing to the index
            1 => g.range(1, 5),
            4 => 2,
            _ => g.range(2, 4),
        })
        .collect();
    let mut edges = random_edges(g, n, 1, 2, if n > 6 { 7 } else { n });
    if ep % 7 == 3 {
        // a node that is its own parent
        edges.push((0, 0));
    }
    edges.sort();
    edges.dedup();
    // insertion order of the edges must not matter
    for i in (1..edges.len()).rev() {
        edges.swap(i, g.below(i + 1));
    }
    let net = mk_net(&cards, &edges);
    log.ev(json!({"e": "netis", "cards": cards, "edges": edges}));
    let total: usize = cards.iter().product();
    let all: BTreeSet<usize> = (0..n).collect();
    let dom = Array1::from_vec(cards.clone());
    let qn = total.min(48);
    for i in 0..qn {
        let k = if total <= 48 { i } else { g.below(total) };
        let st = decode(&cards, k);
        let nst = state(&st);
        let v = guard("index", || {
            let own: Vec<usize> = (0..n).map(|i| net.get_param_index_network(i, &nst)).collect();
            let expl: Vec<usize> = (0..n)
                .map(|i| net.get_param_index_from_custom_parent_set(&nst, &parents_of(&edges, i)))
                .collect();
            let cus: Vec<Value> = (0..3)
                .map(|j| {
                    let s = if j == 0 { BTreeSet::new() } else { g.subset(n, j, 3) };
                    let r = net.get_param_index_from_custom_parent_set(&nst, &s);
                    json!({"s": set(&s), "i": r})
                })
                .collect();
            let full = net.get_param_index_from_custom_parent_set(&nst, &all);
            let back = CtbnNetwork::idx_to_state(&dom, k);
            json!({"e": "index", "st": st, "k": k, "own": own, "expl": expl, "cus": cus,
                   "full": full, "back": a1j(&back)})
        });
        log.ev(v.unwrap_or_else(|m| json!({"e": "panic", "msg": m, "what": "index"})));
    }
    // the whole range of indices of every node is reached, each configuration once
    for i in 0..n {
        let ps = parents_of(&edges, i);
        let u = n_configs(&cards, &ps);
        if u > 600 {
            continue;
        }
        let v = guard("cover", || {
            let mut seen: Vec<usize> = vec![];
            for k in 0..u {
                let mut st = vec![0; n];
                let mut kk = k;
                for p in ps.iter().rev() {
                    st[*p] = kk % cards[*p];
                    kk /= cards[*p];
                }
                seen.push(net.get_param_index_network(i, &state(&st)));
            }
            seen.sort();
            json!({"e": "cover", "n": i, "seen": seen})
        });
        log.ev(v.unwrap_or_else(|m| json!({"e": "panic", "msg": m, "what": "cover"})));
    }
}
