//! C22: CtmpProcess, the single-node process.
use crate::util::*;
use ndarray::{Array2, Array3};
use reCTBN::params::*;
use reCTBN::process::{ctmp::CtmpProcess, NetworkProcess};
use serde_json::{json, Value};
use std::collections::BTreeSet;

struct Sut {
    p: CtmpProcess,
    cims: Vec<Array3<f64>>,
    trs: Vec<Array3<usize>>,
    rts: Vec<Array2<f64>>,
    k: usize,
}

fn tok<T: PartialEq>(reg: &mut Vec<T>, v: &Option<T>) -> i64 {
    match v {
        None => 0,
        Some(x) => reg.iter().position(|y| y == x).map(|i| i as i64 + 1).unwrap_or(-1),
    }
}

impl Sut {
    fn cim(&mut self, c: usize) -> Array3<f64> {
        self.k += 1;
        let k = self.k as f64;
        let mut m = a3(1, c, c, |_, x, y| if x == y { 0.0 } else { k + (x * c + y) as f64 / 1024.0 });
        close_rows(&mut m);
        self.cims.push(m.clone());
        m
    }
    fn tr(&mut self, c: usize) -> Array3<usize> {
        self.k += 1;
        let k = self.k;
        let m = a3(1, c, c, |_, x, y| k * 1000 + x * c + y);
        self.trs.push(m.clone());
        m
    }
    fn rt(&mut self, c: usize) -> Array2<f64> {
        self.k += 1;
        let k = self.k as f64;
        let m = Array2::from_shape_fn((1, c), |(_, x)| k + x as f64 / 1024.0);
        self.rts.push(m.clone());
        m
    }
    fn observe(&mut self) -> Value {
        let n = self.p.get_number_of_nodes();
        let idx: Vec<usize> = self.p.get_node_indices().collect();
        if n == 0 {
            return json!({"n": n, "idx": idx});
        }
        let (label, card) = {
            let nd = self.p.get_node(0);
            (nd.get_label().clone(), nd.get_reserved_space_as_parent())
        };
        let (c, t, r) = {
            let p = par(&self.p, 0);
            (p.get_cim().clone(), p.get_transitions().clone(), p.get_residence_time().clone())
        };
        let ix: Vec<usize> = (0..card).map(|s| self.p.get_param_index_network(0, &state(&[s]))).collect();
        json!({"n": n, "idx": idx, "label": label, "card": card,
            "cim": tok(&mut self.cims, &c), "tr": tok(&mut self.trs, &t), "rt": tok(&mut self.rts, &r),
            "par": set(&self.p.get_parent_set(0)), "chi": set(&self.p.get_children_set(0)), "ix": ix})
    }
    /// an operation a CTMP must refuse; the answer is how it ended
    fn refuse(&mut self, what: usize, i: usize) -> (String, bool) {
        let p = &mut self.p;
        let (name, r): (&str, Result<(), String>) = match what {
            0 => ("add_edge", guard("r", || p.add_edge(i, i % 2))),
            1 => ("add_edge0", guard("r", || p.add_edge(0, 0))),
            2 => ("initialize_adj_matrix", guard("r", || p.initialize_adj_matrix())),
            3 => ("custom_parent_set", guard("r", || {
                p.get_param_index_from_custom_parent_set(&state(&[0]), &BTreeSet::new());
            })),
            4 => ("custom_parent_set_0", guard("r", || {
                p.get_param_index_from_custom_parent_set(&state(&[0]), &BTreeSet::from([0]));
            })),
            5 => ("get_node", guard("r", || {
                p.get_node(i);
            })),
            6 => ("get_node_mut", guard("r", || {
                p.get_node_mut(i);
            })),
            7 => ("get_parent_set", guard("r", || {
                p.get_parent_set(i);
            })),
            8 => ("get_children_set", guard("r", || {
                p.get_children_set(i);
            })),
            _ => ("get_param_index_network", guard("r", || {
                p.get_param_index_network(i, &state(&[0, 0, 0, 0, 0, 0]));
            })),
        };
        (name.to_string(), r.is_err())
    }
}

fn apply(s: &mut Sut, op: &str, a: usize) -> Value {
    let label = format!("m{}", a);
    match op {
        "add" | "addwith" => {
            let mut n = mk_node(&label, a);
            let mut t = (0, 0, 0);
            if op == "addwith" {
                let (c, tr, rt) = (s.cim(a), s.tr(a), s.rt(a));
                let Params::DiscreteStatesContinousTime(p) = &mut n;
                p.set_cim(c).unwrap();
                p.set_transitions(tr);
                p.set_residence_time(rt);
                t = (s.cims.len(), s.trs.len(), s.rts.len());
            }
            let p = &mut s.p;
            let r = guard("add", || p.add_node(n).map(|i| i as i64));
            let ret = match r {
                Ok(Ok(i)) => i,
                Ok(Err(_)) => -1,
                Err(_) => -2,
            };
            json!({"e": "add", "label": label, "card": a, "cim": t.0, "tr": t.1, "rt": t.2, "ret": ret})
        }
        "setcim" => {
            let card = s.p.get_node(0).get_reserved_space_as_parent();
            let m = s.cim(card);
            let ok = par_mut(&mut s.p, 0).set_cim(m).is_ok();
            json!({"e": "setcim", "v": s.cims.len(), "ok": ok})
        }
        "settr" => {
            let card = s.p.get_node(0).get_reserved_space_as_parent();
            let m = s.tr(card);
            par_mut(&mut s.p, 0).set_transitions(m);
            json!({"e": "settr", "v": s.trs.len()})
        }
        "setrt" => {
            let card = s.p.get_node(0).get_reserved_space_as_parent();
            let m = s.rt(card);
            par_mut(&mut s.p, 0).set_residence_time(m);
            json!({"e": "setrt", "v": s.rts.len()})
        }
        "reset" => {
            s.p.get_node_mut(0).reset_params();
            json!({"e": "resetparams"})
        }
        "refuse" => {
            // the same for every index but 0, however large
            let far = [255, 256, 65536, 1 << 32, usize::MAX - 1, usize::MAX];
            let (w, mut refused) = s.refuse(a % 10, 1 + a / 10);
            if a % 10 == 0 || a % 10 >= 5 {
                refused &= far.iter().all(|i| s.refuse(a % 10, *i).1);
            }
            json!({"e": "refuse", "what": w, "node": 1 + a / 10, "refused": refused})
        }
        o => panic!("op {}", o),
    }
}

fn new_sut() -> Sut {
    Sut { p: CtmpProcess::new(), cims: vec![], trs: vec![], rts: vec![], k: 0 }
}

fn step(log: &mut Log, s: &mut Sut, op: &str, a: usize) {
    let v = guard("op", || {
        let mut v = apply(s, op, a);
        v["obs"] = s.observe();
        v
    });
    log.ev(v.unwrap_or_else(|m| json!({"e": "panic", "op": op, "msg": m})));
}

pub fn record(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "ctmp");
    for ep in 0..(if deep { 600 } else { 80 }) {
        let mut s = new_sut();
        log.ev(json!({"e": "new", "ep": ep}));
        for i in 0..(if deep { 60 } else { 30 }) {
            let has = s.p.get_number_of_nodes() > 0;
            let r = g.below(10);
            if !has && (i > 0 || ep % 3 != 0) {
                let op = if r < 5 { "add" } else { "addwith" };
                let c = *g.pick(&[1, 2, 3, 5, 8, 13]);
                step(log, &mut s, op, c.max(2));
            } else if !has {
                // before there is a node every query about one is refused as well
                step(log, &mut s, "refuse", 5 + g.below(5));
            } else {
                let op = *g.pick(&["add", "addwith", "setcim", "settr", "setrt", "reset", "refuse", "refuse", "refuse"]);
                let a = match op {
                    "add" | "addwith" => g.range(2, 9),
                    "refuse" => g.below(40),
                    _ => 0,
                };
                step(log, &mut s, op, a);
            }
        }
    }
}

/// generated behaviours: a list of operations each; every step is logged
pub fn replay(log: &mut Log, input: &str) {
    for (i, line) in input.lines().enumerate() {
        let t: Value = serde_json::from_str(line).unwrap();
        let mut s = new_sut();
        log.ev(json!({"e": "new", "ep": i}));
        for op in t["ops"].as_array().unwrap() {
            step(log, &mut s, op["op"].as_str().unwrap(), op["a"].as_u64().unwrap() as usize);
        }
    }
}
