//! C19, C20, C21: reward functions, Monte Carlo evaluation, relative reward.
use crate::amalg::Model;
use crate::util::*;
use reCTBN::process::{ctmp::CtmpProcess, NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::*;
use reCTBN::reward::reward_function::*;
use reCTBN::reward::*;
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone)]
pub struct Rf {
    pub inst: Vec<Vec<i64>>,
    pub trans: Vec<Vec<Vec<i64>>>,
}
impl Rf {
    pub fn zero(cards: &[usize]) -> Rf {
        Rf { inst: cards.iter().map(|c| vec![0; *c]).collect(), trans: cards.iter().map(|c| vec![vec![0; *c]; *c]).collect() }
    }
    pub fn random(g: &mut Gen, cards: &[usize], lo: i64, hi: i64) -> Rf {
        let mut r = Rf::zero(cards);
        for i in 0..cards.len() {
            for x in 0..cards[i] {
                r.inst[i][x] = lo + g.below((hi - lo + 1) as usize) as i64;
                for y in 0..cards[i] {
                    r.trans[i][x][y] = lo + g.below((hi - lo + 1) as usize) as i64;
                }
            }
        }
        r
    }
    pub fn json(&self) -> Value {
        json!({"inst": self.inst, "trans": self.trans})
    }
    pub fn real<T: NetworkProcess>(&self, net: &T) -> FactoredRewardFunction {
        self.scaled(net, 1.0)
    }
    /// the instantaneous part times `si`
    fn scaled<T: NetworkProcess>(&self, net: &T, si: f64) -> FactoredRewardFunction {
        let mut f = FactoredRewardFunction::initialize_from_network_process(net);
        for i in 0..self.inst.len() {
            for x in 0..self.inst[i].len() {
                f.get_instantaneous_reward_mut(i)[x] = self.inst[i][x] as f64 * si;
                for y in 0..self.inst[i].len() {
                    f.get_transition_reward_mut(i)[[x, y]] = self.trans[i][x][y] as f64;
                }
            }
        }
        f
    }
}
fn held(f: &FactoredRewardFunction, n: usize, scale: f64) -> (Value, Value) {
    let mut i = vec![];
    let mut t = vec![];
    for k in 0..n {
        i.push(json!(f.get_instantaneous_reward(k).iter().map(|x| exact(*x, scale)).collect::<Vec<_>>()));
        t.push(a2j(f.get_transition_reward(k), |x| exact(*x, scale)));
    }
    (json!(i), json!(t))
}

// ------------------------------------------------------------------ C19
pub fn record_rf(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "rf");
    let scale = 64.0;
    for ep in 0..(if deep { 300 } else { 60 }) {
        // many nodes, or states
        let wide = ep % 20;
        let ctmp = ep % 6 == 5 && !(13..16).contains(&wide);
        let n = match wide { 13 => 70, 14 => 270, 15 => 2, 17 => 1, _ => if ctmp { 1 } else { g.range(1, 7) } };
        let cards: Vec<usize> = (0..n)
            .map(|k| match wide { 13 | 14 => 2, 15 => [70, 3][k], 17 => 290, _ => { let h = if ctmp { 9 } else { 5 }; g.range(1, h) } })
            .collect();
        let net = mk_net(&cards, &[]);
        let mut f = if ctmp {
            let mut p = CtmpProcess::new();
            p.add_node(mk_node("n0", cards[0])).unwrap();
            FactoredRewardFunction::initialize_from_network_process(&p)
        } else if g.chance(1, 2) {
            let n2 = mk_net(&cards, &random_edges(&mut g, n, 1, 2, 3));
            FactoredRewardFunction::initialize_from_network_process(&n2)
        } else {
            FactoredRewardFunction::initialize_from_network_process(&net)
        };
        let (i, t) = held(&f, n, scale);
        log.ev(json!({"e": "rinit", "cards": cards, "inst": i, "trans": t}));
        // all entries set, to values of their own
        if ep % 2 == 1 {
            let mut val = |_: usize| (g.next() >> 44) as i64 - (1 << 19);
            let si: Vec<Vec<i64>> = cards.iter().map(|c| (0..*c).map(&mut val).collect()).collect();
            let st: Vec<Vec<Vec<i64>>> = cards.iter().map(|c| (0..*c).map(|_| (0..*c).map(&mut val).collect()).collect()).collect();
            for i in 0..n {
                for x in 0..cards[i] {
                    f.get_instantaneous_reward_mut(i)[x] = si[i][x] as f64 / scale;
                    for y in 0..cards[i] {
                        f.get_transition_reward_mut(i)[[x, y]] = st[i][x][y] as f64 / scale;
                    }
                }
            }
            let (hi, ht) = held(&f, n, scale);
            log.ev(json!({"e": "fill", "sinst": si, "strans": st, "inst": hi, "trans": ht}));
        }
        for k in 0..(if wide == 17 { 24 } else { 50 }) {
            let i = g.below(n);
            let (x, y) = (g.below(cards[i]), g.below(cards[i]));
            let v = (g.next() >> 44) as i64 - (1 << 19);
            if k < (if wide == 17 { 3 } else { 20 }) || g.chance(1, 4) {
                let inst = g.chance(1, 2);
                if inst {
                    f.get_instantaneous_reward_mut(i)[x] = v as f64 / scale;
                } else {
                    f.get_transition_reward_mut(i)[[x, y]] = v as f64 / scale;
                }
                let (hi, ht) = held(&f, n, scale);
                log.ev(json!({"e": if inst {"seti"} else {"sett"}, "i": i, "x": x, "y": y, "v": v, "inst": hi, "trans": ht}));
            } else {
                let cur: Vec<usize> = cards.iter().map(|c| g.below(*c)).collect();
                let mut prev = cur.clone();
                prev[i] = x;
                let none = g.chance(1, 4);
                let ps = state(&prev);
                let r = guard("reward", || f.call(&state(&cur), if none { None } else { Some(&ps) }));
                log.ev(match r {
                    Ok(r) => json!({"e": "call", "cur": cur, "prev": if none { vec![] } else { prev },
                        "inst": exact(r.instantaneous_reward, scale), "trans": exact(r.transition_reward, scale)}),
                    Err(e) => json!({"e": "panic", "msg": e}),
                });
            }
        }
    }
}

fn us(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
pub fn replay(log: &mut Log, input: &str) {
    for line in input.lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        let cards = us(&v["cards"]);
        let net = mk_net(&cards, &[]);
        let r = guard("reward", || {
            let mut f = FactoredRewardFunction::initialize_from_network_process(&net);
            for s in v["sets"].as_array().unwrap() {
                let s = us(s);
                if s[4] == 0 {
                    f.get_instantaneous_reward_mut(s[0])[s[1]] = s[3] as f64;
                } else {
                    f.get_transition_reward_mut(s[0])[[s[1], s[2]]] = s[3] as f64;
                }
            }
            let (c, p) = (state(&us(&v["cur"])), us(&v["prev"]));
            let pr = state(&p);
            f.call(&c, if p.is_empty() { None } else { Some(&pr) })
        });
        log.ev(match r {
            Ok(r) => json!({"inst": exact(r.instantaneous_reward, 1.0), "trans": exact(r.transition_reward, 1.0)}),
            Err(e) => json!({"panic": e}),
        });
    }
}

// ------------------------------------------------------------------ C20
#[derive(Clone, Copy)]
struct Crit {
    gn: i64,
    gd: i64,
}
impl Crit {
    fn g(&self) -> f64 {
        self.gn as f64 / self.gd as f64
    }
    fn real(&self) -> RewardCriteria {
        let discount_factor = match (self.gn, self.gd) {
            (0, 1) => return RewardCriteria::FiniteHorizon,
            (0, 2) => 0.0,
            (0, _) => 2f64.powi(-40), // too small to matter within the horizons used
            _ => self.g(),
        };
        RewardCriteria::InfiniteHorizon { discount_factor }
    }
    /// 64 * discount * horizon, an integer for the horizons used
    fn k(&self, t64: i64) -> i64 {
        assert!(self.gn * t64 % self.gd == 0);
        self.gn * t64 / self.gd
    }
}
struct Mc {
    iters: usize,
    err: f64,
    alpha: f64,
    t64: i64,
    crit: Crit,
    seed: Option<u64>,
}
impl Mc {
    fn eval<R: RewardFunction, T: NetworkProcess>(&self, net: &T, rf: &R, x0: &[usize]) -> f64 {
        MonteCarloReward::new(self.iters, self.err, self.alpha, self.t64 as f64 / 64.0, self.crit.real(), self.seed)
            .evaluate_state(net, rf, &state(x0))
    }
    /// mean and standard error over batches with different seeds
    fn batches<R: RewardFunction, T: NetworkProcess>(&self, net: &T, rf: &R, x0: &[usize], b: usize, sd: u64) -> (f64, f64) {
        let v: Vec<f64> = (0..b)
            .map(|i| Mc { seed: Some(sd.wrapping_mul(1000).wrapping_add(i as u64)), ..*self }.eval(net, rf, x0))
            .collect();
        let m = v.iter().sum::<f64>() / b as f64;
        let var = v.iter().map(|x| (x - m).powi(2)).sum::<f64>() / (b - 1) as f64;
        (m, (var / b as f64).sqrt())
    }
}
fn random_model(g: &mut Gen, n: usize, hi: usize, rate: i64) -> Model {
    let cards: Vec<usize> = (0..n).map(|_| g.range(2, hi)).collect();
    let edges = random_edges(g, n, 1, 2, 2);
    Model::fill(cards, edges, |_, _, _, _| if g.chance(1, 4) { 0 } else { g.range(1, rate as usize) as i64 })
}
fn panic_ev(e: String) -> Value {
    json!({"e": "panic", "msg": e})
}
/// gn = 0: no discount (gd = 1: finite horizon; otherwise infinite horizon, discount 0 or tiny)
const CRITS: [Crit; 9] = [
    Crit { gn: 0, gd: 2 }, Crit { gn: 0, gd: 3 },
    Crit { gn: 0, gd: 1 }, Crit { gn: 0, gd: 1 }, Crit { gn: 1, gd: 1 }, Crit { gn: 1, gd: 4 },
    Crit { gn: 2, gd: 1 }, Crit { gn: 3, gd: 2 }, Crit { gn: 7, gd: 1 },
];
const HORIZONS: [i64; 7] = [64, 16, 128, 320, 4, 192, 640];

pub fn record_mc(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "mc");
    let reps = if deep { 6 } else { 1 };
    // a constant stream of reward, in networks where the states hardly or often change
    for ep in 0..60 * reps {
        let rate = *g.pick(&[1i64, 4, 20]);
        let n = if ep % 20 == 11 { *g.pick(&[40usize, 70]) } else { g.range(1, 3) };
        let m = random_model(&mut g, n, 3, rate);
        let net = m.net(*g.pick(&[1.0, 8.0, 64.0]));
        let mut rf = Rf::zero(&m.cards);
        let mut r = 0;
        for i in 0..m.cards.len() {
            let v = g.range(0, 12) as i64 - 4;
            r += v;
            for x in 0..m.cards[i] {
                rf.inst[i][x] = v;
            }
        }
        let (crit, t64) = (*g.pick(&CRITS), *g.pick(&HORIZONS));
        let x0: Vec<usize> = m.cards.iter().map(|c| g.below(*c)).collect();
        let mc = Mc { iters: *g.pick(&[1usize, 2, 7, 40]), err: 0.1, alpha: *g.pick(&[0.0, 0.05, 0.5]), t64, crit,
                      seed: if ep % 5 == 0 { None } else { Some(g.next()) } };
        let f = rf.real(&net);
        log.ev(match guard("evaluate_state", || mc.eval(&net, &f, &x0)) {
            Ok(v) => json!({"e": "const", "r": r, "gn": crit.gn, "gd": crit.gd, "k": crit.k(t64), "t64": t64, "v": limbs(v)}),
            Err(e) => panic_ev(e),
        });
    }
    // potentials: pathwise exact
    for ep in 0..120 * reps + 2 {
        let n = g.range(1, 4);
        let m = random_model(&mut g, n, 4, 6);
        // the last ones make more than a million jumps
        let huge = ep >= 120 * reps;
        let net = m.net(if huge { 2f64.powi(-15) } else { *g.pick(&[1.0, 2.0, 16.0]) });
        let mut rf = Rf::zero(&m.cards);
        let phi: Vec<Vec<i64>> = m.cards.iter().map(|c| (0..*c).map(|_| g.range(0, 40) as i64 - 10).collect()).collect();
        for i in 0..m.cards.len() {
            for x in 0..m.cards[i] {
                rf.inst[i][x] = phi[i][x];
                for y in 0..m.cards[i] {
                    rf.trans[i][x][y] = phi[i][y] - phi[i][x];
                }
            }
        }
        let (crit, t64) = (*g.pick(&CRITS), *g.pick(&HORIZONS));
        let x0: Vec<usize> = m.cards.iter().map(|c| g.below(*c)).collect();
        let (crit, t64) = if huge { (CRITS[2 + 2 * (ep % 2)], 640) } else { (crit, t64) };
        let iters = if ep % 3 < 2 || huge { 1 } else { *g.pick(&[2usize, 5, 16, 50]) };
        let mc = Mc { iters, err: 1.0, alpha: 0.0, t64, crit, seed: if ep % 5 == 0 { None } else { Some(g.next()) } };
        let f = rf.scaled(&net, -crit.g());
        log.ev(match guard("evaluate_state", || mc.eval(&net, &f, &x0)) {
            Ok(v) => json!({"e": "pot", "cards": m.cards, "phi": phi, "x0": x0, "fin": crit.gn == 0, "k": crit.k(t64),
                            "n": iters, "v": limbs(v)}),
            Err(e) => panic_ev(e),
        });
    }
    // linearity for equal seeds
    for _ in 0..30 * reps {
        let n = g.range(1, 3);
        let m = random_model(&mut g, n, 3, 5);
        let net = m.net(4.0);
        let (crit, t64) = (*g.pick(&CRITS), *g.pick(&HORIZONS));
        let x0: Vec<usize> = m.cards.iter().map(|c| g.below(*c)).collect();
        let mc = Mc { iters: *g.pick(&[1usize, 3, 12, 60]), err: 1.0, alpha: 0.0, t64, crit, seed: Some(g.next()) };
        let k = g.range(2, 4);
        let parts: Vec<Rf> = (0..k).map(|_| Rf::random(&mut g, &m.cards, -5, 9)).collect();
        let c: Vec<i64> = (0..k).map(|_| g.range(0, 6) as i64 - 2).collect();
        let mut sum = Rf::zero(&m.cards);
        for (p, c) in parts.iter().zip(&c) {
            for i in 0..m.cards.len() {
                for x in 0..m.cards[i] {
                    sum.inst[i][x] += c * p.inst[i][x];
                    for y in 0..m.cards[i] {
                        sum.trans[i][x][y] += c * p.trans[i][x][y];
                    }
                }
            }
        }
        log.ev(match guard("evaluate_state", || {
            (parts.iter().map(|p| limbs(mc.eval(&net, &p.real(&net), &x0))).collect::<Vec<_>>(), mc.eval(&net, &sum.real(&net), &x0))
        }) {
            Ok((vs, v)) => json!({"e": "lin", "vs": vs, "c": c, "v": limbs(v), "tol": limbs(1e-6)}),
            Err(e) => panic_ev(e),
        });
    }
    // cascades: moves that happen at once, then nothing within any horizon
    for ep in 0..50 * reps {
        let n = match ep % 25 { 7 => 70, 8 => 1, _ => g.range(1, 3) };
        let cards: Vec<usize> = if ep % 25 == 8 { vec![270] } else { (0..n).map(|_| g.range(2, 4)).collect() };
        // a chain of nodes; node i starts to climb once node i-1 is at its last value
        let edges: Vec<(usize, usize)> = (1..n).map(|i| (i - 1, i)).collect();
        let hops: Vec<usize> = cards.iter().map(|c| g.range(0, c - 1)).collect();
        let m = Model {
            cards: cards.clone(),
            edges: edges.clone(),
            q: (0..n)
                .map(|i| {
                    let u = if i == 0 { 1 } else { cards[i - 1] };
                    a3(u, cards[i], cards[i], |u, x, y| {
                        let on = (i == 0 || u == hops[i - 1]) && x < hops[i];
                        if !on { 0 } else if y == x + 1 { 1 } else if y == x { -1 } else { 0 }
                    })
                })
                .collect(),
        };
        let mut net = mk_net(&cards, &edges);
        for i in 0..n {
            // rate 2^42 for "at once", 2^-40 for "never"
            let fast = (1u64 << 42) as f64;
            let slow = 1.0 / (1u64 << 40) as f64;
            let mut c = m.q[i].mapv(|v| if v == 1 { fast } else { 0.0 });
            let (us_, k, _) = c.dim();
            for u in 0..us_ {
                for x in 0..k {
                    if (0..k).all(|y| c[[u, x, y]] == 0.0) {
                        c[[u, x, (x + 1) % k]] = slow;
                    }
                }
            }
            close_rows(&mut c);
            par_mut(&mut net, i).set_cim(c).unwrap();
        }
        let rf = Rf::random(&mut g, &cards, -9, 20);
        let (crit, t64) = (*g.pick(&CRITS), *g.pick(&HORIZONS));
        let x0 = vec![0; n];
        let mc = Mc { iters: *g.pick(&[1usize, 2, 9]), err: 0.1, alpha: 0.05, t64, crit, seed: Some(g.next()) };
        let f = rf.real(&net);
        log.ev(match guard("evaluate_state", || mc.eval(&net, &f, &x0)) {
            Ok(v) => json!({"e": "det", "net": m.json(), "rf": rf.json(), "x0": x0, "gn": crit.gn, "gd": crit.gd,
                            "k": crit.k(t64), "t64": t64, "v": limbs(v)}),
            Err(e) => panic_ev(e),
        });
    }
    // when averaging ends: trajectories worth an integer each, one jump at once and then rest
    for ep in 0..40 * reps {
        let rare = ep % 5 == 4; // mostly worth nothing
        let m = if rare { 3 } else { g.range(2, 6) };
        let mut net = mk_net(&[m], &[]);
        let mut c = ndarray::Array3::<f64>::zeros((1, m, m));
        let slow = 1.0 / (1u64 << 40) as f64;
        for x in 0..m {
            for y in 0..m {
                if x != y {
                    c[[0, x, y]] = if x == 0 { (1u64 << 42) as f64 * if rare { [35, 1][y - 1] } else { g.range(1, if ep % 3 == 0 { 30 } else { 3 }) } as f64 } else { slow };
                }
            }
        }
        close_rows(&mut c);
        par_mut(&mut net, 0).set_cim(c).unwrap();
        let mut rf = Rf::zero(&[m]);
        let off = if ep % 2 == 0 { 0 } else { g.range(0, 40) as i64 - 20 };
        for y in 1..m {
            rf.trans[0][0][y] = if rare { [0, 4][y - 1] } else { off + g.range(0, 9) as i64 };
        }
        // sometimes an average far larger than the spread
        let base = if ep % 8 == 3 || ep % 8 == 6 { *g.pick(&[1i64 << 27, -(1 << 28), 100_000_007]) } else { 0 };
        (1..m).for_each(|y| rf.trans[0][0][y] += base);
        let f = rf.real(&net);
        let (crit, t64, seed) = (*g.pick(if base == 0 { &CRITS } else { &CRITS[..4] }), *g.pick(&HORIZONS), Some(g.next()));
        let k = if rare { 110 } else { *g.pick(&[20usize, 60, 60, 90]) };
        let (level, alpha) = *g.pick(&[(1usize, 0.5), (2, 0.1), (2, 0.1), (3, 0.05), (3, 0.05), (4, 0.01), (5, 0.001)]);
        let (en, ed) = *g.pick(&[(1i64, 4i64), (1, 2), (2, 3), (1, 1), (3, 2), (2, 1), (3, 1), (1, 20)]);
        let mc = Mc { iters: k, err: en as f64 / ed as f64, alpha, t64, crit, seed };
        log.ev(match guard("evaluate_state", || {
            let vs: Vec<f64> = (1..=k).map(|i| Mc { iters: i, alpha: 0.0, ..mc }.eval(&net, &f, &[0])).collect();
            (vs.into_iter().map(|v| v - base as f64).collect::<Vec<_>>(), mc.eval(&net, &f, &[0]) - base as f64)
        }) {
            Ok((vs, v)) => json!({"e": "stop", "vs": vs.into_iter().map(limbs).collect::<Vec<_>>(), "v": limbs(v), "c": level, "en": en, "ed": ed,
                               "slack": if base == 0 { 0 } else { 20000 }}),
            Err(e) => panic_ev(e),
        });
    }
    // independent binary variables: closed form; batches give the sampling error
    for ep in 0..16 * reps {
        let n = 1 + ep % 3;
        let lam = [1i64, 2, 4, 8];
        let mut d = vec![];
        let mut q = vec![];
        let rf0 = Rf::random(&mut g, &vec![2; n], -3, 9);
        let mut rf = rf0.clone();
        let x0: Vec<usize> = (0..n).map(|_| g.below(2)).collect();
        for i in 0..n {
            let l = *g.pick(&lam) + 1;
            let a = g.range(1, l as usize - 1) as i64;
            let b = l - a;
            if ep % 4 == 0 {
                rf.inst[i] = vec![0, 0];
            }
            d.push(json!({"a": a, "b": b, "r0": rf.inst[i][0], "r1": rf.inst[i][1], "w01": rf.trans[i][0][1],
                          "w10": rf.trans[i][1][0], "s": x0[i]}));
            q.push(a3(1, 2, 2, |_, x, y| match (x, y) { (0, 0) => -a, (0, 1) => a, (1, 0) => b, _ => -b }));
        }
        let net = Model { cards: vec![2; n], edges: vec![], q }.net(1.0);
        let gq = [0i64, 0, 4, 1, 6, 12][ep % 6];
        let t64 = [64i64, 128, 32, 320, 8][ep % 5];
        let crit = Crit { gn: gq, gd: if gq == 0 { 1 + ep as i64 % 3 } else { 4 } };
        let f = rf.real(&net);
        let (sd, iters) = (g.next(), if deep { 1000 } else { 150 });
        let mc = Mc { iters, err: 1.0, alpha: 0.0, t64, crit, seed: None };
        log.ev(match guard("evaluate_state", || mc.batches(&net, &f, &x0, 30, sd)) {
            Ok((v, se)) => json!({"e": "exp2", "d": d, "g": gq, "t64": t64, "v": limbs(v), "tol": limbs(7.0 * se)}),
            Err(e) => panic_ev(e),
        });
    }
    // with early stopping, where single rewards are spread out: an error of at most 0.2
    // standard deviations at 1e-7
    for ep in 0..6 * reps {
        let (a, b) = (g.range(3, 6) as i64, g.range(3, 6) as i64);
        let rf = Rf { inst: vec![vec![g.range(0, 3) as i64, g.range(8, 12) as i64]],
                      trans: vec![vec![vec![0, ep as i64 % 3], vec![ep as i64 % 2, 0]]] };
        let x0 = vec![ep % 2];
        let net = Model { cards: vec![2], edges: vec![], q: vec![a3(1, 2, 2, |_, x, y| match (x, y) { (0, 0) => -a, (0, 1) => a, (1, 0) => b, _ => -b })] }.net(1.0);
        let f = rf.real(&net);
        let gq = [0i64, 1, 4][ep % 3];
        let crit = Crit { gn: gq, gd: if gq == 0 { 1 } else { 4 } };
        let sd = g.next();
        let mc = Mc { iters: 1, err: 1.0, alpha: 0.0, t64: 320, crit, seed: None };
        let se1 = guard("evaluate_state", || mc.batches(&net, &f, &x0, 200, sd).1 * (200f64).sqrt()).unwrap_or(0.0);
        let mc = Mc { iters: 40000, err: 0.2 * se1, alpha: 1e-7, t64: 320, crit, seed: Some(g.next()) };
        let d = json!([{"a": a, "b": b, "r0": rf.inst[0][0], "r1": rf.inst[0][1], "w01": rf.trans[0][0][1],
                        "w10": rf.trans[0][1][0], "s": x0[0]}]);
        log.ev(match guard("evaluate_state", || mc.eval(&net, &f, &x0)) {
            Ok(v) => json!({"e": "exp2", "d": d, "g": gq, "t64": 320, "v": limbs(v), "tol": limbs(0.3 * se1)}),
            Err(e) => panic_ev(e),
        });
    }
    // dependent variables: the values of all states satisfy Bellman's equation
    for ep in 0..5 * reps {
        let n = 2 + ep % 2;
        let cards: Vec<usize> = (0..n).map(|i| if i == 0 && ep % 2 == 0 { 3 } else { 2 }).collect();
        let edges = random_edges(&mut g, n, 3, 4, 2);
        let m = Model::fill(cards, edges, |_, _, _, _| g.range(1, 6) as i64);
        let net = m.net(1.0);
        let rf = Rf::random(&mut g, &m.cards, -2, 9);
        let f = rf.real(&net);
        let gn = *g.pick(&[2i64, 4]);
        let crit = Crit { gn, gd: 1 };
        let t64 = 64 * 12;
        let mut ok: Vec<(f64, f64)> = vec![];
        let mut bad = None;
        for s in 0..m.total() {
            let sd = g.next();
            let mc = Mc { iters: if deep { 400 } else { 60 }, err: 1.0, alpha: 0.0, t64, crit, seed: None };
            match guard("evaluate_state", || mc.batches(&net, &f, &decode(&m.cards, s), 20, sd)) {
                Ok(v) => ok.push(v),
                Err(e) => bad = Some(e),
            }
        }
        log.ev(match bad {
            None => json!({"e": "bell", "net": m.json(), "rf": rf.json(), "gn": gn, "v": ok.iter().map(|x| limbs(x.0)).collect::<Vec<_>>(),
                           "tol": ok.iter().map(|x| limbs(5.0 * x.1)).collect::<Vec<_>>()}),
            Some(e) => panic_ev(e),
        });
    }
}
// ------------------------------------------------------------------ C21
/// an evaluation that just looks the value up
pub struct Table {
    pub cards: Vec<usize>,
    pub v: Vec<i64>,
}
impl Table {
    fn num(&self, s: &NetworkProcessState) -> usize {
        let all = (0..self.cards.len()).collect();
        index_of(&self.cards, &all, &unstate(s))
    }
}
impl RewardEvaluation for Table {
    fn evaluate_state_space<N: NetworkProcess, R: RewardFunction>(&self, _: &N, _: &R) -> HashMap<NetworkProcessState, f64> {
        self.v.iter().enumerate().map(|(i, v)| (state(&decode(&self.cards, i)), *v as f64)).collect()
    }
    fn evaluate_state<N: NetworkProcess, R: RewardFunction>(&self, _: &N, _: &R, s: &NetworkProcessState) -> f64 {
        self.v[self.num(s)] as f64
    }
}

pub fn record_space(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "space");
    let shapes: [&[usize]; 9] = [&[2], &[7], &[2, 3], &[3, 2], &[2, 2, 2], &[4, 2, 3], &[2, 2, 3, 2, 2], &[5, 6], &[2, 2, 2, 2, 2, 2]];
    for rep in 0..(if deep { 6 } else { 1 }) {
        let wide: [&[usize]; 3] = [&[2; 9], &[290], &[17, 18]];
        let huge: [&[usize]; 4] = [&[29, 23], &[2; 10], &[3; 7], &[66, 71]];
        for (k, cards) in shapes.iter().chain(&wide).chain(if rep == 0 { huge.iter() } else { [].iter() }).enumerate() {
            let n = cards.len();
            let edges = random_edges(&mut g, n, 1, 2, 2);
            let m = Model::fill(cards.to_vec(), edges, |_, _, _, _| g.range(1, 6) as i64);
            let net = m.net(2.0);
            let rf = Rf::random(&mut g, cards, -3, 9);
            let f = rf.real(&net);
            let crit = CRITS[(k + rep) % CRITS.len()];
            // early stopping in half of the cases
            let (alpha, iters) = if k > 8 { (0.0, 2) } else if k % 2 == 0 { (0.0, 6) } else { (0.3, 40) };
            let mc = MonteCarloReward::new(iters, 2.0, alpha, 1.5, crit.real(), Some(g.next() >> g.below(64)));
            log.ev(match guard("evaluate_state_space", || {
                let r = mc.evaluate_state_space(&net, &f);
                let mut kv: Vec<(Vec<usize>, f64)> = r.iter().map(|(k, v)| (unstate(k), *v)).collect();
                kv.sort_by(|a, b| a.0.cmp(&b.0));
                let alone: Vec<String> =
                    kv.iter().map(|(k, _)| format!("{:x}", mc.evaluate_state(&net, &f, &state(k)).to_bits())).collect();
                (kv, alone)
            }) {
                Ok((kv, alone)) => json!({"e": "space", "cards": cards, "keys": kv.iter().map(|x| &x.0).collect::<Vec<_>>(),
                    "vals": kv.iter().map(|x| format!("{:x}", x.1.to_bits())).collect::<Vec<_>>(), "alone": alone}),
                Err(e) => panic_ev(e),
            });
        }
        // more than a hundred states per variable: summed up
        let large: [&[usize]; 2] = [&[103, 112], &[11, 2, 12, 101]];
        for cards in if rep == 0 { large.iter() } else { [].iter() } {
            let m = Model::fill(cards.to_vec(), vec![], |_, _, _, _| 1);
            let net = m.net(2f64.powi(20));
            let rf = Rf::random(&mut g, cards, -3, 9);
            let f = rf.real(&net);
            let mc = MonteCarloReward::new(1, 2.0, 0.0, 1.5, CRITS[rep % CRITS.len()].real(), Some(g.next()));
            log.ev(match guard("evaluate_state_space", || {
                let r = mc.evaluate_state_space(&net, &f);
                let all: std::collections::BTreeSet<usize> = (0..cards.len()).collect();
                let nums: std::collections::BTreeSet<usize> = r.keys().map(|k| index_of(cards, &all, &unstate(k))).collect();
                let dom = r.keys().filter(|k| k.len() == cards.len() && unstate(k).iter().zip(cards.iter()).all(|(x, c)| x < c)).count();
                let agree = r.iter().filter(|(k, v)| mc.evaluate_state(&net, &f, k).to_bits() == v.to_bits()).count();
                json!({"e": "wide", "cards": cards, "n": r.len(), "nums": nums.len(), "dom": dom, "agree": agree})
            }) {
                Ok(v) => v,
                Err(e) => panic_ev(e),
            });
        }
        for w in 0..6 {
            for cards in shapes.iter().chain(if w == 0 { wide.iter() } else { [].iter() }).chain(if w == 0 && rep == 0 { huge[1..3].iter() } else { [].iter() }) {
                let net = mk_net(cards, &[]);
                let total: usize = cards.iter().product();
                let neg = g.chance(1, 3);
                let zero = g.chance(1, 3);
                let all_neg = g.chance(1, 6);
                let v: Vec<i64> = (0..total)
                    .map(|_| {
                        let x = if zero && g.chance(1, 3) { 0 } else { g.range(1, 400) as i64 };
                        if neg && g.chance(1, 2) || all_neg { -x } else { x }
                    })
                    .collect();
                let f = Rf::zero(cards).real(&net);
                let e = NeighborhoodRelativeReward::new(Table { cards: cards.to_vec(), v: v.clone() });
                log.ev(match guard("relative reward", || e.evaluate_state_space(&net, &f)) {
                    Ok(r) => {
                        let all = (0..cards.len()).collect();
                        let mut kv: Vec<(usize, f64)> =
                            r.iter().map(|(k, v)| (index_of(cards, &all, &unstate(k)), *v)).collect();
                        kv.sort_by_key(|x| x.0);
                        json!({"e": "rel", "cards": cards, "base": v, "keys": kv.iter().map(|x| x.0).collect::<Vec<_>>(),
                            "vals": kv.iter().map(|x| if x.1 == f64::INFINITY { json!([1]) } else { limbs(x.1) }).collect::<Vec<_>>()})
                    }
                    Err(e) => panic_ev(e),
                });
            }
        }
    }
}
