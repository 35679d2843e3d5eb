//! C15 - C18, C24: structure learning, independence tests, cache, parallelism.
use crate::amalg::Model;
use crate::reward::Rf;
use crate::util::*;
use ndarray::{Array2, Array3};
use reCTBN::parameter_learning::*;
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess, NetworkProcessState};
use reCTBN::reward::reward_evaluation::*;
use reCTBN::reward::*;
use reCTBN::structure_learning::constraint_based_algorithm::*;
use reCTBN::structure_learning::hypothesis_test::*;
use reCTBN::structure_learning::score_based_algorithm::*;
use reCTBN::structure_learning::score_function::*;
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn panic_ev(e: String) -> Value {
    json!({"e": "panic", "msg": e})
}
type Set = BTreeSet<usize>;
fn others(n: usize, i: usize) -> Vec<usize> {
    (0..n).filter(|x| *x != i).collect()
}
/// number of a subset of the other nodes
fn mask(n: usize, i: usize, s: &Set) -> usize {
    others(n, i).iter().enumerate().map(|(k, p)| if s.contains(p) { 1 << k } else { 0 }).sum()
}
fn subset(n: usize, i: usize, m: usize) -> Set {
    others(n, i).into_iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|x| x.1).collect()
}
pub fn dummy_data(n: usize) -> Dataset {
    Dataset::new(vec![Trajectory::new(ndarray::arr1(&[0.0, 1.0]), Array2::zeros((2, n)))])
}
fn pars(net: &CtbnNetwork) -> Value {
    json!((0..net.get_number_of_nodes()).map(|i| set(&net.get_parent_set(i))).collect::<Vec<_>>())
}
fn chis(net: &CtbnNetwork) -> Value {
    json!((0..net.get_number_of_nodes()).map(|i| set(&net.get_children_set(i))).collect::<Vec<_>>())
}
fn nodes_ok(net: &CtbnNetwork, cards: &[usize]) -> bool {
    net.get_number_of_nodes() == cards.len()
        && (0..cards.len()).all(|i| {
            net.get_node(i).get_label() == &format!("n{}", i) && net.get_node(i).get_reserved_space_as_parent() == cards[i]
        })
}
fn spin(k: u64) {
    if k > 0 {
        std::thread::sleep(std::time::Duration::from_micros(k));
    }
}

// ------------------------------------------------------------------ C15
/// a score given by ranks: rank[node][mask]
#[derive(Clone)]
pub struct Ranks {
    pub rank: Vec<Vec<i64>>,
    pub scale: f64,
    pub offset: f64,
    /// upper bound of a pseudo-random delay per call, in microseconds
    pub delay: u64,
    pub salt: u64,
}
impl ScoreFunction for Ranks {
    fn call<T: NetworkProcess>(&self, net: &T, node: usize, ps: &Set, _: &Dataset) -> f64 {
        let m = mask(net.get_number_of_nodes(), node, ps);
        if self.delay > 0 {
            spin(Gen::new(self.salt, &format!("{} {}", node, m)).next() % self.delay);
        }
        self.rank[node][m] as f64 * self.scale + self.offset
    }
}
pub fn hc_event(g: &mut Gen, n: usize, rank: &Vec<Vec<i64>>, cap: Option<usize>) -> Value {
    let cards: Vec<usize> = (0..n).map(|_| g.range(2, 4)).collect();
    let edges = random_edges(g, n, 1, 3, n);
    let (scale, offset) = *g.pick(&[(1.0, 0.0), (1e-3, -50.0), (1e6, 1e9), (1e-9, 0.5), (-1.0, 0.0), (0.25, -1e12),
        // neighbouring ranks are neighbouring numbers; the smallest and the largest ones
        (1.0 / 4096.0, (1u64 << 40) as f64), (1.0 / 8192.0, -((1u64 << 40) as f64)), (f64::EPSILON, 1.0), (-f64::EPSILON / 2.0, -1.0), (5e-324, 0.0), (1e290, 0.0)]);
    // a negative scale turns the order round
    let score = Ranks { rank: rank.iter().map(|r| r.iter().map(|x| if scale < 0.0 { -x } else { *x }).collect()).collect(),
                        scale, offset, delay: 0, salt: 0 };
    let net = mk_net(&cards, &edges);
    let r = guard("hill climbing", || HillClimbing::new(score, cap).fit_transform(net, &dummy_data(n)));
    match r {
        Ok(o) => json!({"e": "hc", "n": n, "cap": cap.map(|c| c as i64).unwrap_or(-1), "rank": rank, "pars": pars(&o),
                        "chi": chis(&o), "ok": nodes_ok(&o, &cards)}),
        Err(e) => panic_ev(e),
    }
}
/// a score given by weights of the parents and of some pairs of them
#[derive(Clone)]
struct Weights {
    w: Vec<Vec<i64>>,
    pairs: Vec<Vec<(usize, usize, i64)>>,
    delay: u64,
}
impl Weights {
    fn random(g: &mut Gen, n: usize) -> Weights {
        let val = |g: &mut Gen| g.below(2_000_001) as i64 - 1_000_000;
        // about four, or half, of the others are worth having
        let shift = if g.chance(1, 2) { 1_000_000 - 8_000_000 / (n as i64).max(8) } else { 0 };
        let w = (0..n).map(|_| (0..n).map(|_| val(g) - shift).collect()).collect();
        let pairs = (0..n)
            .map(|i| (0..n / 2).filter_map(|_| { let (a, b) = (g.below(n), g.below(n)); let v = val(g); if a != b && a != i && b != i { Some((a, b, v)) } else { None } }).collect())
            .collect();
        Weights { w, pairs, delay: 0 }
    }
}
impl ScoreFunction for Weights {
    fn call<T: NetworkProcess>(&self, _: &T, node: usize, ps: &Set, _: &Dataset) -> f64 {
        if self.delay > 0 && ps.len() < 2 {
            spin(Gen::new(self.delay, &format!("{} {:?}", node, ps)).next() % self.delay);
        }
        let s: i64 = ps.iter().map(|p| self.w[node][*p]).sum();
        let t: i64 = self.pairs[node].iter().filter(|x| ps.contains(&x.0) && ps.contains(&x.1)).map(|x| x.2).sum();
        (s + t) as f64
    }
}
fn hcbig_event(g: &mut Gen, n: usize, all: bool) -> Value {
    let cards: Vec<usize> = (0..n).map(|_| g.range(2, 4)).collect();
    let edges = random_edges(g, n, 1, n, 3);
    let mut score = Weights::random(g, n);
    let mut cap = *g.pick(&[None, None, Some(3), Some(5), Some(n / 2), Some(n)]);
    if all {
        // nearly all of the others are worth having, and there is no (effective) limit
        score.w.iter_mut().flatten().for_each(|w| if *w % 8 != 0 { *w = w.abs() + 1 });
        score.pairs.iter_mut().flatten().for_each(|p| p.2 = p.2.abs());
        cap = *g.pick(&[None, None, Some(n), Some(usize::MAX)]);
    }
    let r = guard("hill climbing", || HillClimbing::new(score.clone(), cap).fit_transform(mk_net(&cards, &edges), &dummy_data(n)));
    match r {
        Ok(o) => json!({"e": "hcbig", "n": n, "cap": cap.map(|c| c.min(1 << 20) as i64).unwrap_or(-1), "w": score.w, "pairs": score.pairs,
                        "pars": pars(&o), "chi": chis(&o), "ok": nodes_ok(&o, &cards)}),
        Err(e) => panic_ev(e),
    }
}
fn shuffled(g: &mut Gen, k: usize) -> Vec<i64> {
    let mut v: Vec<i64> = (0..k as i64).collect();
    for i in (1..k).rev() {
        v.swap(i, g.below(i + 1));
    }
    v
}
fn any_cap(g: &mut Gen, n: usize) -> Option<usize> {
    if g.chance(1, 3) { None } else { Some(g.below(n + 1)) }
}
/// data sampled from a random network
fn sampled(g: &mut Gen, cards: Vec<usize>, dens: usize, trajs: u64, t_end: f64) -> (Model, CtbnNetwork, Dataset) {
    let edges = random_edges(g, cards.len(), dens, 4, 2);
    let m = Model::fill(cards, edges, |_, _, _, _| *g.pick(&[2i64, 3, 5, 9, 20]));
    let net = m.net(4.0);
    let ds = guard("trajectory_generator", || trajectory_generator(&net, trajs, t_end, Some(7)))
        .unwrap_or_else(|_| dummy_data(m.cards.len()));
    (m, net, ds)
}
/// whether every variable leaves each of its states in every configuration of the others
fn left_everywhere(cards: &[usize], ds: &Dataset) -> bool {
    let all: Set = (0..cards.len()).collect();
    let total: usize = cards.iter().product();
    let mut left = vec![vec![false; total]; cards.len()];
    for t in ds.get_trajectories() {
        let e = t.get_events();
        for k in 1..e.nrows() {
            let (a, b) = (e.row(k - 1).to_vec(), e.row(k).to_vec());
            let u = index_of(cards, &all, &a);
            (0..cards.len()).filter(|i| a[*i] != b[*i]).for_each(|i| left[i][u] = true);
        }
    }
    left.iter().flatten().all(|x| *x)
}
fn rank_of(v: &[f64]) -> Vec<i64> {
    let mut s: Vec<f64> = v.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    s.dedup();
    v.iter().map(|x| s.iter().position(|y| y == x).unwrap() as i64).collect()
}
pub fn record_hc(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "hc");
    for ep in 0..(if deep { 20000 } else { 2500 }) {
        let n = [1usize, 2, 3, 4, 4, 4, 5, 5, 6][ep % 9];
        let k = 1usize << (n - 1);
        let ties = ep % 10 == 9;
        let rank: Vec<Vec<i64>> = (0..n)
            .map(|_| if ties { (0..k).map(|_| g.below(3) as i64).collect() } else { shuffled(&mut g, k) })
            .collect();
        let cap = any_cap(&mut g, n);
        log.ev(hc_event(&mut g, n, &rank, cap));
    }
    for ep in 0..(if deep { 60 } else { 14 }) {
        let n = [7, 8, 9, 10, 12, 17, 20, 33, 40, 70, 9, 16, 11, 66][ep % 14];
        log.ev(hcbig_event(&mut g, n, false));
    }
    for ep in 0..(if deep { 20 } else { 4 }) {
        let n = [16, 24, 37, 66][ep % 4];
        log.ev(hcbig_event(&mut g, n, true));
    }
    // real scores on sampled data
    for ep in 0..(if deep { 60 } else { 12 }) {
        let n = 3 + ep % 2;
        let cards: Vec<usize> = (0..n).map(|_| g.range(2, 3)).collect();
        let (m, net, ds) = sampled(&mut g, cards, 2, 4, 6.0);
        let (alpha, tau) = (g.range(1, 3), *g.pick(&[0.5, 1.0, 4.0]));
        let cap = any_cap(&mut g, n);
        let bic = ep % 3 > 0;
        let r = guard("hill climbing", || {
            let score = |i: usize, s: &Set| if bic { BIC::new(alpha, tau).call(&net, i, s, &ds) } else { LogLikelihood::new(alpha, tau).call(&net, i, s, &ds) };
            let rank: Vec<Vec<i64>> =
                (0..n).map(|i| rank_of(&(0..1 << (n - 1)).map(|k| score(i, &subset(n, i, k))).collect::<Vec<_>>())).collect();
            let o = if bic { HillClimbing::new(BIC::new(alpha, tau), cap).fit_transform(m.net(4.0), &ds) }
                    else { HillClimbing::new(LogLikelihood::new(alpha, tau), cap).fit_transform(m.net(4.0), &ds) };
            (rank, o)
        });
        log.ev(match r {
            Ok((rank, o)) => json!({"e": "hc", "n": n, "cap": cap.map(|c| c as i64).unwrap_or(-1), "rank": rank, "pars": pars(&o),
                                    "chi": chis(&o), "ok": nodes_ok(&o, &m.cards)}),
            Err(e) => panic_ev(e),
        });
    }
}
pub fn replay_hc(log: &mut Log, input: &str) {
    let mut g = Gen::new(5, "hc replay");
    for (ep, line) in input.lines().enumerate() {
        let v: Value = serde_json::from_str(line).unwrap();
        let rank: Vec<i64> = v["rank"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let n = rank.len().trailing_zeros() as usize + 1;
        let cap = v["cap"].as_i64().unwrap();
        // the ranking given goes to one node, the others get permuted copies
        let all: Vec<Vec<i64>> = (0..n).map(|i| if i == ep % n { rank.clone() } else { shuffled(&mut g, rank.len()) }).collect();
        log.ev(hc_event(&mut g, n, &all, if cap < 0 { None } else { Some(cap as usize) }));
    }
}

// ------------------------------------------------------------------ C16
/// Parameters per node and parent set, made up by the driver.
#[derive(Clone)]
pub struct Oracle {
    pub p: BTreeMap<(usize, Set), (Array3<usize>, Array3<f64>)>,
    pub delay: u64,
    pub salt: u64,
}
impl ParameterLearning for Oracle {
    fn fit<T: NetworkProcess>(&self, net: &T, _: &Dataset, node: usize, ps: Option<Set>) -> Params {
        let ps = match ps {
            Some(p) => p,
            None => net.get_parent_set(node),
        };
        if self.delay > 0 {
            spin(Gen::new(self.salt, &format!("{} {:?}", node, ps)).next() % self.delay);
        }
        let mut r = net.get_node(node).clone();
        let (m, c) = &self.p[&(node, ps)];
        match &mut r {
            Params::DiscreteStatesContinousTime(p) => {
                p.set_transitions(m.clone());
                p.set_cim_unchecked(c.clone());
                p.set_residence_time(Array2::ones((m.shape()[0], m.shape()[1])));
            }
        }
        r
    }
}
const K: usize = 14;
/// One row per child state: level of the exit intensity and of the distribution (0, 1, 2);
/// levels 0 and 2 differ significantly, neighbouring levels do not (see DESIGN.md).
/// A child with two states has no distribution.
fn params_of(u: usize, k: usize, lev: impl Fn(usize, usize) -> (usize, usize)) -> (Array3<usize>, Array3<f64>) {
    let qs = [100.0, 109.0, 120.0];
    let ds = [0, 60, 120];
    let m = a3(u, k, k, |u, x, y| {
        if k == 2 {
            return if x == y { 0 } else { 1000 };
        }
        let d = ds[lev(u, x).1];
        if x == y { 0 } else if y == (x + 1) % k { 225 + d } else if y == (x + 2) % k { 225 - d } else { 50 }
    });
    let mut c = a3(u, k, k, |u, x, y| if x == y { 0.0 } else { qs[lev(u, x).0] * m[[u, x, y]] as f64 / 1000.0 });
    for u in 0..u {
        for x in 0..k {
            c[[u, x, x]] = -qs[lev(u, x).0];
        }
    }
    (m, c)
}
/// levels of every parent set such that exactly the given (separating set, candidate) pairs are
/// dependent, in one configuration each; kind bit 0: F, bit 1: chi-square
fn child_from_edges(g: &mut Gen, cards: &[usize], child: usize, dep: &[(Set, usize, usize)], o: &mut Oracle) {
    let (n, k) = (cards.len(), cards[child]);
    assert!(dep.len() <= k);
    let cfg: Vec<usize> = dep
        .iter()
        .map(|d| {
            let mut big = d.0.clone();
            big.insert(d.1);
            g.below(n_configs(cards, &big))
        })
        .collect();
    for mk in 0..1usize << (n - 1) {
        let s = subset(n, child, mk);
        let u = n_configs(cards, &s);
        let lev: Vec<Vec<(usize, usize)>> = (0..u)
            .map(|u| {
                (0..k)
                    .map(|k| {
                        if k >= dep.len() {
                            return (0, 0);
                        }
                        let (base, p, kind) = &dep[k];
                        let mut big = base.clone();
                        big.insert(*p);
                        let l = if s == *base { 0 } else if s == big && u == cfg[k] { 2 } else { 1 };
                        (if kind & 1 > 0 { l } else { 0 }, if kind & 2 > 0 { l } else { 0 })
                    })
                    .collect()
            })
            .collect();
        o.p.insert((child, s), params_of(u, k, |u, x| lev[u][x]));
    }
}
fn child_random(g: &mut Gen, cards: &[usize], child: usize, rows: usize, o: &mut Oracle) {
    let (n, kk) = (cards.len(), cards[child]);
    for mk in 0..1usize << (n - 1) {
        let s = subset(n, child, mk);
        let u = n_configs(cards, &s);
        let lev: Vec<Vec<(usize, usize)>> = (0..u)
            .map(|_| (0..kk).map(|k| if k < rows { let f = kk == 2 || g.chance(1, 2); let l = g.below(3); if f { (l, 0) } else { (0, l) } } else { (0, 0) }).collect())
            .collect();
        // mostly the same level in all configurations of a parent set
        let one = g.chance(3, 4);
        o.p.insert((child, s), params_of(u, kk, |u, x| lev[if one { 0 } else { u }][x]));
    }
}
/// one child with many states, the others binary
fn rich(n: usize, c: usize) -> Vec<usize> {
    (0..n).map(|i| if i == c { K } else { 2 }).collect()
}
pub fn random_oracle(g: &mut Gen, cards: &[usize], hi: usize) -> Oracle {
    let mut o = Oracle { p: BTreeMap::new(), delay: 0, salt: 0 };
    for c in 0..cards.len() {
        let rows = g.range(0, if cards[c] == 2 { hi.min(2) } else { hi });
        child_random(g, cards, c, rows, &mut o);
    }
    o
}
fn table<P: ParameterLearning>(net: &CtbnNetwork, ds: &Dataset, p: &P, n: usize, c: usize, a: (f64, f64)) -> Value {
    let mut t = vec![];
    for mk in 0..1usize << (n - 1) {
        let s = subset(n, c, mk);
        for p2 in others(n, c) {
            if !s.contains(&p2) {
                let f = F::new(a.0).call(net, c, p2, &s, ds, &mut Cache::new(p));
                let x = ChiSquare::new(a.1).call(net, c, p2, &s, ds, &mut Cache::new(p));
                t.push(json!([p2, s.iter().collect::<Vec<_>>(), f as u8, x as u8]));
            }
        }
    }
    json!(t)
}
fn ctpc_event<P: ParameterLearning + Clone>(g: &mut Gen, cards: &[usize], p: &P, ds: &Dataset, a: (f64, f64)) -> Value {
    let n = cards.len();
    let plain = mk_net(cards, &[]);
    let net = mk_net(cards, &random_edges(g, n, 1, 3, n));
    let r = guard("ctpc", || {
        let t: Vec<Value> = (0..n).map(|c| table(&plain, ds, p, n, c, a)).collect();
        let o = CTPC::new(p.clone(), F::new(a.0), ChiSquare::new(a.1)).fit_transform(net, ds);
        (t, o)
    });
    match r {
        Ok((t, o)) => json!({"e": "ctpc", "n": n, "tab": t, "pars": pars(&o), "chi": chis(&o), "ok": nodes_ok(&o, cards)}),
        Err(e) => panic_ev(e),
    }
}
/// Made-up parameters for many nodes: the child depends on the candidates in `dep`, and which
/// ones of them separate each other is drawn at random.
#[derive(Clone)]
struct Wide {
    cards: Vec<usize>,
    dep: Vec<Set>,
    salt: u64,
    delay: u64,
}
impl ParameterLearning for Wide {
    fn fit<T: NetworkProcess>(&self, net: &T, _: &Dataset, node: usize, ps: Option<Set>) -> Params {
        let ps = ps.unwrap_or_else(|| net.get_parent_set(node));
        let k = self.cards[node];
        let u = n_configs(&self.cards, &ps);
        let mut g = Gen::new(self.salt, &format!("{} {:?}", node, ps));
        if self.delay > 0 && ps.len() < 2 {
            spin(Gen::new(self.delay, &format!("{} {:?}", node, ps)).next() % self.delay);
        }
        let inside = ps.is_subset(&self.dep[node]);
        let f = k == 2 || g.chance(1, 2);
        let row = g.below(k.min(3));
        let l = if ps.is_empty() { 0 } else if !inside { 1 } else if ps.len() == 1 { 2 } else { g.below(3) };
        let (m, c) = params_of(u, k, |_, x| if x != row { (0, 0) } else if f { (l, 0) } else { (0, l) });
        let mut r = net.get_node(node).clone();
        match &mut r {
            Params::DiscreteStatesContinousTime(p) => {
                p.set_transitions(m);
                p.set_cim_unchecked(c);
                p.set_residence_time(Array2::ones((u, k)));
            }
        }
        r
    }
}
fn wide(g: &mut Gen, n: usize) -> Wide {
    let cards = rich(n, g.below(n + 1));
    let mut dep = vec![];
    for c in 0..n {
        let m = g.below(4);
        let mut d: Set = (0..m).map(|_| g.below(n)).collect();
        if g.chance(1, 3) {
            d.insert(n - 1);
        }
        d.remove(&c);
        dep.push(d);
    }
    Wide { cards, dep, salt: g.next(), delay: 0 }
}
fn ctpcbig_event(g: &mut Gen, n: usize) -> Value {
    let o = wide(g, n);
    let plain = mk_net(&o.cards, &[]);
    let net = mk_net(&o.cards, &random_edges(g, n, 1, n, 3));
    let ds = dummy_data(n);
    let r = guard("ctpc", || {
        let test = |c: usize, p: usize, s: &Set| {
            (F::new(0.05).call(&plain, c, p, s, &ds, &mut Cache::new(&o)), ChiSquare::new(0.05).call(&plain, c, p, s, &ds, &mut Cache::new(&o)))
        };
        // all candidates on their own, then every separating set among those that are left
        let tab: Vec<Value> = (0..n)
            .map(|c| {
                let mut t = vec![];
                let mut left = vec![];
                for p in others(n, c) {
                    let (f, x) = test(c, p, &Set::new());
                    t.push(json!([p, [], f as u8, x as u8]));
                    if !(f && x) {
                        left.push(p);
                    }
                }
                left.truncate(6);
                for p in &left {
                    for m in 1..1usize << left.len() {
                        let s: Set = left.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|x| *x.1).collect();
                        if !s.contains(p) {
                            let (f, x) = test(c, *p, &s);
                            t.push(json!([p, s.iter().collect::<Vec<_>>(), f as u8, x as u8]));
                        }
                    }
                }
                json!(t)
            })
            .collect();
        (tab, CTPC::new(o.clone(), F::new(0.05), ChiSquare::new(0.05)).fit_transform(net, &ds))
    });
    match r {
        Ok((t, out)) => json!({"e": "ctpc", "n": n, "tab": t, "pars": pars(&out), "chi": chis(&out), "ok": nodes_ok(&out, &o.cards)}),
        Err(e) => panic_ev(e),
    }
}
/// Made-up parameters under which independence often needs large separating sets: every row of
/// a child has level 0 or 2 by the parity of the parents it looks at, save for some parent
/// sets, large ones mostly, where it is neutral.
#[derive(Clone)]
struct Deep {
    cards: Vec<usize>,
    // per child and row: the parents it looks at, whether by intensity, the neutral parent sets
    rows: Vec<Vec<(Set, bool, Vec<Set>)>>,
}
impl ParameterLearning for Deep {
    fn fit<T: NetworkProcess>(&self, net: &T, _: &Dataset, node: usize, ps: Option<Set>) -> Params {
        let ps = ps.unwrap_or_else(|| net.get_parent_set(node));
        let k = self.cards[node];
        let u = n_configs(&self.cards, &ps);
        let (m, c) = params_of(u, k, |_, x| match self.rows[node].get(x) {
            None => (0, 0),
            Some((a, f, neutral)) => {
                let l = if neutral.contains(&ps) { 1 } else { 2 * (ps.intersection(a).count() % 2) };
                if *f { (l, 0) } else { (0, l) }
            }
        });
        let mut r = net.get_node(node).clone();
        match &mut r {
            Params::DiscreteStatesContinousTime(p) => {
                p.set_transitions(m);
                p.set_cim_unchecked(c);
                p.set_residence_time(Array2::ones((u, k)));
            }
        }
        r
    }
}
fn deep_oracle(g: &mut Gen, n: usize) -> Deep {
    let cards = if n <= 6 { rich(n, g.below(n + 1)) } else { vec![2; n] };
    let rows = (0..n)
        .map(|c| {
            // sizes of the neutral sets: around one size, so that they decide together
            let size = g.range(2, n - 1);
            (0..g.range(1, 2))
                .map(|_| {
                    let a: Set = others(n, c).into_iter().filter(|_| g.chance(9, 10)).collect();
                    let neutral = (0..g.range(0, 3))
                        .map(|_| {
                            let mut o = others(n, c);
                            let m = if g.chance(2, 3) { size } else { g.range(2, n - 1) };
                            while o.len() > m {
                                o.remove(g.below(o.len()));
                            }
                            o.into_iter().collect()
                        })
                        .collect();
                    (a, cards[c] == 2 || g.chance(1, 2), neutral)
                })
                .collect()
        })
        .collect();
    Deep { cards, rows }
}
#[derive(Clone)]
struct Mle;
impl ParameterLearning for Mle {
    fn fit<T: NetworkProcess>(&self, net: &T, ds: &Dataset, node: usize, ps: Option<Set>) -> Params {
        MLE {}.fit(net, ds, node, ps)
    }
}
pub fn record_ctpc(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "ctpc");
    for ep in 0..(if deep { 900 } else { 110 }) {
        let n = [2usize, 3, 4, 4, 5][ep % 5];
        let cards = rich(n, g.below(n + 1));
        let mut o = random_oracle(&mut g, &cards, 5);
        for c in 0..n {
            if cards[c] == K && g.chance(1, 2) {
                let mut dep = vec![];
                for p in others(n, c) {
                    for mk in 0..1usize << (n - 1) {
                        let s = subset(n, c, mk);
                        if !s.contains(&p) && dep.len() < K && (s.is_empty() && g.chance(5, 6) || g.chance(1, 2)) {
                            dep.push((s, p, g.range(1, 3)));
                        }
                    }
                }
                child_from_edges(&mut g, &cards, c, &dep, &mut o);
            }
        }
        log.ev(ctpc_event(&mut g, &cards, &o, &dummy_data(n), (0.05, 0.05)));
    }
    for ep in 0..(if deep { 40 } else { 8 }) {
        let n = [6, 7, 9, 17, 20, 34, 40, 70][ep % 8];
        log.ev(ctpcbig_event(&mut g, n));
    }
    // separating sets of up to seven variables
    for ep in 0..if deep { 60 } else { 14 } {
        let n = [5, 6, 7, 8, 7, 6, 8][ep % 7];
        let o = deep_oracle(&mut g, n);
        log.ev(ctpc_event(&mut g, &o.cards.clone(), &o, &dummy_data(n), (0.05, 0.05)));
    }
    // real data, binary variables (the tests fail on states never left, see C17)
    for ep in 0..(if deep { 40 } else { 8 }) {
        let n = 3 + ep % 2;
        let (m, _, ds) = sampled(&mut g, vec![2; n], 2, 20, 60.0);
        if !left_everywhere(&m.cards, &ds) {
            continue;
        }
        let a = *g.pick(&[(0.05, 0.05), (1e-5, 0.001), (0.2, 0.01)]);
        log.ev(ctpc_event(&mut g, &m.cards, &Mle, &ds, a));
    }
}
pub fn replay_ctpc(log: &mut Log, input: &str) {
    let mut g = Gen::new(5, "ctpc replay");
    for (ep, line) in input.lines().enumerate() {
        // dep: list of [candidate, separating set] that are dependent
        let v: Value = serde_json::from_str(line).unwrap();
        let n = v["n"].as_u64().unwrap() as usize;
        let c = ep % n;
        let oth = others(n, c);
        let dep: Vec<(Set, usize, usize)> = v["dep"]
            .as_array()
            .unwrap()
            .iter()
            .map(|d| {
                let s: Set = d[1].as_array().unwrap().iter().map(|x| oth[x.as_u64().unwrap() as usize]).collect();
                (s, oth[d[0].as_u64().unwrap() as usize], g.range(1, 3))
            })
            .collect();
        let cards = rich(n, c);
        let mut o = random_oracle(&mut g, &cards, 0);
        child_from_edges(&mut g, &cards, c, &dep, &mut o);
        log.ev(ctpc_event(&mut g, &cards, &o, &dummy_data(n), (0.05, 0.05)));
    }
}

// ------------------------------------------------------------------ C17
const ALPHAS: [f64; 5] = [0.05, 0.01, 0.1, 0.001, 0.5];
const DOF: [usize; 15] = [1, 2, 3, 4, 5, 6, 8, 10, 12, 20, 30, 50, 100, 200, 1000];
fn counts(g: &mut Gen, u: usize, k: usize, hi: usize, zero: bool, scale: usize) -> (Vec<Vec<Vec<usize>>>, Array3<usize>) {
    let v: Vec<Vec<Vec<usize>>> = (0..u)
        .map(|_| (0..k).map(|x| (0..k).map(|y| if x == y { 0 } else if zero && g.chance(1, 3) { 0 } else { g.range(1, hi) }).collect()).collect())
        .collect();
    let a = a3(u, k, k, |u, x, y| v[u][x][y] * scale);
    (v, a)
}
fn chi_event(g: &mut Gen, zero: bool) -> Value {
    let kmax = if g.chance(1, 5) { 12 } else { 4 };
    let k = g.range(2, kmax);
    let (u1, u2) = (g.range(1, 3), g.range(1, 3));
    let hi = *g.pick(&[2usize, 6, 15]);
    let hi = hi.min(180 / k);
    let scale = *g.pick(&[1usize, 1, 2, 3, 10, 40, 100_000]);
    let (mut m1, a1) = counts(g, u1, k, hi, zero, scale);
    let (mut m2, mut a2) = counts(g, u2, k, hi, zero, scale);
    let (i, j) = (g.below(u1), g.below(u2));
    match g.below(4) {
        // identical, or nearly so
        0 => {
            m2[j] = m1[i].clone();
        }
        1 => {
            m2[j] = m1[i].clone();
            let x = g.below(k);
            let y = (x + 1 + g.below(k - 1)) % k;
            m2[j][x][y] += g.range(1, hi);
        }
        2 => {
            // same distribution, other number of observations
            m2[j] = m1[i].iter().map(|r| r.iter().map(|x| x * 2).collect()).collect();
        }
        _ => {}
    }
    if g.chance(1, 20) && !zero {
        m1[i] = m2[j].clone();
    }
    let a1 = { let _ = a1; a3(u1, k, k, |u, x, y| m1[u][x][y] * scale) };
    for u in 0..u2 {
        for x in 0..k {
            for y in 0..k {
                a2[[u, x, y]] = m2[u][x][y] * scale;
            }
        }
    }
    let a = g.below(5);
    let lay = g.below(25);
    let out = guard("chi-square", || ChiSquare::new(ALPHAS[a]).compare_matrices(i, &lay3(a1, lay), j, &lay3(a2, lay / 5)));
    json!({"e": "chi", "a": a + 1, "s": scale, "i": i, "j": j, "m1": m1, "m2": m2, "out": out.map(|b| b as i64).unwrap_or(-1)})
}
/// transition counts with the given row sums (off-diagonal, at least one cell)
fn rows_with(u: usize, k: usize, r: &Vec<Vec<usize>>) -> Array3<usize> {
    a3(u, k, k, |u, x, y| {
        if x == y {
            return 0;
        }
        let cells = k - 1;
        let pos = if y < x { y } else { y - 1 };
        r[u][x] / cells + if pos < r[u][x] % cells { 1 } else { 0 }
    })
}
fn cim_with(u: usize, k: usize, q: &Vec<Vec<usize>>, unit: f64) -> Array3<f64> {
    a3(u, k, k, |u, x, y| if x == y { -(q[u][x] as f64) / unit } else { q[u][x] as f64 / unit / (k - 1) as f64 })
}
fn f_event(g: &mut Gen, zero: bool) -> Value {
    let k = g.range(2, 4);
    let (u1, u2) = (g.range(1, 3), g.range(1, 3));
    let (i, j) = (g.below(u1), g.below(u2));
    let near = g.chance(1, 2);
    let fill = |u: usize, g: &mut Gen| -> (Vec<Vec<usize>>, Vec<Vec<usize>>) {
        let r: Vec<Vec<usize>> = (0..u).map(|_| (0..k).map(|_| if zero && g.chance(1, 3) { 0 } else { *g.pick(&DOF) }).collect()).collect();
        let q = (0..u)
            .map(|u| (0..k).map(|x| if r[u][x] == 0 { 0 } else if near { g.range(80, 125) } else { 1 << g.below(14) }).collect())
            .collect();
        (r, q)
    };
    let (r1, q1) = fill(u1, g);
    let (mut r2, mut q2) = fill(u2, g);
    if g.chance(1, 4) {
        q2[j] = q1[i].clone();
        if g.chance(1, 2) || zero {
            r2[j] = r1[i].clone();
        }
    }
    // one exit intensity far off, in one direction
    if g.chance(1, 4) && !zero {
        let x = g.below(k);
        if g.chance(1, 2) { q2[j][x] *= 16 } else { q2[j][x] = (q2[j][x] / 16).max(1) }
    }
    let a = g.below(5);
    let unit = *g.pick(&[1.0, 64.0]);
    let (m1, m2, c1, c2) = (rows_with(u1, k, &r1), rows_with(u2, k, &r2), cim_with(u1, k, &q1, unit), cim_with(u2, k, &q2, unit));
    let lay = g.below(1000);
    let out = guard("F", || F::new(ALPHAS[a]).compare_matrices(i, &lay3(m1, lay), &lay3(c1, lay / 5), j, &lay3(m2, lay / 7), &lay3(c2, lay / 11)));
    json!({"e": "f", "a": a + 1, "i": i, "j": j, "r1": r1, "r2": r2, "q1": q1, "q2": q2, "out": out.map(|b| b as i64).unwrap_or(-1)})
}
/// whole tests: configurations of separating set and candidate against the separating set
fn call_event(g: &mut Gen, chi: bool) -> Value {
    let n = g.range(2, 5);
    let cards: Vec<usize> = (0..n).map(|_| g.range(2, 3)).collect();
    let child = g.below(n);
    let oth = others(n, child);
    let p = *g.pick(&oth);
    let sep: Set = oth.iter().cloned().filter(|x| *x != p && g.chance(2, 3)).take(3).collect();
    let mut big = sep.clone();
    big.insert(p);
    let (us, ub) = (n_configs(&cards, &sep), n_configs(&cards, &big));
    let k = cards[child];
    let a = *g.pick(&[0usize, 1]);
    // per configuration of the separating set a level far from the other ones; in the extended
    // set the same, apart from at most one configuration
    let odd = if g.chance(1, 2) { Some(g.below(ub)) } else { None };
    let small_of: Vec<usize> = (0..ub)
        .map(|b| {
            let ps: Vec<usize> = big.iter().cloned().collect();
            let digs = decode(&ps.iter().map(|p| cards[*p]).collect::<Vec<_>>(), b);
            let mut st = vec![0; n];
            for (x, d) in ps.iter().zip(digs) {
                st[*x] = d;
            }
            index_of(&cards, &sep, &st)
        })
        .collect();
    let noise = g.chance(1, 3);
    let spread = g.chance(4, 5);
    let lev_s: Vec<usize> = (0..us).map(|i| if spread { i } else { 0 }).collect();
    let lev_b: Vec<usize> = (0..ub).map(|b| if odd == Some(b) { lev_s[small_of[b]] + 1 + g.below(us.max(2)) } else if noise && g.chance(1, 2) { g.below(us) } else { lev_s[small_of[b]] }).collect();
    let m_of = |l: usize| -> Vec<Vec<usize>> {
        (0..k).map(|x| (0..k).map(|y| if x == y { 0 } else if chi && y == (x + 1) % k { 5 + 12 * (l % 8) } else { 10 }).collect()).collect()
    };
    // for the F test the counts are the same everywhere and the intensities carry the level
    let r_of = |_: usize| -> Vec<usize> { vec![100; k] };
    let q_of = |l: usize| -> Vec<usize> { (0..k).map(|x| (1 << l.min(12)) * 3 + x).collect() };
    let (ms, mb): (Vec<_>, Vec<_>) = (lev_s.iter().map(|l| m_of(*l)).collect(), lev_b.iter().map(|l| m_of(*l)).collect());
    let (rs, rb): (Vec<_>, Vec<_>) = (lev_s.iter().map(|l| r_of(*l)).collect(), lev_b.iter().map(|l| r_of(*l)).collect());
    let (qs, qb): (Vec<_>, Vec<_>) = (lev_s.iter().map(|l| q_of(*l)).collect(), lev_b.iter().map(|l| q_of(*l)).collect());
    let mut o = Oracle { p: BTreeMap::new(), delay: 0, salt: 0 };
    let (ams, amb) = if chi {
        (a3(us, k, k, |u, x, y| ms[u][x][y]), a3(ub, k, k, |u, x, y| mb[u][x][y]))
    } else {
        (rows_with(us, k, &rs), rows_with(ub, k, &rb))
    };
    o.p.insert((child, sep.clone()), (ams, cim_with(us, k, &qs, 8.0)));
    o.p.insert((child, big.clone()), (amb, cim_with(ub, k, &qb, 8.0)));
    let net = mk_net(&cards, &[]);
    let ds = dummy_data(n);
    let out = guard("test", || {
        if chi {
            ChiSquare::new(ALPHAS[a]).call(&net, child, p, &sep, &ds, &mut Cache::new(&o))
        } else {
            F::new(ALPHAS[a]).call(&net, child, p, &sep, &ds, &mut Cache::new(&o))
        }
    });
    let out = out.map(|b| b as i64).unwrap_or(-1);
    if chi {
        json!({"e": "chicall", "a": a + 1, "s": 1, "cards": cards, "p": p, "sep": set(&sep), "m1": ms, "m2": mb, "out": out})
    } else {
        json!({"e": "fcall", "a": a + 1, "cards": cards, "p": p, "sep": set(&sep), "r1": rs, "r2": rb, "q1": qs, "q2": qb, "out": out})
    }
}
pub fn record_tests(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "tests");
    let reps = if deep { 10 } else { 1 };
    for k in 0..1200 * reps {
        log.ev(chi_event(&mut g, k % 8 == 7));
        log.ev(f_event(&mut g, k % 8 == 7));
    }
    for _ in 0..500 * reps {
        log.ev(call_event(&mut g, true));
        log.ev(call_event(&mut g, false));
    }
}

// ------------------------------------------------------------------ C18
/// fits that can be told apart: the residence time is the number of node and parent set
struct Tokens;
fn token(node: usize, ps: &Set) -> usize {
    node * 4096 + ps.iter().map(|p| 1usize << p).sum::<usize>()
}
impl ParameterLearning for Tokens {
    fn fit<T: NetworkProcess>(&self, net: &T, _: &Dataset, node: usize, ps: Option<Set>) -> Params {
        let mut r = net.get_node(node).clone();
        let ps = ps.unwrap_or_else(|| net.get_parent_set(node));
        match &mut r {
            Params::DiscreteStatesContinousTime(p) => p.set_residence_time(Array2::from_elem((1, 1), token(node, &ps) as f64)),
        }
        r
    }
}
/// the same for large networks: the residence times list the node and its parents
struct WideTokens;
impl ParameterLearning for WideTokens {
    fn fit<T: NetworkProcess>(&self, net: &T, _: &Dataset, node: usize, ps: Option<Set>) -> Params {
        let mut r = net.get_node(node).clone();
        let v: Vec<f64> = std::iter::once(node).chain(ps.unwrap().into_iter()).map(|x| x as f64).collect();
        match &mut r {
            Params::DiscreteStatesContinousTime(p) => p.set_residence_time(Array2::from_shape_vec((1, v.len()), v).unwrap()),
        }
        r
    }
}
fn wide_requests(log: &mut Log, g: &mut Gen, n: usize, count: usize, most: usize) {
    let net = mk_net(&vec![2; n], &[]);
    let ds = dummy_data(n);
    let mut cache = Cache::new(&WideTokens);
    let mut seen: Vec<(usize, Set)> = vec![];
    for _ in 0..count {
        let (node, ps) = if !seen.is_empty() && g.chance(1, 2) {
            // seen before, for another node, or with one parent moved by a power of two
            let (a, b) = g.pick(&seen).clone();
            match g.below(3) {
                0 => (a, b),
                1 => (g.below(n), b),
                _ => {
                    let d = 1 << g.below(9);
                    let k = g.below(b.len().max(1));
                    (a, b.iter().enumerate().map(|(i, p)| if i == k { (p + d) % n } else { *p }).collect())
                }
            }
        } else {
            let k = g.below(most + 1);
            (g.below(n), (0..k).map(|_| g.below(n)).collect())
        };
        seen.push((node, ps.clone()));
        let r = guard("cache", || cache.fit(&net, &ds, node, Some(ps.clone())));
        log.ev(match r {
            Ok(p) => json!({"e": "wide", "node": node, "ps": set(&ps), "label": p.get_label(),
                "got": inner(&p).get_residence_time().as_ref().map(|a| a.iter().map(|x| *x as i64).collect::<Vec<_>>()).unwrap_or(vec![])}),
            Err(e) => panic_ev(e),
        });
    }
}
fn request<P: ParameterLearning>(cache: &mut Cache<P>, net: &CtbnNetwork, ds: &Dataset, node: usize, ps: &Set) -> Value {
    match guard("cache", || cache.fit(net, ds, node, Some(ps.clone()))) {
        Ok(p) => json!({"e": "req", "node": node, "ps": set(ps), "label": p.get_label(),
            "got": inner(&p).get_residence_time().as_ref().map(|a| a[[0, 0]] as i64).unwrap_or(-1)}),
        Err(e) => panic_ev(e),
    }
}
pub fn replay_cache(log: &mut Log, input: &str) {
    for line in input.lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        let net = mk_net(&[2; 4], &[]);
        let ds = dummy_data(4);
        let mut cache = Cache::new(&Tokens);
        log.ev(json!({"e": "cache"}));
        for r in v["hist"].as_array().unwrap() {
            let ps: Set = r[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            log.ev(request(&mut cache, &net, &ds, r[0].as_u64().unwrap() as usize, &ps));
        }
    }
}
pub fn record_cache(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "cache");
    for _ in 0..(if deep { 1000 } else { 120 }) {
        let n = g.range(1, 7);
        let net = mk_net(&vec![2; n], &[]);
        let ds = dummy_data(n);
        let mut cache = Cache::new(&Tokens);
        log.ev(json!({"e": "cache"}));
        let mut seen: Vec<(usize, Set)> = vec![];
        for _ in 0..g.range(5, 60) {
            let (node, ps) = if !seen.is_empty() && g.chance(1, 2) {
                let (a, b) = g.pick(&seen).clone();
                if g.chance(1, 2) { (g.below(n), b) } else { (a, b) }
            } else {
                let d = g.range(0, 4);
                (g.below(n), g.subset(n, d, 4))
            };
            seen.push((node, ps.clone()));
            log.ev(request(&mut cache, &net, &ds, node, &ps));
        }
    }
    log.ev(json!({"e": "cache"}));
    for (n, count, most) in [(40, 1500, 3), (70, 1500, 2), (300, 800, 2), (20, 1500, 20), (3, 300, 3)] {
        wide_requests(log, &mut g, n, if deep { 4 * count } else { count }, most);
    }
    // tests with a cache that has been used before against a new one; fits on real data
    for _ in 0..(if deep { 40 } else { 8 }) {
        let (m, net, ds) = sampled(&mut g, vec![2, 2, 2, 2], 2, 8, 30.0);
        log.ev(json!({"e": "cache"}));
        let mut cache = Cache::new(&Mle);
        for _ in 0..30 {
            let c = g.below(4);
            let p = *g.pick(&others(4, c));
            let s: Set = others(4, c).into_iter().filter(|x| *x != p && g.chance(1, 2)).collect();
            let chi = g.chance(1, 2);
            // a test may fail on configurations never observed (see C17): then with any cache
            let out = |r: Result<bool, String>| r.map(|b| b as i64).unwrap_or(-1);
            let mut new = Cache::new(&Mle);
            let run = |k: &mut Cache<Mle>| guard("test", || {
                if chi { ChiSquare::new(0.05).call(&net, c, p, &s, &ds, k) } else { F::new(0.05).call(&net, c, p, &s, &ds, k) }
            });
            log.ev(json!({"e": "test", "used": out(run(&mut cache)), "fresh": out(run(&mut new))}));
            let r = guard("cache", || {
                let a = cache.fit(&net, &ds, c, Some(s.clone()));
                let b = MLE {}.fit(&net, &ds, c, Some(s.clone()));
                let (a, b) = (inner(&a), inner(&b));
                (format!("{:?}{:?}{:?}", a.get_cim(), a.get_transitions(), a.get_residence_time()),
                 format!("{:?}{:?}{:?}", b.get_cim(), b.get_transitions(), b.get_residence_time()))
            });
            log.ev(match r {
                Ok((a, b)) => json!({"e": "direct", "eq": a == b}),
                Err(e) => panic_ev(e),
            });
        }
        let _ = m;
    }
}

// ------------------------------------------------------------------ C24
/// a reward function that takes its time
struct Slow {
    rf: reward_function::FactoredRewardFunction,
    delay: u64,
    salt: u64,
}
impl RewardFunction for Slow {
    fn call(&self, c: &NetworkProcessState, p: Option<&NetworkProcessState>) -> Reward {
        if self.delay > 0 {
            spin(Gen::new(self.salt, &format!("{:?}", unstate(c))).next() % self.delay);
        }
        self.rf.call(c, p)
    }
    fn initialize_from_network_process<T: NetworkProcess>(p: &T) -> Self {
        Slow { rf: reward_function::FactoredRewardFunction::initialize_from_network_process(p), delay: 0, salt: 0 }
    }
}
fn in_pool<T: Send>(k: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap().install(f)
}
const POOLS: [usize; 7] = [1, 2, 3, 8, 4, 8, 24];

pub fn record_par(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "par");
    let reps = if deep { 8 } else { 1 };
    // hill climbing
    for ep in 0..14 * reps {
        let n = g.range(2, 6);
        let rank: Vec<Vec<i64>> = (0..n).map(|_| shuffled(&mut g, 1 << (n - 1))).collect();
        let cap = any_cap(&mut g, n);
        let runs: Vec<Value> = POOLS
            .iter()
            .enumerate()
            .map(|(k, w)| {
                let s = Ranks { rank: rank.clone(), scale: 1.0, offset: 0.0, delay: if k == 0 { 0 } else { 400 }, salt: g.next() };
                let net = mk_net(&vec![2; n], &[]);
                guard("hill climbing", || in_pool(*w, || pars(&HillClimbing::new(s, cap).fit_transform(net, &dummy_data(n)))))
                    .unwrap_or_else(|e| json!({"panic": e}))
            })
            .collect();
        // every node with its own scores and other ones for the rest
        let solo: Vec<Value> = (0..n)
            .map(|i| {
                let mut r: Vec<Vec<i64>> = (0..n).map(|_| shuffled(&mut g, 1 << (n - 1))).collect();
                r[i] = rank[i].clone();
                let s = Ranks { rank: r, scale: 1.0, offset: 0.0, delay: 200, salt: g.next() };
                let net = mk_net(&vec![2; n], &[]);
                guard("hill climbing", || in_pool(8, || set(&HillClimbing::new(s, cap).fit_transform(net, &dummy_data(n)).get_parent_set(i))))
                    .unwrap_or_else(|e| json!({"panic": e}))
            })
            .collect();
        log.ev(json!({"e": "par", "fine": runs.iter().all(|r| r.get("panic").is_none()), "kind": "hc", "ep": ep, "runs": runs, "solo": solo}));
    }
    // CTPC
    for ep in 0..8 * reps {
        let n = g.range(3, 4);
        let cards = rich(n, g.below(n));
        let o = random_oracle(&mut g, &cards, 4);
        let learn = |o: Oracle, w: usize| -> Result<CtbnNetwork, String> {
            let net = mk_net(&cards, &[]);
            guard("ctpc", || in_pool(w, || CTPC::new(o, F::new(0.05), ChiSquare::new(0.05)).fit_transform(net, &dummy_data(n))))
        };
        let runs: Vec<Value> = POOLS
            .iter()
            .enumerate()
            .map(|(k, w)| {
                let o2 = Oracle { delay: if k == 0 { 0 } else { 500 }, salt: g.next(), ..o.clone() };
                learn(o2, *w).map(|x| pars(&x)).unwrap_or_else(|e| json!({"panic": e}))
            })
            .collect();
        let solo: Vec<Value> = (0..n)
            .map(|i| {
                let mut o2 = random_oracle(&mut g, &cards, 4);
                o2.delay = 200;
                o2.salt = g.next();
                for (k, v) in &o.p {
                    if k.0 == i {
                        o2.p.insert(k.clone(), v.clone());
                    }
                }
                learn(o2, 8).map(|x| set(&x.get_parent_set(i))).unwrap_or_else(|e| json!({"panic": e}))
            })
            .collect();
        log.ev(json!({"e": "par", "fine": runs.iter().all(|r| r.get("panic").is_none()), "kind": "ctpc", "ep": ep, "runs": runs, "solo": solo}));
    }
    // many nodes
    for ep in 0..2 * reps {
        let n = if ep % 2 == 0 { 70 } else { 33 };
        let hc = ep % 2 == 0;
        let w = Weights::random(&mut g, n);
        let o = wide(&mut g, n);
        let learn = |k: usize, w2: Weights, o2: Wide| -> Result<CtbnNetwork, String> {
            let net = mk_net(&if hc { vec![2; n] } else { o.cards.clone() }, &[]);
            guard("learning", || in_pool(k, || {
                if hc { HillClimbing::new(w2, Some(3)).fit_transform(net, &dummy_data(n)) }
                else { CTPC::new(o2, F::new(0.05), ChiSquare::new(0.05)).fit_transform(net, &dummy_data(n)) }
            }))
        };
        let runs: Vec<Value> = POOLS
            .iter()
            .enumerate()
            .map(|(k, p)| {
                let d = if k == 0 { 0 } else { 20 + g.below(300) as u64 };
                learn(*p, Weights { delay: d, ..w.clone() }, Wide { delay: d, ..o.clone() }).map(|x| pars(&x)).unwrap_or_else(|e| json!({"panic": e}))
            })
            .collect();
        log.ev(json!({"e": "par", "fine": runs.iter().all(|r| r.get("panic").is_none()), "kind": "many", "ep": ep, "runs": runs, "solo": runs[0]}));
    }
    // sampled data, fitted parameters, scores and structures learned with the real scores and tests
    for ep in 0..6 * reps {
        let n = [3, 4, 5, 4, 6, 3][ep % 6];
        let cards: Vec<usize> = if ep % 2 == 0 { vec![2; n] } else { (0..n).map(|_| g.range(2, 3)).collect() };
        let edges = random_edges(&mut g, n, 2, 4, 2);
        let m = Model::fill(cards.clone(), edges, |_, _, _, _| *g.pick(&[2i64, 3, 5, 9, 20]));
        let sd = g.next();
        let cap = any_cap(&mut g, n);
        let job = || -> Vec<String> {
            let net = m.net(4.0);
            let ds = trajectory_generator(&net, 8, 25.0, Some(sd));
            let mut out = vec![format!("{:?}", ds.get_trajectories().iter().map(|t| (t.get_time().to_vec(), t.get_events().iter().map(|x| *x).collect::<Vec<_>>())).collect::<Vec<_>>())];
            for i in 0..n {
                let ba = BayesianApproach { alpha: 1, tau: 1.0 };
                for p in [MLE {}.fit(&net, &ds, i, None), ba.fit(&net, &ds, i, None)] {
                    let Params::DiscreteStatesContinousTime(p) = p;
                    out.push(format!("{:?} {:?} {:?}", p.get_cim(), p.get_transitions(), p.get_residence_time()));
                }
                let ps: Set = net.get_parent_set(i);
                out.push(format!("{:?} {:?}", BIC::new(1, 1.0).call(&net, i, &ps, &ds), LogLikelihood::new(2, 0.5).call(&net, i, &ps, &ds)));
            }
            out.push(pars(&HillClimbing::new(BIC::new(1, 1.0), cap).fit_transform(m.net(4.0), &ds)).to_string());
            if left_everywhere(&cards, &ds) && ep % 2 == 0 {
                let ba = BayesianApproach { alpha: 1, tau: 1.0 };
                out.push(pars(&CTPC::new(ba, F::new(0.01), ChiSquare::new(0.01)).fit_transform(m.net(4.0), &ds)).to_string());
            }
            let mut d = vec![];
            for x in out {
                // long texts by their number
                let mut h = 0xcbf29ce484222325u64;
                for b in x.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
                d.push(format!("{:x} {}", h, x.chars().take(40).collect::<String>()));
            }
            d
        };
        let runs: Vec<Value> = POOLS
            .iter()
            .map(|w| guard("learning", || in_pool(*w, || json!(job()))).unwrap_or_else(|e| json!({"panic": e})))
            .collect();
        log.ev(json!({"e": "par", "fine": runs.iter().all(|r| r.get("panic").is_none()), "kind": "real", "ep": ep, "runs": runs, "solo": runs[0]}));
    }
    // state-space evaluation, alone and relative to the neighbourhood
    for ep in 0..8 * reps {
        let cards: Vec<usize> = [vec![2, 2, 2], vec![3, 4], vec![2, 3, 2], vec![5]][ep % 4].clone();
        let edges = random_edges(&mut g, cards.len(), 1, 2, 2);
        let m = Model::fill(cards.clone(), edges, |_, _, _, _| g.range(1, 6) as i64);
        let net = m.net(2.0);
        let rf = Rf::random(&mut g, &cards, 1, 9);
        let sd = g.next();
        let relative = ep % 3 == 2;
        let mc = || MonteCarloReward::new(5, 0.5, 0.1, 1.0, RewardCriteria::FiniteHorizon, Some(sd));
        let bits = |r: HashMap<NetworkProcessState, f64>| -> Value {
            let mut v: Vec<(usize, u64)> =
                r.iter().map(|(k, x)| (index_of(&cards, &(0..cards.len()).collect(), &unstate(k)), x.to_bits())).collect();
            v.sort();
            json!(v.iter().map(|x| format!("{} {:x}", x.0, x.1)).collect::<Vec<_>>())
        };
        let runs: Vec<Value> = POOLS
            .iter()
            .enumerate()
            .map(|(k, w)| {
                let f = Slow { rf: rf.real(&net), delay: if k == 0 { 0 } else { 60 }, salt: g.next() };
                guard("evaluate_state_space", || in_pool(*w, || {
                    if relative { bits(NeighborhoodRelativeReward::new(mc()).evaluate_state_space(&net, &f)) }
                    else { bits(mc().evaluate_state_space(&net, &f)) }
                }))
                .unwrap_or_else(|e| json!({"panic": e}))
            })
            .collect();
        let solo = if relative { runs[0].clone() } else {
            let f = rf.real(&net);
            guard("evaluate_state", || json!((0..m.total())
                .map(|s| format!("{} {:x}", s, mc().evaluate_state(&net, &f, &state(&decode(&cards, s))).to_bits()))
                .collect::<Vec<_>>())).unwrap_or_else(|e| json!({"panic": e}))
        };
        log.ev(json!({"e": "par", "fine": runs.iter().all(|r| r.get("panic").is_none()), "kind": "space", "ep": ep, "runs": runs, "solo": solo}));
    }
}
