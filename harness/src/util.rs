//! Shared plumbing: event log, deterministic generator, panic capture, watchdog, encodings.
use ndarray::{s, Array1, Array2, Array3, Axis, ShapeBuilder};
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess, NetworkProcessState};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- generator
/// SplitMix64: the choices of the drivers never depend on the crates under test.
#[derive(Clone)]
pub struct Gen(pub u64);
impl Gen {
    pub fn new(seed: u64, salt: &str) -> Gen {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut g = Gen(h);
        g.next();
        g
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn subset(&mut self, n: usize, num: usize, den: usize) -> BTreeSet<usize> {
        (0..n).filter(|_| self.chance(num, den)).collect()
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

// ---------------------------------------------------------------- event log
pub struct Log {
    w: BufWriter<File>,
    pub counts: BTreeMap<String, u64>,
}
impl Log {
    pub fn create(path: &str) -> Log {
        Log {
            w: BufWriter::with_capacity(1 << 20, File::create(path).expect("create trace")),
            counts: BTreeMap::new(),
        }
    }
    pub fn ev(&mut self, v: Value) {
        let k = v["e"].as_str().unwrap_or("?").to_string();
        *self.counts.entry(k).or_insert(0) += 1;
        serde_json::to_writer(&mut self.w, &v).unwrap();
        self.w.write_all(b"\n").unwrap();
    }
    pub fn close(mut self) {
        self.w.flush().unwrap();
        println!("COUNTS {}", serde_json::to_string(&self.counts).unwrap());
    }
    pub fn flush(&mut self) {
        self.w.flush().unwrap();
    }
}

// ---------------------------------------------------------------- panics are data
thread_local!(static LAST_PANIC: Cell<Option<String>> = Cell::new(None));
/// a logger that wants everything, formats it and throws it away
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        struct Null;
        impl Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = Null.write_fmt(*r.args());
    }
    fn flush(&self) {}
}
pub fn log_everything() {
    static SINK: Sink = Sink;
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Trace);
}
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or(i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if OP.lock().map(|o| o.is_none()).unwrap_or(false) {
            eprintln!("PANIC outside of the guarded code: {} {:?}", m, i.location().map(|l| l.to_string()));
        }
        LAST_PANIC.with(|c| c.set(Some(m)));
    }));
}
/// Runs code under test; a panic becomes Err(message).
pub fn guard<T>(label: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    op_begin(label);
    let r = catch_unwind(AssertUnwindSafe(f));
    op_end();
    r.map_err(|_| LAST_PANIC.with(|c| c.take()).unwrap_or_else(|| "panic".into()))
}

// ---------------------------------------------------------------- watchdog
static OP: Mutex<Option<(Instant, String)>> = Mutex::new(None);
pub static OP_LIMIT_S: AtomicU64 = AtomicU64::new(90);
fn op_begin(label: &str) {
    *OP.lock().unwrap() = Some((Instant::now(), label.to_string()));
}
fn op_end() {
    *OP.lock().unwrap() = None;
}
pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(250));
        if let Some((t, l)) = &*OP.lock().unwrap() {
            if t.elapsed().as_secs() >= OP_LIMIT_S.load(Ordering::Relaxed) {
                eprintln!("HANG {}", l);
                std::process::exit(97);
            }
        }
    });
}

// ---------------------------------------------------------------- encodings
pub const BIG: i64 = 2_000_000_000;
pub const NAN: i64 = 2_100_000_000;
pub const OFFGRID: i64 = 2_100_000_001;
/// x * scale rounded to nearest, clipped to +-BIG; NaN has its own token.
pub fn q(x: f64, scale: f64) -> i64 {
    if x.is_nan() {
        return NAN;
    }
    let y = x * scale;
    if y >= BIG as f64 {
        BIG
    } else if y <= -(BIG as f64) {
        -BIG
    } else {
        y.round() as i64
    }
}
/// Exact multiple of 1/scale (scale a power of two), or OFFGRID.
pub fn exact(x: f64, scale: f64) -> i64 {
    let y = x * scale;
    if y.is_nan() || y.abs() >= BIG as f64 || y.fract() != 0.0 {
        OFFGRID
    } else {
        y as i64
    }
}

// ---------------------------------------------------------------- networks
pub fn domain(card: usize) -> BTreeSet<String> {
    (0..card).map(|i| format!("v{:05}", i)).collect()
}
pub fn mk_node(label: &str, card: usize) -> Params {
    Params::DiscreteStatesContinousTime(DiscreteStatesContinousTimeParams::new(
        label.to_string(),
        domain(card),
    ))
}
pub fn par<T: NetworkProcess>(net: &T, n: usize) -> &DiscreteStatesContinousTimeParams {
    match net.get_node(n) {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}
pub fn par_mut<T: NetworkProcess>(net: &mut T, n: usize) -> &mut DiscreteStatesContinousTimeParams {
    match net.get_node_mut(n) {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}
pub fn inner(p: &Params) -> &DiscreteStatesContinousTimeParams {
    match p {
        Params::DiscreteStatesContinousTime(p) => p,
    }
}
/// A network with the given cardinalities and edges (structure initialised).
pub fn mk_net(cards: &[usize], edges: &[(usize, usize)]) -> CtbnNetwork {
    let mut net = CtbnNetwork::new();
    for (i, c) in cards.iter().enumerate() {
        net.add_node(mk_node(&format!("n{}", i), *c)).unwrap();
    }
    net.initialize_adj_matrix();
    for (p, c) in edges {
        net.add_edge(*p, *c);
    }
    net
}
pub fn parents_of(edges: &[(usize, usize)], n: usize) -> BTreeSet<usize> {
    edges.iter().filter(|e| e.1 == n).map(|e| e.0).collect()
}
pub fn n_configs(cards: &[usize], ps: &BTreeSet<usize>) -> usize {
    ps.iter().map(|p| cards[*p]).product()
}
/// own mixed-radix index, used only to fill inputs
pub fn index_of(cards: &[usize], ps: &BTreeSet<usize>, st: &[usize]) -> usize {
    let mut m = 1;
    let mut r = 0;
    for p in ps {
        r += st[*p] * m;
        m *= cards[*p];
    }
    r
}
pub fn state(v: &[usize]) -> NetworkProcessState {
    v.iter().map(|x| StateType::Discrete(*x)).collect()
}
pub fn unstate(v: &NetworkProcessState) -> Vec<usize> {
    v.iter()
        .map(|x| match x {
            StateType::Discrete(x) => *x,
        })
        .collect()
}
pub fn decode(cards: &[usize], mut i: usize) -> Vec<usize> {
    cards
        .iter()
        .map(|c| {
            let r = i % c;
            i /= c;
            r
        })
        .collect()
}
pub fn set(s: &BTreeSet<usize>) -> Value {
    json!(s.iter().collect::<Vec<_>>())
}
pub fn random_edges(g: &mut Gen, n: usize, num: usize, den: usize, max_par: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for c in 0..n {
        let mut k = 0;
        let mut ps: Vec<usize> = (0..n).filter(|p| *p != c).collect();
        // visit candidate parents in random order
        for i in (1..ps.len()).rev() {
            ps.swap(i, g.below(i + 1));
        }
        for p in ps {
            if k < max_par && g.chance(num, den) {
                v.push((p, c));
                k += 1;
            }
        }
    }
    v
}
pub fn a3<T: Clone>(u: usize, a: usize, b: usize, mut f: impl FnMut(usize, usize, usize) -> T) -> Array3<T> {
    Array3::from_shape_fn((u, a, b), |(u, a, b)| f(u, a, b))
}
pub fn a3j<T: Clone>(a: &Array3<T>, mut f: impl FnMut(&T) -> i64) -> Value {
    json!(a
        .outer_iter()
        .map(|m| m
            .outer_iter()
            .map(|r| r.iter().map(|x| f(x)).collect::<Vec<i64>>())
            .collect::<Vec<_>>())
        .collect::<Vec<_>>())
}
pub fn a2j<T: Clone>(a: &Array2<T>, mut f: impl FnMut(&T) -> i64) -> Value {
    json!(a
        .outer_iter()
        .map(|r| r.iter().map(|x| f(x)).collect::<Vec<i64>>())
        .collect::<Vec<_>>())
}
pub fn a1j(a: &Array1<usize>) -> Value {
    json!(a.iter().collect::<Vec<_>>())
}
/// Fills the diagonal with minus the sum of the other entries of the row.
pub fn close_rows(c: &mut Array3<f64>) {
    let (u, n, _) = c.dim();
    for i in 0..u {
        for x in 0..n {
            let s: f64 = (0..n).filter(|y| *y != x).map(|y| c[[i, x, y]]).sum();
            c[[i, x, x]] = -s;
        }
    }
}
/// v as <<i, milli, micro, nano>> (see Fix.tla); [] when not a finite number in range
pub fn limbs(v: f64) -> Value {
    if !v.is_finite() || v.abs() >= 2e9 {
        return json!([]);
    }
    let ip = v.floor();
    let mut i = ip as i64;
    let mut f = ((v - ip) * 1e9).round() as i64;
    if f >= 1_000_000_000 {
        i += 1;
        f -= 1_000_000_000;
    }
    json!([i, f / 1_000_000, f / 1000 % 1000, f % 1000])
}
/// The same array in another memory layout: by rows, by columns, backwards, with gaps.
pub fn lay3<T: Clone + Default>(a: Array3<T>, k: usize) -> Array3<T> {
    let (u, x, y) = a.dim();
    match k % 5 {
        0 => a,
        1 => Array3::from_shape_fn((u, x, y).f(), |i| a[i].clone()),
        2 => {
            let mut b = Array3::from_shape_fn((u, x, y), |(i, j, k)| a[[u - 1 - i, j, k]].clone());
            b.invert_axis(Axis(0));
            b
        }
        3 => Array3::from_shape_fn((u, x, 2 * y), |(i, j, k)| if k % 2 == 0 { a[[i, j, k / 2]].clone() } else { T::default() })
            .slice_move(s![.., .., ..;2]),
        _ => {
            let mut b = Array3::from_shape_fn((y, x, u), |(k, j, i)| a[[i, j, y - 1 - k]].clone());
            b.invert_axis(Axis(0));
            b.reversed_axes()
        }
    }
}
pub fn lay2<T: Clone + Default>(a: Array2<T>, k: usize) -> Array2<T> {
    let (x, y) = a.dim();
    match k % 5 {
        0 => a,
        1 => Array2::from_shape_fn((x, y).f(), |i| a[i].clone()),
        2 => {
            let mut b = Array2::from_shape_fn((x, y), |(i, j)| a[[x - 1 - i, j]].clone());
            b.invert_axis(Axis(0));
            b
        }
        3 => Array2::from_shape_fn((2 * x, y + 1), |(i, j)| if i % 2 == 0 && j < y { a[[i / 2, j]].clone() } else { T::default() })
            .slice_move(s![..;2, ..y]),
        _ => {
            let mut b = Array2::from_shape_fn((y, x), |(j, i)| a[[i, y - 1 - j]].clone());
            b.invert_axis(Axis(0));
            b.reversed_axes()
        }
    }
}
pub fn lay1<T: Clone + Default>(a: Array1<T>, k: usize) -> Array1<T> {
    let n = a.len();
    match k % 3 {
        0 => a,
        1 => {
            let mut b = Array1::from_shape_fn(n, |i| a[n - 1 - i].clone());
            b.invert_axis(Axis(0));
            b
        }
        _ => Array1::from_shape_fn(2 * n, |i| if i % 2 == 0 { a[i / 2].clone() } else { T::default() }).slice_move(s![..;2]),
    }
}
