//! C04: which intensity arrays the checked setter and validation accept.
use crate::util::*;
use ndarray::Array3;
use reCTBN::params::*;
use serde_json::{json, Value};

type Ent = (u8, i64, i64);

fn num(e: &Ent, scale: f64) -> f64 {
    match e.0 {
        0 => e.1 as f64 * scale + e.2 as f64 * 1e-10,
        1 => f64::NAN,
        2 => f64::INFINITY,
        _ => f64::NEG_INFINITY,
    }
}

fn same(a: &Array3<f64>, b: &Array3<f64>) -> bool {
    a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
}

struct Holder {
    p: DiscreteStatesContinousTimeParams,
    given: Vec<Array3<f64>>,
}

impl Holder {
    fn new(card: usize) -> Holder {
        Holder {
            p: DiscreteStatesContinousTimeParams::new("x".into(), domain(card)),
            given: vec![],
        }
    }
    fn tok(&self) -> i64 {
        match self.p.get_cim() {
            None => 0,
            Some(c) => self.given.iter().rposition(|g| same(g, c)).map(|i| i as i64 + 1).unwrap_or(-1),
        }
    }
    fn validate(&self) -> String {
        // the verdict must be the same through the enum
        let a = ans(self.p.validate_params());
        let b = ans(Params::DiscreteStatesContinousTime(self.p.clone()).validate_params());
        if a == b {
            a
        } else {
            format!("{}/{}", a, b)
        }
    }
}

fn ans(r: Result<(), ParamsError>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(ParamsError::ParametersNotInitialized(_)) => "notinit".into(),
        Err(ParamsError::InvalidCIM(_)) => "invalid".into(),
        Err(e) => format!("{:?}", e),
    }
}

pub fn replay(log: &mut Log, input: &str) {
    for (ep, line) in input.lines().enumerate() {
        let t: Value = serde_json::from_str(line).unwrap();
        let card = t["card"].as_u64().unwrap() as usize;
        let arr = &t["arr"];
        let u = arr.as_array().unwrap().len();
        let m = a3(u, card, card, |i, x, y| {
            let e = &arr[i][x][y];
            num(&(e[0].as_u64().unwrap() as u8, e[1].as_i64().unwrap(), e[2].as_i64().unwrap()), 0.5)
        });
        let v = guard("cim", || {
            // checked, on an empty holder and on one that holds a valid array
            let mut h = Holder::new(card);
            h.given.push(m.clone());
            let out = ans(h.p.set_cim(lay3(m.clone(), ep)));
            let (tok, val) = (h.tok(), h.validate());
            let mut good = a3(1, card, card, |_, x, y| if x == y { 0.0 } else { 0.125 });
            close_rows(&mut good);
            let mut h2 = Holder::new(card);
            h2.given = vec![m.clone(), good.clone()];
            let pre = ans(h2.p.set_cim(good));
            let out2 = ans(h2.p.set_cim(lay3(m.clone(), ep / 5)));
            let (tok2, val2) = (h2.tok(), h2.validate());
            // unchecked, then validated
            let mut h3 = Holder::new(card);
            h3.given.push(m.clone());
            h3.p.set_cim_unchecked(lay3(m.clone(), ep));
            let (tok3, val3) = (h3.tok(), h3.validate());
            json!({"e": "cim", "out": out, "tok": tok, "val": val, "pre": pre, "out2": out2,
                   "tok2": tok2, "val2": val2, "tok3": tok3, "val3": val3})
        });
        log.ev(v.unwrap_or_else(|m| json!({"e": "cim", "panic": m})));
    }
}

pub fn record(log: &mut Log, seed: u64, deep: bool) {
    let mut g = Gen::new(seed, "cim");
    for ep in 0..(if deep { 3000 } else { 500 }) {
        let card = match ep % 4 {
            _ if ep % 25 == 7 => g.range(20, 70),
            0 => g.range(1, 3),
            1 => g.range(2, 4),
            2 => g.range(3, 6),
            _ => g.range(5, 13),
        };
        let mut h = Holder::new(card);
        log.ev(json!({"e": "new", "ep": ep}));
        for _ in 0..(if card > 6 { 4 } else { 8 }) {
            if g.chance(1, 10) {
                h.p.reset_params();
                let v = guard("reset", || json!({"e": "reset", "tok": h.tok(), "validate": h.validate()}));
                log.ev(v.unwrap_or_else(|m| json!({"e": "panic", "msg": m})));
                continue;
            }
            let (arr, m) = random_array(&mut g, card);
            h.given.push(m.clone());
            let id = h.given.len();
            let checked = g.chance(2, 3);
            let lay = g.below(5);
            let v = guard("set", || {
                let out = if checked {
                    ans(h.p.set_cim(lay3(m, lay)))
                } else {
                    h.p.set_cim_unchecked(lay3(m, lay));
                    "ok".into()
                };
                json!({"e": if checked {"set"} else {"unchecked"}, "id": id, "card": card, "arr": arr,
                       "out": out, "tok": h.tok(), "validate": h.validate()})
            });
            log.ev(v.unwrap_or_else(|m| json!({"e": "panic", "msg": m})));
        }
    }
}

/// An array that is valid, or valid but for one or two flaws at random places.
fn random_array(g: &mut Gen, card: usize) -> (Vec<Vec<Vec<Ent>>>, Array3<f64>) {
    let u = match g.below(4) {
        0 => 1,
        1 => 2,
        2 => g.range(1, 6),
        _ if card < 4 && g.chance(1, 12) => g.range(60, 300),
        _ => g.range(1, if card > 16 { 1 } else if card > 6 { 4 } else { 20 }),
    };
    let u = if card > 16 { 1 + u % 2 } else { u };
    // dyadic scale of every row; the 1e-10 part only where it is not absorbed by rounding
    let mut scales: Vec<Vec<i32>> = vec![];
    let mut arr: Vec<Vec<Vec<Ent>>> = vec![];
    for _ in 0..u {
        let mut mat = vec![];
        let mut sc = vec![];
        for x in 0..card {
            let e: i32 = match g.below(6) {
                0 => 0,
                1 => -10,
                2 => 20,
                3 => -20,
                4 => g.range(0, 30) as i32,
                _ => -(g.range(0, 20) as i32),
            };
            sc.push(e);
            let eps = e <= 0 && g.chance(1, 3);
            let mut row: Vec<Ent> = (0..card)
                .map(|_| {
                    let a = match g.below(5) {
                        0 => 0,
                        1 => 1,
                        _ => g.range(1, 900) as i64,
                    };
                    (0, a, if eps && a > 0 && g.chance(1, 3) { g.range(0, 8) as i64 } else { 0 })
                })
                .collect();
            let mut sa: i64 = (0..card).filter(|y| *y != x).map(|y| row[y].1).sum();
            let sb: i64 = (0..card).filter(|y| *y != x).map(|y| row[y].2).sum();
            if sa == 0 && card > 1 {
                row[(x + 1) % card].1 = 3;
                sa = 3;
            }
            row[x] = (0, -sa, -sb + if eps { g.below(60) as i64 - 30 } else { 0 });
            mat.push(row);
        }
        arr.push(mat);
        scales.push(sc);
    }
    // flaws
    if g.chance(3, 5) {
        for _ in 0..g.range(1, 2) {
            let (mut i, mut x, mut y) = (g.below(u), g.below(card), g.below(card));
            if g.chance(1, 4) {
                (i, x, y) = (u - 1, card - 1, if g.chance(1, 2) { card - 1 } else { y });
            }
            match g.below(13) {
                // off by 10^-3, which is much, although little compared with the entries
                12 if (1..=20).contains(&scales[i][x]) => arr[i][x][y].2 += if g.chance(1, 2) { 10_000_000 } else { -10_000_000 },
                0 => arr[i][x][y].0 = 1,
                1 => arr[i][x][y].0 = 2,
                2 => arr[i][x][y].0 = 3,
                3 => arr[i][x][y].1 += 1,
                4 => arr[i][x][y].1 -= 1,
                5 => arr[i][x][x].1 = 0,
                6 => arr[i][x][x].1 = -arr[i][x][x].1,
                7 if card > 2 && y != x => {
                    // a negative rate, the row still sums to zero
                    let z = (0..card).find(|z| *z != x && *z != y).unwrap();
                    arr[i][x][z].1 += arr[i][x][y].1 + 5;
                    arr[i][x][y].1 = -5;
                }
                8 if scales[i][x] <= 0 => arr[i][x][y].2 += 300,
                9 if scales[i][x] <= 0 => arr[i][x][y].2 -= 300,
                10 if scales[i][x] <= 0 && y != x => {
                    // a tiny negative rate
                    arr[i][x][x].1 += arr[i][x][y].1;
                    arr[i][x][y].1 = 0;
                    arr[i][x][y].2 = -20;
                }
                _ => {
                    // a row of zeros
                    for e in arr[i][x].iter_mut() {
                        *e = (0, 0, 0);
                    }
                }
            }
        }
    }
    // wrong shapes
    let (mut r, mut c) = (card, card);
    if card < 10 && g.chance(1, 12) {
        // any other shape (possibly with as many entries), with rows that would be fine
        let u = *g.pick(&[1, 2, 3, 17, 40]);
        (r, c) = match g.below(4) {
            0 => (1, card * card),
            1 if card % 2 == 0 => (card / 2, card * 2),
            2 => (card, g.range(1, 2 * card)),
            _ => (g.range(1, 2 * card), card),
        };
        if r == card && c == card {
            c += 1;
        }
        arr = (0..u)
            .map(|_| {
                (0..r)
                    .map(|x| (0..c).map(|y| (0, if y == x { -(c as i64 - 1) } else if x < c { 1 } else { 0 }, 0)).collect())
                    .collect()
            })
            .collect();
        scales = vec![vec![0; r]; u];
        let m = a3(u, r, c, |i, x, y| num(&arr[i][x][y], 1.0));
        return (arr, m);
    }
    if g.chance(1, 12) {
        match g.below(4) {
            0 => r += 1,
            1 => c += 1,
            2 if card > 1 => r -= 1,
            _ => {
                r += 1;
                c += 1
            }
        }
        for (i, m) in arr.iter_mut().enumerate() {
            m.resize(r, vec![(0, 1, 0); card]);
            scales[i].resize(r, 0);
            for row in m.iter_mut() {
                row.resize(c, (0, 0, 0));
            }
        }
    }
    let m = a3(u, r, c, |i, x, y| num(&arr[i][x][y], 2f64.powi(scales[i][x])));
    (arr, m)
}
