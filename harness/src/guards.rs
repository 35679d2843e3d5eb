//! C23: what is refused and what is kept.
use crate::learn::{random_oracle, Ranks};
use crate::util::*;
use ndarray::{Array1, Array2};
use rand_chacha::rand_core::SeedableRng;
use rand_chacha::ChaCha8Rng;
use reCTBN::params::*;
use reCTBN::process::{ctbn::CtbnNetwork, NetworkProcess};
use reCTBN::structure_learning::constraint_based_algorithm::*;
use reCTBN::structure_learning::hypothesis_test::*;
use reCTBN::structure_learning::score_based_algorithm::*;
use reCTBN::structure_learning::score_function::*;
use reCTBN::structure_learning::StructuralLearningAlgorithm;
use reCTBN::tools::*;
use serde_json::{json, Value};

fn traj(rows: usize, vars: usize, salt: usize) -> (Array1<f64>, Array2<usize>) {
    (
        lay1(Array1::from_shape_fn(rows, |i| i as f64 * 0.75 + salt as f64), salt + rows),
        lay2(Array2::from_shape_fn((rows, vars), |(i, j)| i * 31 + j * 7 + salt), salt + vars),
    )
}
fn same(t: &Trajectory, x: &(Array1<f64>, Array2<usize>)) -> bool {
    t.get_time() == &x.0 && t.get_events() == &x.1
}
/// special numbers by name
fn num(s: &str) -> f64 {
    match s {
        "-inf" => f64::NEG_INFINITY,
        "-1" => -1.0,
        "-tiny" => -f64::MIN_POSITIVE,
        "-eps" => -f64::EPSILON,
        "-0" => -0.0,
        "0" => 0.0,
        "tiny" => f64::MIN_POSITIVE,
        "half" => 0.5,
        "1-" => 1.0 - f64::EPSILON / 2.0,
        "1" => 1.0,
        "1+" => 1.0 + f64::EPSILON,
        "2" => 2.0,
        "big" => 1e3,
        "inf" => f64::INFINITY,
        "nan" => f64::NAN,
        x => x.parse().unwrap(),
    }
}
fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn run(t: &Value, g: &mut Gen) -> Value {
    // out 1: accepted, 0: refused; kept: stored unchanged, and usable
    let r: Result<bool, String> = match t["what"].as_str().unwrap() {
        "traj" => {
            let (nt, ns, nv) = (us(&t["x"][0]), us(&t["x"][1]), us(&t["x"][2]));
            let (x, y) = (traj(nt, nv, 1), traj(ns, nv, 1));
            guard("Trajectory", || same(&Trajectory::new(x.0.clone(), y.1.clone()), &(x.0.clone(), y.1.clone())))
        }
        "dataset" => {
            let v: Vec<usize> = t["x"].as_array().unwrap().iter().map(us).collect();
            let xs: Vec<_> = v.iter().enumerate().map(|(i, n)| traj(1 + g.below(4), *n, i)).collect();
            guard("Dataset", || {
                let d = Dataset::new(xs.iter().map(|x| Trajectory::new(x.0.clone(), x.1.clone())).collect());
                d.get_trajectories().len() == xs.len() && d.get_trajectories().iter().zip(&xs).all(|(a, b)| same(a, b))
            })
        }
        "density" => {
            let d = num(t["x"][0].as_str().unwrap());
            // refused when made, not when used
            let sd = g.next();
            guard("UniformGraphGenerator", || UniformGraphGenerator::new(d, Some(sd))).map(|mut gg| {
                guard("generate_graph", || {
                    let mut net = mk_net(&[2, 2, 2], &[]);
                    gg.generate_graph(&mut net);
                    net.get_number_of_nodes() == 3
                })
                .unwrap_or(false)
            })
        }
        "interval" => {
            let (a, b) = (num(t["x"][0].as_str().unwrap()), num(t["x"][1].as_str().unwrap()));
            let sd = g.next();
            guard("UniformParametersGenerator", || UniformParametersGenerator::new(a..b, Some(sd))).map(|mut pg| {
                guard("generate_parameters", || {
                    let mut net = mk_net(&[2, 3], &[(0, 1)]);
                    if a < b && b - a > 1e-3 {
                        pg.generate_parameters(&mut net);
                        net.get_node_indices().all(|i| par(&net, i).get_cim().is_some())
                    } else {
                        true
                    }
                })
                .unwrap_or(false)
            })
        }
        "tau" => {
            let tau = num(t["x"][0].as_str().unwrap());
            let bic = us(&t["x"][1]) == 1;
            let alpha = us(&t["x"][2]);
            guard("score", || {
                if bic { BIC::new(alpha, tau); } else { LogLikelihood::new(alpha, tau); }
                true
            })
        }
        "learner" => {
            let (nodes, vars, which) = (us(&t["x"][0]), us(&t["x"][1]), us(&t["x"][2]));
            let card = 2;
            let rows = 64;
            let mk = |salt: usize| {
                Trajectory::new(
                    Array1::from_shape_fn(rows, |i| i as f64),
                    Array2::from_shape_fn((rows, vars), |(i, j)| ((i * (2 * j + 3) + salt) >> j) % card),
                )
            };
            let ds = Dataset::new((0..1 + g.below(3)).map(mk).collect());
            let net = mk_net(&vec![card; nodes], &[]);
            let score = Ranks { rank: vec![(0..1i64 << (nodes - 1)).collect(); nodes], scale: 1.0, offset: 0.0, delay: 0, salt: 0 };
            let r = guard("learner", || {
                let o: CtbnNetwork = match which {
                    0 => HillClimbing::new(score, None).fit_transform(net, &ds),
                    1 => HillClimbing::new(LogLikelihood::new(1, 1.0), Some(2)).fit_transform(net, &ds),
                    _ => CTPC::new(random_oracle(g, &vec![card; nodes], 2), F::new(0.05), ChiSquare::new(0.05)).fit_transform(net, &ds),
                };
                o.get_number_of_nodes() == nodes
            });
            r
        }
        "params" => {
            // a node without intensities, or with them
            let (card, set, call) = (us(&t["x"][0]), us(&t["x"][1]), us(&t["x"][2]));
            let mut n = mk_node("x", card);
            let cim = a3(1, card, card, |_, a, b| if a == b { 1.0 - card as f64 } else { 1.0 });
            match &mut n {
                Params::DiscreteStatesContinousTime(p) => {
                    if set == 1 {
                        p.set_cim(cim.clone()).unwrap();
                    }
                    if set == 2 {
                        p.set_cim(cim.clone()).unwrap();
                        p.reset_params();
                    }
                    if set == 3 {
                        p.set_transitions(ndarray::Array3::zeros((1, card, card)));
                        p.set_residence_time(Array2::ones((1, card)));
                    }
                    if set == 4 {
                        let bad = a3(1, card, card, |_, _, _| 1.0);
                        let _ = p.set_cim(cim).and(p.set_cim(bad));
                    }
                }
            }
            let mut rng = ChaCha8Rng::seed_from_u64(g.next());
            let s = g.below(card);
            let out = guard("params", || match call {
                0 => match n.get_random_residence_time(s, 0, &mut rng) {
                    Ok(t) => (true, t > 0.0 && t.is_finite()),
                    Err(ParamsError::ParametersNotInitialized(_)) => (false, true),
                    Err(_) => (false, false),
                },
                1 => match n.get_random_state(s, 0, &mut rng) {
                    Ok(StateType::Discrete(x)) => (true, x < card && x != s),
                    Err(ParamsError::ParametersNotInitialized(_)) => (false, true),
                    Err(_) => (false, false),
                },
                _ => match n.validate_params() {
                    Ok(()) => (true, true),
                    Err(ParamsError::ParametersNotInitialized(_)) => (false, true),
                    Err(_) => (false, false),
                },
            });
            // here a refusal is an error, not a panic
            return match out {
                Ok((a, k)) => json!({"e": "guard", "what": "params", "x": t["x"], "out": a as u8, "kept": k}),
                Err(e) => json!({"e": "panic", "msg": e}),
            };
        }
        w => panic!("{}", w),
    };
    json!({"e": "guard", "what": t["what"], "x": t["x"], "out": r.is_ok() as u8, "kept": r.unwrap_or(true)})
}
pub fn replay(log: &mut Log, input: &str) {
    let mut g = Gen::new(3, "guards");
    for l in input.lines() {
        let t: Value = serde_json::from_str(l).unwrap();
        log.ev(run(&t, &mut g));
    }
}
