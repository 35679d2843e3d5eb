#![allow(non_snake_case)]
mod cim;
mod ctmp;
mod amalg;
mod sampler;
mod gener;
mod learn;
mod reward;
mod stats;
mod streams;
mod guards;
mod net;
mod util;

use util::*;

/// harness record <suite> <seed> <tier> <out.ndjson>   run the drivers of a suite, log events
/// harness replay <suite> <in.json> <out.ndjson>       run behaviours generated by TLC
fn main() {
    silence_panics();
    start_watchdog();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "record" => {
            let seed: u64 = a[3].parse().unwrap();
            let deep = a[4] == "thorough";
            let mut log = Log::create(&a[5]);
            match a[2].as_str() {
                "rf" => reward::record_rf(&mut log, seed, deep),
                "mc" => reward::record_mc(&mut log, seed, deep),
                "space" => reward::record_space(&mut log, seed, deep),
                "hc" => learn::record_hc(&mut log, seed, deep),
                "ctpc" => learn::record_ctpc(&mut log, seed, deep),
                "tests" => learn::record_tests(&mut log, seed, deep),
                "cache" => learn::record_cache(&mut log, seed, deep),
                "par" => learn::record_par(&mut log, seed, deep),
                "streams" => streams::record(&mut log, seed, deep),
                "net" => net::record(&mut log, seed, deep),
                "stats" => stats::record(&mut log, seed, deep),
                "gener" => gener::record(&mut log, seed, deep),
                "sampler" => sampler::record(&mut log, seed, deep),
                "amalg" => amalg::record(&mut log, seed, deep),
                "cim" => cim::record(&mut log, seed, deep),
                "ctmp" => ctmp::record(&mut log, seed, deep),
                s => panic!("unknown suite {}", s),
            }
            log.close();
        }
        "replay" => {
            let input = std::fs::read_to_string(&a[3]).unwrap();
            let mut log = Log::create(&a[4]);
            match a[2].as_str() {
                "rf" => reward::replay(&mut log, &input),
                "hc" => learn::replay_hc(&mut log, &input),
                "ctpc" => learn::replay_ctpc(&mut log, &input),
                "cache" => learn::replay_cache(&mut log, &input),
                "net" => net::replay(&mut log, &input),
                "guards" => guards::replay(&mut log, &input),
                "gener" => gener::replay(&mut log, &input),
                "streams" => streams::replay(&mut log, &input),
                "stats" => stats::replay(&mut log, &input),
                "cim" => cim::replay(&mut log, &input),
                "ctmp" => ctmp::replay(&mut log, &input),
                s => panic!("unknown suite {}", s),
            }
            log.close();
        }
        s => panic!("unknown mode {}", s),
    }
}
