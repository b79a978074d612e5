#![allow(clippy::all)]
use rand::prelude::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

#[macro_use]
pub mod util;
mod fam_catchup;
mod fam_cch;
mod fam_core;
mod fam_detour;
mod fam_ds;
mod fam_graph;
mod fam_io;
mod fam_td;
mod fam_many;
mod fam_pot;
mod fam_server;
mod fam_sp;
mod fam_report;
mod fam_speed;
mod fam_plf;
mod fam_tdpot;

use util::*;

static STARTED: AtomicU64 = AtomicU64::new(0);
static CUR: AtomicU64 = AtomicU64::new(u64::MAX);

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let fam = a[1].clone();
    let seed: u64 = arg(&a, "--seed").unwrap_or("1".into()).parse().unwrap();
    if fam == "report-child" {
        std::panic::set_hook(Box::new(|_| {}));
        return fam_report::child(seed);
    }
    let out = arg(&a, "--out").unwrap();
    let count: u64 = arg(&a, "--count").unwrap_or("10".into()).parse().unwrap();
    let shard: u64 = arg(&a, "--shard").unwrap_or("0".into()).parse().unwrap();
    let shards: u64 = arg(&a, "--shards").unwrap_or("1".into()).parse().unwrap();
    let thorough = arg(&a, "--tier").map(|t| t == "thorough").unwrap_or(false);
    let only: Option<u64> = arg(&a, "--only").map(|x| x.parse().unwrap());
    let input: Option<Vec<String>> = arg(&a, "--input").map(|p| std::fs::read_to_string(p).unwrap().lines().map(|x| x.to_string()).collect());
    let limit_ms: u64 = arg(&a, "--limit").unwrap_or("60".into()).parse::<u64>().unwrap() * 1000;
    let budget_ms: u64 = arg(&a, "--budget").unwrap_or("100000".into()).parse::<u64>().unwrap() * 1000;

    if std::env::var("HARNESS_PANICS").is_err() {
        if std::env::var("HARNESS_BT").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    let out2 = out.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && now() > s + limit_ms {
            println!("HANG {} {}", CUR.load(Ordering::SeqCst), out2);
            std::process::exit(3);
        }
    });
    let begin = now();
    let mut done = 0;
    let mut ep = shard;
    while ep < count {
        if only.is_none() || only == Some(ep) {
            CUR.store(ep, Ordering::SeqCst);
            std::fs::write(format!("{}.cur", out), format!("{}", ep)).unwrap();
            STARTED.store(now(), Ordering::SeqCst);
            let mut r = StdRng::seed_from_u64(seed.wrapping_mul(1_000_003).wrapping_add(ep).wrapping_mul(31).wrapping_add(fam.bytes().map(|b| b as u64).sum()));
            let mut e = Ep::new();
            // a panic in the harness itself (outside Ep::guard) aborts the shard: tool error
            match fam.as_str() {
                "sp" => fam_sp::run(&mut e, &mut r, ep, thorough),
                "pot" => fam_pot::run(&mut e, &mut r, ep, thorough),
                "bidir" => fam_sp::run_bidir(&mut e, &mut r, ep, thorough),
                "cch" => fam_cch::run_build(&mut e, &mut r, ep, thorough),
                "cust" => fam_cch::run_cust(&mut e, &mut r, ep, thorough),
                "perfect" => fam_cch::run_perfect(&mut e, &mut r, ep, thorough),
                "ch" => fam_many::run_ch(&mut e, &mut r, ep, thorough),
                "many" => fam_many::run_many(&mut e, &mut r, ep, thorough),
                "knn" => fam_many::run_knn(&mut e, &mut r, ep, thorough),
                "pq" => match &input {
                    Some(v) => fam_ds::run_pq_input(&mut e, &v[ep as usize]),
                    None => fam_ds::run_pq(&mut e, &mut r, ep, thorough),
                },
                "cont" => fam_ds::run_cont(&mut e, &mut r, ep, thorough),
                "idmap" => fam_ds::run_idmap(&mut e, &mut r, ep, thorough),
                "tdeval" => fam_td::run_eval(&mut e, &mut r, ep, thorough),
                "tdpot" => fam_tdpot::run(&mut e, &mut r, ep, thorough),
                "catchup" => fam_catchup::run(&mut e, &mut r, ep, thorough),
                "plf" => fam_plf::run(&mut e, &mut r, ep, thorough),
                "tdq" => fam_td::run_query(&mut e, &mut r, ep, thorough),
                "repr" => fam_graph::run_repr(&mut e, &mut r, ep, thorough),
                "io" => fam_io::run_io(&mut e, &mut r, ep, thorough),
                "turns" => fam_graph::run_turns(&mut e, &mut r, ep, thorough),
                "speed" => fam_speed::run(&mut e, &mut r, ep, thorough),
                "core" => fam_core::run(&mut e, &mut r, ep, thorough),
                "report" => match &input {
                    Some(v) => fam_report::run_input(&mut e, &v[ep as usize]),
                    None => fam_report::run(&mut e, &mut r, ep, thorough),
                },
                "detour" => fam_detour::run(&mut e, &mut r, ep, thorough),
                "server" => fam_server::run(&mut e, &mut r, ep, thorough),
                "cchq" => fam_cch::run_query(&mut e, &mut r, ep, thorough),
                _ => panic!("unknown family"),
            }
            STARTED.store(0, Ordering::SeqCst);
            let mut o = serde_json::Map::new();
            o.insert("fam".into(), fam.clone().into());
            o.insert("id".into(), ep.into());
            o.extend(e.head);
            o.insert("events".into(), serde_json::Value::Array(e.events));
            writeln!(f, "{}", serde_json::Value::Object(o)).unwrap();
            done += 1;
        }
        if now() > begin + budget_ms {
            break;
        }
        ep += shards;
    }
    f.flush().unwrap();
    drop(f);
    std::fs::remove_file(format!("{}.cur", out)).ok();
    println!("DONE {}", done);
}
