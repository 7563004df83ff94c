#![allow(clippy::too_many_arguments)]
mod ctx;
mod clock;
mod entropy;
mod heap;
mod props;
mod sched;
mod spec;

use std::collections::HashSet;
use std::sync::atomic::AtomicU64;
use std::sync::Mutex;
use std::time::Instant;

#[global_allocator]
static HEAP: heap::Heap = heap::Heap;

fn main() {
    // capturing a backtrace for every rejected input would dominate the exploration
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: mc <ID> [--tier quick|thorough] [--replay FILE]");
        std::process::exit(2);
    }
    let id = args[1].clone();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut replay = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = args[i + 1].clone();
                i += 1;
            }
            "--replay" => {
                let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
                if let Some(t) = v["tier"].as_str() {
                    tier = t.to_string();
                }
                let set: HashSet<String> = v["cases"]
                    .as_array()
                    .expect("cases")
                    .iter()
                    .map(|c| c["case"].as_str().unwrap().to_string())
                    .collect();
                replay = Some(set);
                i += 1;
            }
            other => {
                eprintln!("unknown argument {other}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let root = std::path::PathBuf::from(
        std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()),
    );
    // known findings that are not repaired: "known: property=<id> <case label>"
    let known = std::fs::read_to_string(root.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect();
    let ctx = ctx::Ctx {
        id: id.clone(),
        thorough: tier == "thorough",
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        root,
        start: Instant::now(),
        replay,
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        bad: AtomicU64::new(0),
        states: Mutex::new(HashSet::new()),
        violations: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        sections: Mutex::new(vec![]),
        known,
        known_hit: Mutex::new(HashSet::new()),
        notes: Mutex::new(vec![]),
    };
    let ctx: &'static ctx::Ctx = Box::leak(Box::new(ctx));
    ctx::install(ctx);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(ctx)));
    match r {
        Ok(true) => std::process::exit(ctx.finish(true)),
        Ok(false) => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
        Err(_) => {
            ctx.setup_failed();
            std::process::exit(ctx.finish(false))
        }
    }
}
