mod api;
mod enc;
mod engine;
mod gen;
mod model;
mod props;
mod sys;

use engine::*;
use std::path::PathBuf;

#[global_allocator]
static A: Tracking = Tracking;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: ncheck <property id> [--replay FILE]");
        std::process::exit(2);
    }
    let id = args[1].clone();
    let replay_file = args.iter().position(|a| a == "--replay").and_then(|i| args.get(i + 1).cloned());
    let verif = PathBuf::from(std::env::var("NCHECK_VERIF").unwrap_or_else(|_| "/verif".into()));
    let scratch = PathBuf::from(std::env::var("NCHECK_SCRATCH").expect("NCHECK_SCRATCH"));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let env = Env { verif, scratch, seed, thorough };
    let what = match &replay_file {
        Some(f) => props::What::Replay(f),
        None => props::What::Run,
    };
    match props::dispatch(&id, &env, what) {
        props::Done::Code(c) => std::process::exit(c),
        props::Done::Target(_) => unreachable!(),
    }
}
