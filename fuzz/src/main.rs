//! libFuzzer target for every property: the modules of the harness, driven by libFuzzer's bytes.
//! NCHECK_FUZZ_ID names the property, NCHECK_FUZZ_RAW=1 takes the bytes as the file content.
#![no_main]
#![allow(dead_code)]
#[path = "../../harness/src/api.rs"]
mod api;
#[path = "../../harness/src/enc.rs"]
mod enc;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/props/mod.rs"]
mod props;
#[path = "../../harness/src/sys.rs"]
mod sys;

use libfuzzer_sys::{fuzz_target, Corpus};
use std::cell::RefCell;
use std::path::PathBuf;

#[global_allocator]
static A: engine::Tracking = engine::Tracking;

thread_local! {
    static TARGET: RefCell<Option<Box<dyn FnMut(&[u8]) -> bool>>> = const { RefCell::new(None) };
}

fn make() -> Box<dyn FnMut(&[u8]) -> bool> {
    let id = std::env::var("NCHECK_FUZZ_ID").expect("NCHECK_FUZZ_ID");
    let raw = std::env::var("NCHECK_FUZZ_RAW").map_or(false, |v| v == "1");
    let scratch = PathBuf::from(std::env::var("NCHECK_SCRATCH").expect("NCHECK_SCRATCH"));
    let env = engine::Env { verif: PathBuf::new(), scratch, seed: 1, thorough: true };
    // libfuzzer-sys ends the process on every panic: panics are judged by the check instead
    engine::quiet_panics();
    match props::dispatch(&id, &env, props::What::Target(raw)) {
        props::Done::Target(t) => t,
        props::Done::Code(_) => std::process::exit(2),
    }
}

fuzz_target!(|data: &[u8]| -> Corpus {
    TARGET.with(|t| {
        let mut t = t.borrow_mut();
        if (t.get_or_insert_with(make))(data) {
            Corpus::Keep
        } else {
            Corpus::Reject
        }
    })
});
