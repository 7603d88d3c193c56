use crate::engine::*;

pub mod big;
pub mod disturb;
pub mod defs;
pub mod equal;
pub mod fault;
pub mod hist;
pub mod reader;
pub mod rw;

pub enum What<'a> {
    Run,
    Replay(&'a str),
    /// the function for coverage-guided fuzzing, over choices or over plain bytes
    Target(bool),
}

pub enum Done {
    Code(i32),
    Target(Box<dyn FnMut(&[u8]) -> bool>),
}

pub fn dispatch(id: &str, env: &Env, what: What) -> Done {
    macro_rules! d {
        ($($id:literal => $f:expr,)*) => {
            match id {
                $($id => {
                    let p = $f;
                    match what {
                        What::Replay(f) => Done::Code(replay(&p, env, f)),
                        What::Run => Done::Code(run(&p, env)),
                        What::Target(raw) => Done::Target(fuzz_target(p, &env.scratch, raw)),
                    }
                })*
                _ => { eprintln!("unknown property {}", id); Done::Code(2) }
            }
        };
    }
    d! {
        "C01" => rw::c01(),
        "C02" => rw::c02(),
        "C03" => reader::c03(),
        "C10" => reader::c10(),
        "C11" => reader::c11(),
        "C12" => reader::c12(),
        "C13" => reader::c13(),
        "C19" => reader::c19(),
        "C27" => reader::c27(),
        "C06" => defs::c06(),
        "C07" => defs::c07(),
        "C22" => defs::c22(),
        "C08" => defs::c08(),
        "C09" => defs::c09(),
        "C17" => defs::c17(),
        "C04" => hist::c04(),
        "C05" => hist::c05(),
        "C21" => hist::c21(),
        "C23" => hist::c23(),
        "C14" => big::c14(),
        "C15" => fault::c15(),
        "C24" => disturb::c24(),
        "C25" => equal::c25(),
        "C26" => disturb::c26(),
        "C16" => rw::c16(),
        "C18" => rw::c18(),
        "C20" => rw::c20(),
    }
}
