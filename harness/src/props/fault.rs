//! C15: write faults. Every byte limit (device full), every single refused or shortened write call.
//!
//! Two injectors: a thread-local plan in front of the system calls of this process (see sys.rs), and the operating system itself through RLIMIT_FSIZE (process-wide, so exclusive).
//! The oracle does not depend on how the bytes get written: if every call of the writer returned
//! Ok, the file must be complete and exact.
use crate::api::*;
use crate::enc;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::sys::*;
use crate::props::hist::{apply_w, fills, h_op, resolve, HOp, W};
use crate::ensure;
use netcdf3::{DataSet, FileWriter, WriteError};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::sync::RwLock;

/// RLIMIT_FSIZE concerns all threads.
static FSIZE: RwLock<()> = RwLock::new(());

struct Fsize(libc::rlimit);

impl Fsize {
    fn set(l: u64) -> Fsize {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut old: libc::rlimit = std::mem::zeroed();
            assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old), 0);
            let new = libc::rlimit { rlim_cur: l, rlim_max: old.rlim_max };
            assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
            Fsize(old)
        }
    }
}

impl Drop for Fsize {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &self.0);
        }
    }
}

// ------------------------------------------------------------------ the history

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C15 {
    f: FileCase,
    ops: Vec<HOp>,
    /// after a failed call: stop, or go on with the other calls
    go_on: bool,
    /// 0 interposed byte limits, 1 interposed call faults, 2 RLIMIT_FSIZE, 3 /dev/full
    mode: u8,
    seed: u32,
    /// a failed data write is repeated once
    #[serde(default)]
    retry: bool,
}

/// What came of the calls.
struct Out {
    errs: Vec<(String, WriteError)>,
    defined: bool,
    closed: bool,
    /// of every data write: failed, and succeeded in the end
    writes: Vec<(bool, bool)>,
}

/// Runs every call.
fn history(p: &Path, c: &C15, real: &DataSet, ws: &[W]) -> Out {
    let mut o = Out { errs: vec![], defined: false, closed: false, writes: vec![] };
    let mut w = match FileWriter::open(p) {
        Ok(w) => w,
        Err(e) => {
            o.errs.push(("open".into(), e));
            return o;
        }
    };
    match w.set_def(real, ver(c.f.version), c.f.min()) {
        Ok(()) => o.defined = true,
        Err(e) => {
            o.errs.push(("set_def".into(), e));
            if !c.go_on {
                return o;
            }
        }
    }
    for x in ws {
        let n = &c.f.ds.vars[x.v].name;
        let mut call = || match x.r {
            None => write_var(&mut w, n, &x.x),
            Some(r) => write_record(&mut w, n, r, &x.x),
        };
        let first = call();
        let failed = first.is_err();
        let mut good = !failed;
        if let Err(e) = first {
            o.errs.push((format!("{}({:?},{:?})", if x.r.is_some() { "write_record" } else { "write_var" }, n, x.r), e));
            if c.retry {
                match call() {
                    Ok(()) => good = true,
                    Err(e) => o.errs.push((format!("repeated write to {:?}", n), e)),
                }
            }
        }
        o.writes.push((failed, good));
        if !good && !c.go_on {
            return o;
        }
    }
    match w.close() {
        Ok(()) => o.closed = true,
        Err(e) => o.errs.push(("close".into(), e)),
    }
    o
}

/// After failed data writes, with the definition and the closing successful: only what
/// the failed calls were to write, and what nobody wrote successfully later, may be wrong.
fn damage(p: &Path, c: &C15, ws: &[W], o: &Out, what: &str, cx: &mut Cx) -> Chk {
    if !o.defined || !o.closed || o.writes.len() != ws.len() || o.errs.is_empty() {
        return Ok(());
    }
    let ds = &c.f.ds;
    let mut data = fills(ds);
    let mut bad = std::collections::BTreeSet::new();
    for (w, (failed, good)) in ws.iter().zip(&o.writes) {
        let recs = match w.r {
            Some(r) => r..r + 1,
            None => 0..ds.nrec(&ds.vars[w.v]),
        };
        for r in recs {
            if *good {
                bad.remove(&(w.v, r));
            } else if *failed {
                bad.insert((w.v, r));
            }
        }
        if *good {
            apply_w(ds, &mut data, w);
        }
    }
    let mut exp = enc::canonical_file(ds, c.f.version, c.f.min(), &data);
    let mut got = std::fs::read(p).map_err(|e| e.to_string())?;
    let l = enc::canonical_layout(ds, c.f.version, c.f.min());
    let packed = ds.packed();
    let mut bad: Vec<(usize, usize)> = bad.into_iter().collect();
    bad.sort_by_key(|(v, r)| std::cmp::Reverse(enc::chunk_pos(ds, &l, *v, *r)));
    for (v, r) in &bad {
        let var = &ds.vars[*v];
        let raw = ds.chunk_len(var) * var.ty.size();
        let n = if ds.is_rec(var) && packed { raw } else { raw + enc::pad4(raw) };
        let s = enc::chunk_pos(ds, &l, *v, *r);
        if s + n >= exp.len() {
            // the end of the file belongs to the failed call
            exp.truncate(s);
            ensure!(got.len() <= s + n, "{}: the file is too long", what);
            got.truncate(s.min(got.len()));
            continue;
        }
        for f in [&mut exp, &mut got] {
            let k = f.len();
            f[s.min(k)..(s + n).min(k)].fill(0);
        }
    }
    cx.label_if(bad.is_empty(), "every failed write repeated: exact file");
    cx.label_if(!bad.is_empty(), "failed writes not repeated: the rest of the file exact");
    let who: Vec<&String> = o.errs.iter().map(|e| &e.0).collect();
    bytes_same(&got, &exp).map_err(|m| format!("{}: {:?} failed, set_def and close did not, but beside what the failed calls were to write {}", what, who, m))
}

/// The kind of error the planned fault gives, where there is exactly one.
fn kind(p: Plan) -> Option<std::io::ErrorKind> {
    let e = match p {
        Plan::Limit(_) => libc::ENOSPC,
        Plan::Nth(_, e) | Plan::From(_, e) | Plan::HalfThenFail(_, e) | Plan::SeekFail(_, e) => e,
        Plan::Zero(_) => return Some(std::io::ErrorKind::WriteZero),
        _ => return None,
    };
    Some(std::io::Error::from_raw_os_error(e).kind())
}

/// The first error is that of the operating system.
fn same_kind(o: &Out, p: Plan, what: &str) -> Chk {
    if let (Some((n, WriteError::IOErrorKind(k))), Some(exp)) = (o.errs.first(), kind(p)) {
        ensure!(*k == exp, "{}: {} returned the I/O error {:?} instead of {:?}", what, n, k, exp);
    }
    Ok(())
}

fn judge(p: &Path, o: &Out, exp: &[u8], what: &str, must_fail: bool, must_pass: bool) -> Chk {
    // what the calls after a failed set_def return is left open
    for (n, e) in o.errs.iter().take(if o.defined { usize::MAX } else { 1 }) {
        ensure!(!must_pass, "{}: no write was refused, but {} failed: {:?}", what, n, e);
        ensure!(
            matches!(e, WriteError::IOErrorKind(_)),
            "{}: {} returned {:?} instead of an I/O error",
            what,
            n,
            e
        );
    }
    if !o.errs.is_empty() {
        return Ok(());
    }
    ensure!(!must_fail, "{}: every call succeeded although the file cannot hold its bytes", what);
    let got = std::fs::read(p).map_err(|e| e.to_string())?;
    bytes_same(&got, exp).map_err(|m| format!("{}: every call succeeded, but {}", what, m))
}

/// All positions if few, else a sample that keeps the ends.
pub fn positions(n: u64, max: u64, s: &mut u64) -> Vec<u64> {
    if n <= max {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = (0..max).map(|_| splitmix(s) % n).collect();
    v.push(0);
    v.push(n - 1);
    v.sort();
    v.dedup();
    v
}

fn check(c: &C15, cx: &mut Cx) -> Chk {
    let ds = &c.f.ds;
    let real = build(ds)?;
    let ws = resolve(ds, &c.ops);
    let mut data = fills(ds);
    for w in &ws {
        apply_w(ds, &mut data, w);
    }
    let exp = enc::canonical_file(ds, c.f.version, c.f.min(), &data);
    let n = exp.len() as u64;
    let budget = (1_500_000 / (n + 1)).max(4);
    let mut s = c.seed as u64;
    let p = cx.path();
    cx.nontrivial(!ws.is_empty());
    cx.label_if(n <= 700, "every byte position enumerated");

    if c.mode == 3 {
        cx.label("/dev/full");
        let _g = FSIZE.read().unwrap();
        use std::os::unix::fs::FileTypeExt;
        let full = Path::new("/dev/full");
        if full.metadata().map_or(false, |m| m.file_type().is_char_device()) {
            let errs = history(full, c, &real, &ws);
            let errs = &errs.errs;
            ensure!(!errs.is_empty(), "/dev/full: every call succeeded");
            ensure!(matches!(errs[0].1, WriteError::IOErrorKind(_)), "/dev/full: {:?}", errs[0]);
        }
        return Ok(());
    }
    if c.mode == 2 {
        cx.label("RLIMIT_FSIZE");
        let mut lim = positions(n, 150.min(budget), &mut s);
        lim.extend([n, n + 1, n + 5]);
        cx.evals(lim.len() as u64);
        let _g = FSIZE.write().unwrap();
        for l in lim {
            let errs = {
                let _f = Fsize::set(l);
                history(&p, c, &real, &ws)
            };
            judge(&p, &errs, &exp, &format!("file size limited to {} of {} bytes", l, n), l < n, l >= n)?;
        }
        return Ok(());
    }
    let _g = FSIZE.read().unwrap();
    // without any fault
    let (calls, seeks) = {
        let g = PlanGuard::set(Plan::Count);
        let errs = history(&p, c, &real, &ws);
        drop(g);
        judge(&p, &errs, &exp, "no fault", false, true)?;
        (write_calls(), seek_calls())
    };
    let mut plans: Vec<(Plan, bool, bool)> = vec![];
    if c.mode == 0 {
        cx.label("byte limit");
        for l in positions(n, 700.min(budget), &mut s) {
            plans.push((Plan::Limit(l), false, false));
        }
        plans.push((Plan::Limit(n), false, true));
    } else {
        cx.label("call faults");
        for m in [1usize, 2, 3, 5, 7, 1000] {
            plans.push((Plan::Short(m), false, false));
        }
        let errnos = [
            libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EINTR, libc::EFBIG, libc::EAGAIN, libc::ENOMEM, libc::EINVAL, libc::EPERM, libc::EPIPE,
            libc::ESTALE, libc::EROFS, libc::ENXIO, libc::ETIMEDOUT, libc::ENODEV, libc::EBADF,
        ];
        for i in positions(calls, 150.min(budget), &mut s) {
            // mostly the usual errors
            let some = if splitmix(&mut s) % 2 == 0 { 5 } else { errnos.len() as u64 };
            let e = errnos[(splitmix(&mut s) % some) as usize];
            plans.push((Plan::Nth(i, e), false, false));
            plans.push(match splitmix(&mut s) % 4 {
                0 => (Plan::HalfThenFail(i, e), false, false),
                1 => (Plan::Zero(i), false, false),
                2 if e != libc::EINTR => (Plan::From(i, e), true, false),
                _ => (Plan::Part(i), false, false),
            });
        }
        for i in positions(seeks, 60.min(budget), &mut s) {
            let e = [libc::EIO, libc::EINVAL, libc::EOVERFLOW, libc::ESPIPE, libc::ENXIO][(splitmix(&mut s) % 5) as usize];
            plans.push((Plan::SeekFail(i, e), false, false));
        }
    }
    cx.evals(plans.len() as u64);
    for (plan, mf, mp) in plans {
        let errs = {
            let _p = PlanGuard::set(plan);
            history(&p, c, &real, &ws)
        };
        let what = format!("{:?} (file of {} bytes, {} write calls)", plan, n, calls);
        judge(&p, &errs, &exp, &what, mf, mp)?;
        same_kind(&errs, plan, &what)?;
        damage(&p, c, &ws, &errs, &what, cx)?;
    }
    Ok(())
}

pub fn c15() -> Prop<C15> {
    Prop {
        id: "C15",
        rule: "write histories (complete or not), each run under every byte limit, every refused or shortened write call, every refused seek, RLIMIT_FSIZE limits, or on /dev/full; non-trivial: at least one data write in the history",
        strategy: |_| {
            let o = DsOpts { max_vars: 4, max_dims: 3, max_rec: 4, max_chunk: 24, special: 2, ..DsOpts::default() };
            let mode = prop_oneof![4 => Just(0u8), 4 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8)];
            (file_case(o), vec(h_op(), 0..8), any::<bool>(), mode, any::<u32>(), any::<bool>())
                .prop_map(|(mut f, ops, go_on, mode, seed, retry)| {
                    if let MinSpec::Abs(n) = f.min {
                        f.min = MinSpec::Abs(n % 1500);
                    }
                    C15 { f, ops, go_on, mode, seed, retry }
                })
                .boxed()
        },
        check,
        fixed: no_fixed,
        quick: 7200,
        thorough: 600000,
        workers: 8,
        case_timeout: 120,
        level: "fault_enumeration",
        raw: None,
        exhaustive_note: "per case: all byte positions of files up to 700 bytes, all write calls up to 150; sampled beyond",
    }
}
