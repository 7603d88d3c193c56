//! C24: reads that the operating system shortens, interrupts or refuses, and files replaced while
//! they are opened. C26: processes that die in the middle of a write history.
use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::fault::positions;
use crate::props::hist::{apply_w, fills, h_op, resolve, HOp, W};
use crate::props::reader::{make, read_errors, Lay};
use crate::sys::*;
use crate::{ensure, ensure_eq};
use netcdf3::{DataSet, FileReader, FileWriter, ReadError};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::path::Path;

// ------------------------------------------------------------------ C24

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C24 {
    f: FileCase,
    /// length of an extra global attribute, so that the header needs several reads
    extra: u16,
    streaming: bool,
    /// (kind, variable, record)
    ops: Vec<(u8, u16, u16)>,
    /// 0 shortened reads, 1 failing calls, 2 the file is replaced, 3 it is truncated or extended
    mode: u8,
    /// number of records of the file that takes its place
    other: u8,
    seed: u32,
}

#[derive(Clone, Debug)]
enum R {
    Var(usize, bool),
    Rec(usize, usize, bool),
    All,
}

type Seen = Result<Vec<(String, Vals)>, ReadError>;

fn ask(r: &mut FileReader, ds: &MDs, op: &R) -> Seen {
    let one = |i: usize, v: Vals| vec![(ds.vars[i].name.clone(), v)];
    match op {
        R::Var(i, false) => read_var(r, &ds.vars[*i].name).map(|v| one(*i, v)),
        R::Var(i, true) => read_var_typed(r, &ds.vars[*i].name, ds.vars[*i].ty).map(|v| one(*i, v)),
        R::Rec(i, k, false) => read_record(r, &ds.vars[*i].name, *k).map(|v| one(*i, v)),
        R::Rec(i, k, true) => read_record_typed(r, &ds.vars[*i].name, *k, ds.vars[*i].ty).map(|v| one(*i, v)),
        R::All => r.read_all_vars().map(|m| {
            let mut l: Vec<(String, Vals)> = m.iter().map(|(n, d)| (n.clone(), from_dv(d))).collect();
            l.sort_by(|a, b| a.0.cmp(&b.0));
            l
        }),
    }
}

fn answer(ds: &MDs, data: &[Vals], op: &R) -> Seen {
    let one = |i: usize, v: Vals| vec![(ds.vars[i].name.clone(), v)];
    match op {
        R::Var(i, _) => Ok(one(*i, data[*i].clone())),
        R::Rec(i, k, _) => {
            let v = &ds.vars[*i];
            match read_errors(ds, &v.name, Some(*i), None, Some(*k)).pop() {
                Some(e) => Err(e),
                None => Ok(one(*i, slice_rec(&data[*i], ds.chunk_len(v), *k))),
            }
        }
        R::All => {
            let mut l: Vec<(String, Vals)> =
                ds.vars.iter().zip(data).map(|(v, d)| (v.name.clone(), d.clone())).collect();
            l.sort_by(|a, b| a.0.cmp(&b.0));
            Ok(l)
        }
    }
}

/// What a session of open and reads saw.
struct Session {
    open: Result<(u8, MDs), ReadError>,
    got: Vec<Seen>,
    /// the same reads afterwards, undisturbed
    again: Vec<Seen>,
}

fn session(p: &Path, ds: &MDs, ops: &[R], guard: RGuard) -> Result<Session, String> {
    let r = FileReader::open(p);
    let mut r = match r {
        Err(e) => {
            drop(guard);
            return Ok(Session { open: Err(e), got: vec![], again: vec![] });
        }
        Ok(r) => r,
    };
    let mut got = vec![];
    for op in ops {
        got.push(ask(&mut r, ds, op));
    }
    drop(guard);
    let def = (ver_num(&r.version()), snapshot(r.data_set())?);
    let again = ops.iter().map(|op| ask(&mut r, ds, op)).collect();
    Ok(Session { open: Ok(def), got, again })
}

/// `errors`: how many calls may fail; `io`: the I/O error they must report.
fn judge(s: &Session, version: u8, ds: &MDs, data: &[Vals], ops: &[R], errors: usize, io: Option<std::io::ErrorKind>) -> Chk {
    let bad = |what: String, e: &ReadError| -> Chk {
        ensure!(errors > 0, "{} failed with {:?}", what, e);
        if let Some(k) = io {
            ensure!(matches!(e, ReadError::IOErrorKind(x) if *x == k), "{} failed with {:?} instead of the I/O error {:?}", what, e, k);
        }
        Ok(())
    };
    let def = match &s.open {
        Err(e) => return bad("open".into(), e),
        Ok(d) => d,
    };
    ensure_eq!(def.0, version, "version");
    diff(&def.1, ds)?;
    let mut failed = 0;
    for (op, g) in ops.iter().zip(&s.got) {
        let e = answer(ds, data, op);
        if *g == e {
            continue;
        }
        match g {
            Err(x) => {
                bad(format!("{:?}", op), x)?;
                failed += 1;
            }
            Ok(_) => return Err(format!("{:?} returned {} instead of {}", op, short_pub(g), short_pub(&e))),
        }
    }
    ensure!(failed <= errors, "{} calls failed because of one fault", failed);
    for (op, g) in ops.iter().zip(&s.again) {
        let e = answer(ds, data, op);
        ensure!(*g == e, "afterwards, undisturbed, {:?} returned {} instead of {}", op, short_pub(g), short_pub(&e));
    }
    Ok(())
}

fn c24_check(c: &C24, cx: &mut Cx) -> Chk {
    let mut f = c.f.clone();
    if c.extra > 0 && !f.ds.gattrs.iter().any(|a| a.name == "extra") {
        let x = DataSpec { mode: 1, seed: c.seed }.expand(Ty::U8, c.extra as usize);
        f.ds.gattrs.push(MAttr { name: "extra".into(), vals: x });
    }
    let ds = &f.ds;
    let data = f.values();
    let lay = Lay { streaming: c.streaming, gaps: vec![(c.seed % 3) as u8], ..Lay::plain() };
    let made = make(ds, f.version, &data, &lay);
    let mut ops: Vec<R> = vec![];
    for (k, v, r) in &c.ops {
        if ds.vars.is_empty() {
            break;
        }
        let i = *v as usize % ds.vars.len();
        let n = ds.nrec(&ds.vars[i]);
        ops.push(match k % 5 {
            0 => R::Var(i, false),
            1 => R::Var(i, true),
            2 | 3 if n > 0 => R::Rec(i, *r as usize % n, k % 5 == 3),
            2 | 3 => R::Var(i, false),
            _ => R::All,
        });
    }
    let p = cx.path();
    std::fs::write(&p, &made.bytes).map_err(|e| e.to_string())?;
    let s = session(&p, ds, &ops, RGuard::set(RPlan::Count))?;
    let n = events();
    judge(&s, f.version, ds, &data, &ops, 0, None).map_err(|m| format!("undisturbed: {}", m))?;
    cx.nontrivial(made.header_len > 1024 || !ops.is_empty());
    cx.label_if(made.header_len > 1024, "header in several reads");
    cx.label_if(made.streaming, "indeterminate numrecs");
    let mut rng = c.seed as u64;
    match c.mode % 4 {
        3 => {
            cx.label("file truncated or extended in place");
            let opening = {
                let _g = RGuard::set(RPlan::Count);
                drop(FileReader::open(&p));
                events()
            };
            let len = made.bytes.len() as u64;
            let ev = positions(n, 40, &mut rng);
            cx.evals(ev.len() as u64);
            for i in ev {
                if made.streaming && i < opening {
                    continue;
                }
                let k = splitmix(&mut rng);
                let to = match k % 4 {
                    0 => len + 1 + (k >> 8) % 5000,
                    1 => made.header_len as u64 + (k >> 8) % (len + 1 - made.header_len as u64),
                    _ => (k >> 8) % (len + 1),
                };
                let what = format!("length {} set to {} before event {} ({} of them for opening)", len, to, i, opening);
                std::fs::write(&p, &made.bytes).map_err(|e| e.to_string())?;
                let g = RGuard::resize(i, to, &p);
                let r = FileReader::open(&p);
                let mut r = match r {
                    Err(e) => {
                        ensure!(to < len && i < opening, "{}: open failed with {:?}", what, e);
                        continue;
                    }
                    Ok(r) => r,
                };
                let got: Vec<Seen> = ops.iter().map(|op| ask(&mut r, ds, op)).collect();
                drop(g);
                std::fs::write(&p, &made.bytes).map_err(|e| e.to_string())?;
                let open = Ok((ver_num(&r.version()), snapshot(r.data_set())?));
                let again = ops.iter().map(|op| ask(&mut r, ds, op)).collect();
                let s = Session { open, got, again };
                judge(&s, f.version, ds, &data, &ops, if to < len { usize::MAX } else { 0 }, None).map_err(|m| format!("{}: {}", what, m))?;
            }
        }
        0 => {
            cx.label("shortened or interrupted reads");
            let mut plans: Vec<RPlan> = [1usize, 2, 3, 4, 5, 7, 64, 511, 1000, 1023].iter().map(|m| RPlan::Short(*m)).collect();
            if made.bytes.len() > 20000 {
                plans.drain(..6);
            }
            for i in positions(n, 60, &mut rng) {
                plans.push(RPlan::ShortAt(i, (splitmix(&mut rng) % 8) as u8));
                plans.push(RPlan::Eintr(i));
            }
            cx.evals(plans.len() as u64);
            for plan in plans {
                let s = session(&p, ds, &ops, RGuard::set(plan))?;
                judge(&s, f.version, ds, &data, &ops, 0, None).map_err(|m| format!("{:?}: {}", plan, m))?;
            }
        }
        1 => {
            cx.label("failing calls");
            let mut plans = vec![];
            for i in positions(n, 60, &mut rng) {
                let errnos = [
                    libc::EIO, libc::EBADF, libc::ESTALE, libc::EACCES, libc::EAGAIN, libc::ENOMEM, libc::EINVAL, libc::EISDIR, libc::ETIMEDOUT,
                    libc::ENXIO, libc::EOVERFLOW, libc::ENODEV,
                ];
                let e = errnos[(splitmix(&mut rng) % errnos.len() as u64) as usize];
                plans.push(RPlan::Fail(i, e));
                plans.push(if splitmix(&mut rng) % 3 == 0 { RPlan::From(i, e) } else { RPlan::Eof(i) });
            }
            cx.evals(plans.len() as u64);
            for plan in plans {
                let s = session(&p, ds, &ops, RGuard::set(plan))?;
                let (n, io) = match plan {
                    RPlan::Fail(_, e) => (1, Some(std::io::Error::from_raw_os_error(e).kind())),
                    RPlan::From(_, e) => (usize::MAX, Some(std::io::Error::from_raw_os_error(e).kind())),
                    _ => (1, None),
                };
                judge(&s, f.version, ds, &data, &ops, n, io).map_err(|m| format!("{:?}: {}", plan, m))?;
                // and the file can be opened again
                let s = session(&p, ds, &ops, RGuard::set(RPlan::Count))?;
                judge(&s, f.version, ds, &data, &ops, 0, None).map_err(|m| format!("after {:?}: {}", plan, m))?;
            }
        }
        _ => {
            cx.label("file replaced");
            let mut g = f.clone();
            if let Some(u) = g.ds.unlim() {
                g.ds.dims[u].size = c.other as usize;
            }
            for d in g.data.iter_mut() {
                d.seed = d.seed.wrapping_add(77);
                d.mode = d.mode.wrapping_add(1) % 5;
            }
            if c.other % 3 == 0 && !g.ds.gattrs.iter().any(|a| a.name == "other") {
                g.ds.gattrs.push(MAttr { name: "other".into(), vals: Vals::U8(vec![7; c.other as usize * 11]) });
            }
            let data2 = g.values();
            let made2 = make(&g.ds, g.version, &data2, &lay);
            if made2.streaming != made.streaming {
                return Ok(());
            }
            let q = cx.path();
            let ev = positions(n, 40, &mut rng);
            cx.evals(ev.len() as u64);
            for i in ev {
                let _ = std::fs::remove_file(&p);
                std::fs::write(&p, &made.bytes).map_err(|e| e.to_string())?;
                std::fs::write(&q, &made2.bytes).map_err(|e| e.to_string())?;
                let s = session(&p, ds, &ops, RGuard::swap(i, &q, &p))?;
                let a = judge(&s, f.version, ds, &data, &ops, 0, None);
                if let Err(m) = a {
                    judge(&s, g.version, &g.ds, &data2, &ops, 0, None).map_err(|m2| {
                        format!(
                            "replaced before event {}: neither the old file ({}) nor the new one ({})",
                            i, m, m2
                        )
                    })?;
                }
            }
        }
    }
    Ok(())
}

pub fn c24() -> Prop<C24> {
    Prop {
        id: "C24",
        rule: "files and read sequences, each run with every read shortened or interrupted, every read, seek or stat refused or every read at a sudden end of file, or the file replaced, truncated or extended before every such call; non-trivial: at least one data read or a header longer than one read",
        strategy: |_| {
            let o = DsOpts { max_vars: 4, max_dims: 3, max_rec: 4, max_chunk: 40, special: 4, rich: false, ..DsOpts::default() };
            let extra = prop_oneof![2 => Just(0u16), 1 => 1u16..1100, 1 => 900u16..5000];
            (
                (file_case(o), extra, any::<bool>()),
                (vec((any::<u8>(), any::<u16>(), any::<u16>()), 0..6), 0u8..4, 0u8..7, any::<u32>()),
            )
                .prop_map(|((mut f, extra, streaming), (ops, mode, other, seed))| {
                    f.min = MinSpec::Abs(0);
                    C24 { f, extra, streaming, ops, mode, other, seed }
                })
                .boxed()
        },
        check: c24_check,
        fixed: no_fixed,
        quick: 16000,
        thorough: 1500000,
        workers: 8,
        case_timeout: 120,
        level: "fault_enumeration",
        raw: None,
        exhaustive_note: "per case: every read, seek and stat of the session (a sample beyond 60)",
    }
}

// ------------------------------------------------------------------ C26

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C26 {
    f: FileCase,
    ops: Vec<HOp>,
    /// the writer is closed at the end
    close: bool,
    seed: u32,
}

/// What had returned when the process died.
struct Done {
    def: bool,
    writes: usize,
    /// a write that was under way
    under_way: Option<usize>,
}

fn life(p: &Path, c: &C26, real: &DataSet, ws: &[W]) -> Result<Done, String> {
    let mut d = Done { def: false, writes: 0, under_way: None };
    let mut w = FileWriter::open(p).map_err(|e| format!("open: {:?}", e))?;
    w.set_def(real, ver(c.f.version), c.f.min()).map_err(|e| format!("set_def: {:?}", e))?;
    if dead() {
        return Ok(d);
    }
    d.def = true;
    for (k, x) in ws.iter().enumerate() {
        let n = &c.f.ds.vars[x.v].name;
        match x.r {
            None => write_var(&mut w, n, &x.x).map_err(|e| format!("write_var({:?}): {:?}", n, e))?,
            Some(r) => write_record(&mut w, n, r, &x.x).map_err(|e| format!("write_record({:?},{}): {:?}", n, r, e))?,
        }
        if dead() {
            d.under_way = Some(k);
            return Ok(d);
        }
        d.writes = k + 1;
    }
    if c.close {
        w.close().map_err(|e| format!("close: {:?}", e))?;
    }
    Ok(d)
}

fn c26_check(c: &C26, cx: &mut Cx) -> Chk {
    let ds = &c.f.ds;
    let real = build(ds)?;
    let ws = resolve(ds, &c.ops);
    let p = cx.path();
    let calls = {
        let g = PlanGuard::set(Plan::Count);
        let d = life(&p, c, &real, &ws)?;
        drop(g);
        ensure_eq!(d.writes, ws.len(), "writes");
        write_calls()
    };
    cx.nontrivial(!ws.is_empty());
    cx.label_if(c.close, "closed at the end");
    let n = std::fs::metadata(&p).map_or(0, |m| m.len());
    let budget = (800_000 / (n + 400)).clamp(4, 260);
    let mut s = c.seed as u64;
    let at = positions(calls + 1, budget, &mut s);
    cx.evals(at.len() as u64);
    cx.label_if(calls < budget, "every write call enumerated");
    for k in at {
        let part = (splitmix(&mut s) % 8) as u8;
        let what = format!("died in write call {} of {} ({}/8 of it written)", k, calls, part);
        let done = {
            let _g = PlanGuard::set(Plan::Die(k, part));
            life(&p, c, &real, &ws)?
        };
        let mut r = match FileReader::open(&p) {
            Ok(r) => r,
            Err(e) => {
                ensure!(!done.def, "{}: the definition was set, but open failed: {:?}", what, e);
                continue;
            }
        };
        ensure_eq!(ver_num(&r.version()), c.f.version, "{}: version", what);
        same(r.data_set(), ds).map_err(|m| format!("{}: {}", what, m))?;
        let mut data = fills(ds);
        let mut kept: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); ds.vars.len()];
        for (i, w) in ws.iter().enumerate() {
            let recs: Vec<usize> = w.r.map_or((0..ds.nrec(&ds.vars[w.v])).collect(), |r| vec![r]);
            if i < done.writes {
                apply_w(ds, &mut data, w);
                kept[w.v].extend(recs);
            } else if done.under_way == Some(i) {
                for r in recs {
                    kept[w.v].remove(&r);
                }
            }
        }
        for (i, v) in ds.vars.iter().enumerate() {
            let cl = ds.chunk_len(v);
            for r_i in 0..ds.nrec(v) {
                let g = read_record(&mut r, &v.name, r_i);
                if kept[i].contains(&r_i) {
                    let e = slice_rec(&data[i], cl, r_i);
                    let g = g.map_err(|x| format!("{}: record {} of {:?}, written before: {:?}", what, r_i, v.name, x))?;
                    ensure!(
                        g == e,
                        "{}: record {} of {:?}, written before, is {} instead of {}",
                        what,
                        r_i,
                        v.name,
                        short_pub(&g),
                        short_pub(&e)
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn c26() -> Prop<C26> {
    Prop {
        id: "C26",
        rule: "write histories, the process dying in every write call (a part of that call written, nothing afterwards); non-trivial: at least one data write",
        strategy: |_| {
            let o = DsOpts { max_vars: 4, max_dims: 3, max_rec: 4, max_chunk: 24, special: 2, rich: false, ..DsOpts::default() };
            let o2 = DsOpts { rich: true, min_vars: 1, ..o };
            (prop_oneof![3 => file_case(o), 1 => file_case(o2)], vec(h_op(), 0..8), any::<bool>(), any::<u32>())
                .prop_map(|(mut f, ops, close, seed)| {
                    if let MinSpec::Abs(n) = f.min {
                        f.min = MinSpec::Abs(n % 1500);
                    }
                    C26 { f, ops, close, seed }
                })
                .boxed()
        },
        check: c26_check,
        fixed: no_fixed,
        quick: 12000,
        thorough: 900000,
        workers: 8,
        case_timeout: 120,
        level: "fault_enumeration",
        raw: None,
        exhaustive_note: "per case: every write call of the history up to 260, a sample beyond",
    }
}
