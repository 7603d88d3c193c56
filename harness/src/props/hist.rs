//! C04 write histories, C05 rejected writer calls, C21 dropped writers, C23 independence.
use crate::api::*;
use crate::enc;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::big::{big_ds, refused};
use crate::props::defs::{any_dop, conditions, hist, model_apply, real_apply, rename_to_itself, Hist, Names};
use crate::props::reader::{do_read, lay, make, pick_rec, pick_var, rd_op, Lay, RdOp};
use crate::props::rw::file_labels;
use crate::{ensure, ensure_eq};
use netcdf3::{DataSet, FileReader, FileWriter, WriteError};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

pub fn fills(ds: &MDs) -> Vec<Vals> {
    ds.vars.iter().map(|v| Vals::fill(v.ty, ds.len(v))).collect()
}

/// Replaces record `r` of the whole-variable values.
pub fn put_rec(all: &mut Vals, chunk_len: usize, r: usize, rec: &Vals) {
    let s = r * chunk_len;
    match (all, rec) {
        (Vals::I8(a), Vals::I8(x)) => a[s..s + x.len()].copy_from_slice(x),
        (Vals::U8(a), Vals::U8(x)) => a[s..s + x.len()].copy_from_slice(x),
        (Vals::I16(a), Vals::I16(x)) => a[s..s + x.len()].copy_from_slice(x),
        (Vals::I32(a), Vals::I32(x)) => a[s..s + x.len()].copy_from_slice(x),
        (Vals::F32(a), Vals::F32(x)) => a[s..s + x.len()].copy_from_slice(x),
        (Vals::F64(a), Vals::F64(x)) => a[s..s + x.len()].copy_from_slice(x),
        _ => unreachable!("a record has the type of its variable"),
    }
}

// ------------------------------------------------------------------ C04

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum HOp {
    Var(u16, DataSpec),
    Rec(u16, u16, DataSpec),
}

pub fn h_op() -> BoxedStrategy<HOp> {
    prop_oneof![
        2 => (any::<u16>(), dspec()).prop_map(|(v, d)| HOp::Var(v, d)),
        4 => (any::<u16>(), any::<u16>(), dspec()).prop_map(|(v, r, d)| HOp::Rec(v, r, d)),
    ]
    .boxed()
}

/// A valid write: variable, record (None = whole variable), values.
#[derive(Clone, Debug)]
pub struct W {
    pub v: usize,
    pub r: Option<usize>,
    pub x: Vals,
}

pub fn resolve(ds: &MDs, ops: &[HOp]) -> Vec<W> {
    let mut out = vec![];
    if ds.vars.is_empty() {
        return out;
    }
    let pick = |v: u16| v as usize % ds.vars.len();
    for op in ops {
        match op {
            HOp::Var(v, d) => {
                let v = pick(*v);
                out.push(W { v, r: None, x: d.expand(ds.vars[v].ty, ds.len(&ds.vars[v])) });
            }
            HOp::Rec(v, r, d) => {
                let v = pick(*v);
                let n = ds.nrec(&ds.vars[v]);
                if n > 0 {
                    let x = d.expand(ds.vars[v].ty, ds.chunk_len(&ds.vars[v]));
                    out.push(W { v, r: Some(*r as usize % n), x });
                }
            }
        }
    }
    out
}

pub fn apply_w(ds: &MDs, data: &mut [Vals], w: &W) {
    match w.r {
        None => data[w.v] = w.x.clone(),
        Some(r) => put_rec(&mut data[w.v], ds.chunk_len(&ds.vars[w.v]), r, &w.x),
    }
}

/// The same values through differently split calls.
pub fn resplit(ds: &MDs, ws: &[W], seed: u32) -> Vec<W> {
    let mut s = seed as u64;
    let mut out = vec![];
    for w in ws {
        let v = &ds.vars[w.v];
        let n = ds.nrec(v);
        let cl = ds.chunk_len(v);
        let coin = splitmix(&mut s) % 4;
        match w.r {
            None if coin < 3 && n > 0 => {
                let mut rs: Vec<usize> = (0..n).collect();
                for i in (1..n).rev() {
                    let j = (splitmix(&mut s) % (i as u64 + 1)) as usize;
                    rs.swap(i, j);
                }
                for r in rs {
                    out.push(W { v: w.v, r: Some(r), x: slice_rec(&w.x, cl, r) });
                }
            }
            Some(_) if !ds.is_rec(v) && coin < 3 => out.push(W { v: w.v, r: None, x: w.x.clone() }),
            _ => out.push(w.clone()),
        }
        // repetition of the last call
        if splitmix(&mut s) % 8 == 0 {
            let l = out.last().unwrap().clone();
            out.push(l);
        }
    }
    out
}

pub fn run_writes(p: &Path, f: &FileCase, real: &DataSet, ws: &[W]) -> Chk {
    let mut w = FileWriter::open(p).map_err(|e| format!("open: {:?}", e))?;
    w.set_def(real, ver(f.version), f.min()).map_err(|e| format!("set_def failed: {:?}", e))?;
    for (k, c) in ws.iter().enumerate() {
        let n = &f.ds.vars[c.v].name;
        match c.r {
            None => write_var(&mut w, n, &c.x).map_err(|e| format!("call {}: write_var({:?}) failed: {:?}", k, n, e))?,
            Some(r) => write_record(&mut w, n, r, &c.x)
                .map_err(|e| format!("call {}: write_record({:?},{}) failed: {:?}", k, n, r, e))?,
        }
    }
    w.close().map_err(|e| format!("close failed: {:?}", e))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C04 {
    f: FileCase,
    ops: Vec<HOp>,
    split: u32,
}

fn c04_check(c: &C04, cx: &mut Cx) -> Chk {
    let ds = &c.f.ds;
    let ws = resolve(ds, &c.ops);
    let mut data = fills(ds);
    let mut touched = vec![std::collections::BTreeSet::new(); ds.vars.len()];
    let mut mixed = false;
    let mut over = false;
    for w in &ws {
        apply_w(ds, &mut data, w);
        let n = ds.nrec(&ds.vars[w.v]);
        let cover: Vec<usize> = w.r.map_or((0..n).collect(), |r| vec![r]);
        for r in cover {
            if !touched[w.v].insert(r) {
                over = true;
            }
        }
        mixed |= ws.iter().any(|x| x.v == w.v && x.r.is_some() != w.r.is_some());
    }
    let omitted = ds.vars.iter().enumerate().any(|(i, v)| touched[i].len() < ds.nrec(v));
    file_labels(cx, ds, c.f.version);
    cx.label_if(over, "overwritten records");
    cx.label_if(mixed, "whole and record writes of one variable");
    cx.label_if(omitted, "records never written");
    cx.nontrivial(!ws.is_empty() && (over || mixed || omitted));
    let real = build(ds)?;
    let p = cx.path();
    run_writes(&p, &c.f, &real, &ws)?;
    check_read_back(&p, c.f.version, ds, &data)?;
    let a = std::fs::read(&p).map_err(|e| e.to_string())?;
    let q = cx.path();
    let ws2 = resplit(ds, &ws, c.split);
    run_writes(&q, &c.f, &real, &ws2)?;
    check_read_back(&q, c.f.version, ds, &data).map_err(|e| format!("same values, other calls: {}", e))?;
    let b = std::fs::read(&q).map_err(|e| e.to_string())?;
    bytes_same(&b, &a).map_err(|e| format!("the file depends on how the values were split: {}", e))
}

pub fn c04() -> Prop<C04> {
    Prop {
        id: "C04",
        rule: "histories of whole-variable and record writes with repetitions and omissions, compared with an overlay model, and once more with the values split differently; non-trivial: some record overwritten, omitted, or both kinds of calls on one variable",
        strategy: |_| {
            let o = DsOpts { max_vars: 5, rich: false, min_vars: 1, special: 15, ..DsOpts::default() };
            let o2 = DsOpts { max_vars: 3, rich: false, min_vars: 1, max_rec: 40, max_chunk: 12, ..DsOpts::default() };
            (prop_oneof![4 => file_case(o), 1 => file_case(o2)], prop_oneof![100 => vec(h_op(), 0..16), 1 => vec(h_op(), 16..150)], any::<u32>())
                .prop_map(|(f, ops, split)| C04 { f, ops, split })
                .boxed()
        },
        check: c04_check,
        fixed: no_fixed,
        quick: 96000,
        thorough: 7000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ writer calls, valid or not

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct WCall {
    v: u16,
    /// record index selector; None: whole variable
    r: Option<u16>,
    ty: Option<Ty>,
    len: u8,
    d: DataSpec,
}

pub fn wcall() -> BoxedStrategy<WCall> {
    (
        any::<u16>(),
        prop_oneof![2 => Just(None), 3 => any::<u16>().prop_map(Some)],
        prop_oneof![5 => Just(None), 1 => ty().prop_map(Some)],
        prop_oneof![6 => Just(0u8), 2 => 1u8..8],
        dspec(),
    )
        .prop_map(|(v, r, ty, len, d)| WCall { v, r, ty, len, d })
        .boxed()
}

/// Runs one call on the writer. `defined` tells if set_def succeeded. Updates the model.
/// Returns what was observed, for transcripts; Err when it contradicts the model.
pub fn do_wcall(w: &mut FileWriter, ds: &MDs, defined: bool, data: &mut [Vals], c: &WCall) -> Result<Result<(), WriteError>, String> {
    let (name, vi) = pick_var(ds, c.v);
    let ty = c.ty.or(vi.map(|i| ds.vars[i].ty)).unwrap_or(Ty::I16);
    let (nrec, cl, total) = vi.map_or((1, 1, 1), |i| {
        let v = &ds.vars[i];
        if defined {
            (ds.nrec(v), ds.chunk_len(v), ds.len(v))
        } else {
            // possibly a definition of any size
            (ds.nrec(v).min(50), ds.chunk_len_big(v).min(50) as usize, (ds.chunk_len_big(v) * ds.nrec(v) as u128).min(50) as usize)
        }
    });
    let right = if c.r.is_some() { cl } else { total };
    let len = match c.len {
        0 => right,
        1 => 0,
        2 => right.saturating_sub(1),
        3 => right + 1,
        4 => right * 2,
        5 => total,
        6 => cl,
        _ => right + 4,
    };
    let x = c.d.expand(ty, len);
    let mut adm: Vec<WriteError> = vec![];
    let idx = c.r.map(|r| pick_rec(nrec, r));
    if !defined {
        adm.push(WriteError::HeaderNotDefined);
    } else {
        match vi {
            None => adm.push(WriteError::VariableNotDefined(name.clone())),
            Some(i) => {
                let v = &ds.vars[i];
                if ty != v.ty {
                    adm.push(WriteError::VariableMismatchDataType { var_name: name.clone(), req: dt(v.ty), get: dt(ty) });
                }
                match idx {
                    None => {
                        if len != total {
                            adm.push(WriteError::VariableMismatchDataLength { var_name: name.clone(), req: total, get: len });
                        }
                    }
                    Some(k) => {
                        if k >= nrec {
                            adm.push(WriteError::RecordIndexExceeded { index: k, num_records: nrec });
                        }
                        if len != cl {
                            adm.push(WriteError::RecordMismatchDataLength { var_name: name.clone(), req: cl, get: len });
                        }
                    }
                }
            }
        }
    }
    let what = match idx {
        None => format!("write_var_{:?}({:?}, {} values)", ty, name, len),
        Some(k) => format!("write_record_{:?}({:?}, {}, {} values)", ty, name, k, len),
    };
    let got = match idx {
        None => write_var(w, &name, &x),
        Some(k) => write_record(w, &name, k, &x),
    };
    match &got {
        Ok(()) => {
            ensure!(adm.is_empty(), "{} succeeded although {:?}", what, adm);
            let i = vi.unwrap();
            match idx {
                None => data[i] = x,
                Some(k) => put_rec(&mut data[i], cl, k, &x),
            }
        }
        Err(e) => {
            ensure!(!adm.is_empty(), "{} failed with {:?}", what, e);
            ensure!(adm.contains(e), "{} failed with {:?}, conditions that hold: {:?}", what, e, adm);
        }
    }
    Ok(got)
}

// ------------------------------------------------------------------ C05

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum WOp {
    Call(WCall),
    /// a second definition: version, header_min_size, the same data set or another one
    SetDef(u8, u16, bool),
}

fn w_op() -> BoxedStrategy<WOp> {
    prop_oneof![
        12 => wcall().prop_map(WOp::Call),
        1 => (version(), 0u16..3000, any::<bool>()).prop_map(|(v, m, o)| WOp::SetDef(v, m, o)),
    ]
    .boxed()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C05 {
    f: FileCase,
    other: MDs,
    before: Vec<WCall>,
    /// 0: never defined, otherwise defined
    define: u8,
    ops: Vec<WOp>,
    /// a definition that must be refused, tried first
    #[serde(default)]
    huge: Option<(MDs, u8, usize)>,
}

fn huge() -> BoxedStrategy<Option<(MDs, u8, usize)>> {
    prop_oneof![
        4 => Just(None),
        1 => (big_ds(), prop_oneof![2 => Just(0usize), 1 => 0usize..3000, 1 => Just(1usize << 63)]).prop_map(|(m, min)| {
            if refused(&m, 1, min) {
                Some((m, 1, min))
            } else {
                None
            }
        })
    ]
    .boxed()
}

#[derive(PartialEq, Debug)]
struct WState {
    defined: bool,
    ds: Option<*const DataSet>,
    version: Option<u8>,
    min: Option<usize>,
    path: PathBuf,
    bytes: Vec<u8>,
}

fn wstate(w: &FileWriter, p: &Path) -> Result<WState, String> {
    Ok(WState {
        defined: w.header_is_defined(),
        ds: w.data_set().map(|d| d as *const DataSet),
        version: w.version().map(|v| ver_num(&v)),
        min: w.header_min_size(),
        path: w.file_path().to_path_buf(),
        bytes: std::fs::read(p).map_err(|e| e.to_string())?,
    })
}

fn unchanged(a: &WState, b: &WState, what: &str) -> Chk {
    if a == b {
        return Ok(());
    }
    bytes_same(&b.bytes, &a.bytes).map_err(|e| format!("rejected {} changed the file: {}", what, e))?;
    Err(format!(
        "rejected {} changed the writer's state: {:?} -> {:?}",
        what,
        (a.defined, a.ds, a.version, a.min, &a.path),
        (b.defined, b.ds, b.version, b.min, &b.path)
    ))
}

fn c05_check(c: &C05, cx: &mut Cx) -> Chk {
    let ds = &c.f.ds;
    let real = build(ds)?;
    let other = build(&c.other)?;
    let huge_ds = match &c.huge {
        Some((m, _, _)) => Some(build(m)?),
        None => None,
    };
    file_labels(cx, ds, c.f.version);
    let p = cx.path();
    let mut data = fills(ds);
    let mut rejected = 0;
    let mut w = FileWriter::open(&p).map_err(|e| format!("open: {:?}", e))?;
    let s0 = wstate(&w, &p)?;
    ensure!(!s0.defined && s0.ds.is_none() && s0.version.is_none() && s0.min.is_none(), "state of a new writer: {:?}", s0);
    ensure_eq!(s0.path, p, "file_path");
    for x in &c.before {
        let r = do_wcall(&mut w, ds, false, &mut data, x)?;
        ensure!(r.is_err(), "a write before the definition succeeded");
        rejected += 1;
        unchanged(&s0, &wstate(&w, &p)?, "call before the definition")?;
    }
    if let Some((m, v, min)) = &c.huge {
        cx.label("refused definition");
        match w.set_def(huge_ds.as_ref().unwrap(), ver(*v), *min) {
            Err(WriteError::ClassicVersionNotPossible) => {}
            r => return Err(format!("set_def of a definition too large for the classic version: {:?}", r)),
        }
        rejected += 1;
        unchanged(&s0, &wstate(&w, &p)?, "definition")?;
        for x in &c.before {
            let r = do_wcall(&mut w, m, false, &mut [], x)?;
            ensure!(r.is_err(), "a write after a refused definition succeeded");
            unchanged(&s0, &wstate(&w, &p)?, "call after a refused definition")?;
        }
    }
    if c.define == 0 {
        cx.label("closed without a definition");
        w.close().map_err(|e| format!("close without a definition: {:?}", e))?;
        ensure_eq!(std::fs::read(&p).map_err(|e| e.to_string())?.len(), 0, "length of a file never defined");
        cx.nontrivial(rejected > 0);
        return Ok(());
    }
    w.set_def(&real, ver(c.f.version), c.f.min()).map_err(|e| format!("set_def failed: {:?}", e))?;
    let s = wstate(&w, &p)?;
    ensure!(s.defined, "header_is_defined is false after set_def");
    ensure_eq!(s.ds, Some(&real as *const DataSet), "data_set after set_def");
    ensure_eq!(s.version, Some(c.f.version), "version after set_def");
    ensure_eq!(s.min, Some(c.f.min()), "header_min_size after set_def");
    ensure_eq!(s.path, p, "file_path after set_def");
    let mut cur = s;
    for (k, op) in c.ops.iter().enumerate() {
        let rej = match op {
            WOp::Call(x) => do_wcall(&mut w, ds, true, &mut data, x).map_err(|e| format!("call {}: {}", k, e))?.is_err(),
            WOp::SetDef(v, m, o) => {
                let d = if *o { &other } else { &real };
                match w.set_def(d, ver(*v), *m as usize) {
                    Err(WriteError::HeaderAlreadyDefined) => {}
                    r => return Err(format!("call {}: second set_def: {:?}", k, r)),
                }
                cx.label("second definition");
                true
            }
        };
        let now = wstate(&w, &p)?;
        if rej {
            rejected += 1;
            unchanged(&cur, &now, &format!("call {} ({:?})", k, op))?;
        } else {
            ensure!(
                (now.defined, now.ds, now.version, now.min) == (cur.defined, cur.ds, cur.version, cur.min),
                "an accepted write changed the reported state"
            );
        }
        cur = now;
    }
    w.close().map_err(|e| format!("close failed: {:?}", e))?;
    check_read_back(&p, c.f.version, ds, &data)?;
    let got = std::fs::read(&p).map_err(|e| e.to_string())?;
    bytes_same(&got, &enc::canonical_file(ds, c.f.version, c.f.min(), &data))?;
    cx.label_if(rejected > 0, "some calls rejected");
    cx.nontrivial(rejected > 0);
    Ok(())
}

pub fn c05() -> Prop<C05> {
    Prop {
        id: "C05",
        rule: "writer histories mixing valid calls with calls before the definition, second definitions, unknown variables, other types, lengths and indices; file bytes and reported state compared around every rejected call; non-trivial: at least one rejected call",
        strategy: |_| {
            let o = DsOpts { max_vars: 4, rich: false, max_chunk: 60, ..DsOpts::default() };
            (file_case(o), mds(o), vec(wcall(), 0..3), 0u8..12, prop_oneof![100 => vec(w_op(), 0..18), 1 => vec(w_op(), 18..100)], huge())
                .prop_map(|(f, other, before, define, ops, huge)| C05 { f, other, before, define, ops, huge })
                .boxed()
        },
        check: c05_check,
        fixed: no_fixed,
        quick: 96000,
        thorough: 7000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C21

/// In half of the cases the file was there before, complete and longer than the new one.
fn old_content(c: &C04, p: &std::path::Path) -> Chk {
    if c.split % 2 == 0 {
        let mut b = enc::canonical_file(&c.f.ds, c.f.version, c.f.min() + c.split as usize % 40, &c.f.values());
        b.extend_from_slice(&[b'x'; 40]);
        std::fs::write(p, &b).map_err(|e| e.to_string())?;
    }
    Ok(())
}

fn c21_check(c: &C04, cx: &mut Cx) -> Chk {
    let ds = &c.f.ds;
    let ws = resolve(ds, &c.ops);
    let real = build(ds)?;
    file_labels(cx, ds, c.f.version);
    cx.nontrivial(!ws.is_empty());
    // before the definition
    {
        let p = cx.path();
        old_content(c, &p)?;
        let w = FileWriter::open(&p).map_err(|e| format!("open: {:?}", e))?;
        drop(w);
        ensure_eq!(std::fs::read(&p).map_err(|e| e.to_string())?.len(), 0, "length of a file never defined");
        match FileReader::open(&p) {
            Err(e) if e.header_is_incomplete() => {}
            r => return Err(format!("opening an empty file: {:?}", r.map(|_| ()))),
        }
    }
    // every drop point
    for n in 0..=ws.len() {
        cx.evals(1);
        let p = cx.path();
        let mut data = fills(ds);
        let mut written = vec![std::collections::BTreeSet::new(); ds.vars.len()];
        {
            old_content(c, &p)?;
            let mut w = FileWriter::open(&p).map_err(|e| format!("open: {:?}", e))?;
            w.set_def(&real, ver(c.f.version), c.f.min()).map_err(|e| format!("set_def failed: {:?}", e))?;
            for x in &ws[..n] {
                let name = &ds.vars[x.v].name;
                match x.r {
                    None => write_var(&mut w, name, &x.x).map_err(|e| format!("write_var({:?}) failed: {:?}", name, e))?,
                    Some(r) => write_record(&mut w, name, r, &x.x)
                        .map_err(|e| format!("write_record({:?},{}) failed: {:?}", name, r, e))?,
                }
                apply_w(ds, &mut data, x);
                match x.r {
                    None => written[x.v].extend(0..ds.nrec(&ds.vars[x.v])),
                    Some(r) => {
                        written[x.v].insert(r);
                    }
                }
            }
            drop(w);
        }
        let mut r = FileReader::open(&p).map_err(|e| format!("dropped after {} writes: open failed: {:?}", n, e))?;
        ensure_eq!(ver_num(&r.version()), c.f.version, "version");
        same(r.data_set(), ds).map_err(|e| format!("dropped after {} writes: {}", n, e))?;
        for (i, v) in ds.vars.iter().enumerate() {
            let cl = ds.chunk_len(v);
            for k in 0..ds.nrec(v) {
                if written[i].contains(&k) {
                    let g = read_record(&mut r, &v.name, k)
                        .map_err(|e| format!("dropped after {} writes: record {} of {:?}: {:?}", n, k, v.name, e))?;
                    let e = slice_rec(&data[i], cl, k);
                    ensure!(
                        g == e,
                        "dropped after {} writes: record {} of {:?} is {} instead of {}",
                        n,
                        k,
                        v.name,
                        short_pub(&g),
                        short_pub(&e)
                    );
                } else {
                    let _ = read_record(&mut r, &v.name, k);
                }
            }
            let all = read_var(&mut r, &v.name);
            if written[i].len() == ds.nrec(v) {
                let g = all.map_err(|e| format!("dropped after {} writes: {:?}: {:?}", n, v.name, e))?;
                ensure!(g == data[i], "dropped after {} writes: data of {:?} differ", n, v.name);
            } else if let Ok(g) = all {
                // whatever is returned, the written records are in it
                for k in written[i].iter() {
                    ensure_eq!(slice_rec(&g, cl, *k), slice_rec(&data[i], cl, *k), "record {} inside {:?}", k, v.name);
                }
            }
        }
    }
    Ok(())
}

pub fn c21() -> Prop<C04> {
    Prop {
        id: "C21",
        rule: "write histories, the writer dropped before the definition and after every prefix of the calls; non-trivial: at least one write",
        strategy: |_| {
            let o = DsOpts { max_vars: 5, rich: false, min_vars: 1, max_chunk: 60, ..DsOpts::default() };
            let o2 = DsOpts { max_vars: 5, rich: true, min_vars: 1, max_chunk: 60, ..DsOpts::default() };
            (prop_oneof![4 => file_case(o), 1 => file_case(o2)], prop_oneof![100 => vec(h_op(), 0..9), 1 => vec(h_op(), 9..40)], any::<u32>())
                .prop_map(|(f, ops, split)| C04 { f, ops, split })
                .boxed()
        },
        check: c21_check,
        fixed: no_fixed,
        quick: 36000,
        thorough: 2500000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "every prefix of each generated history",
    }
}

// ------------------------------------------------------------------ C23

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Job {
    /// data set, calls, closed or dropped
    Writer(u8, Vec<WCall>, bool),
    /// file, reads
    Reader(u8, Vec<RdOp>),
    Defs(Hist),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C23 {
    files: Vec<FileCase>,
    /// the second file is a variation of the first one (same names)
    twin: bool,
    lay: Lay,
    jobs: Vec<Job>,
    sched: Vec<u8>,
    threads: bool,
}

fn twin(f: &FileCase) -> FileCase {
    let mut t = f.clone();
    for (i, d) in t.ds.dims.iter_mut().enumerate() {
        d.size = if d.unlim {
            d.size + 1
        } else if d.size == 1 || f.ds.dims.len() > 12 {
            d.size
        } else {
            1 + (d.size + i) % 7
        };
    }
    for v in t.ds.vars.iter_mut() {
        v.ty = ALL_TY[(v.ty.code() as usize + 1) % 6];
    }
    t
}

enum Mach<'a> {
    W { w: Option<FileWriter<'a>>, f: &'a FileCase, ds: &'a DataSet, data: Vec<Vals>, ops: &'a [WCall], k: usize, close: bool, path: PathBuf },
    /// lose: what happens to the path after the file was opened (1 removed, 2 replaced)
    R { r: Option<FileReader>, f: &'a FileCase, data: Vec<Vals>, ops: &'a [RdOp], k: usize, path: PathBuf, own: PathBuf, lose: u8 },
    D { ds: DataSet, m: MDs, h: &'a Hist, k: usize },
}

type Log = Vec<String>;

impl<'a> Mach<'a> {
    fn new(j: &'a Job, n: usize, files: &'a [FileCase], dss: &'a [DataSet], rdir: &Path, wdir: &Path) -> Mach<'a> {
        match j {
            Job::Writer(f, ops, close) => {
                let k = *f as usize % files.len();
                Mach::W {
                    w: None,
                    f: &files[k],
                    ds: &dss[k],
                    data: fills(&files[k].ds),
                    ops,
                    k: 0,
                    close: *close,
                    path: wdir.join(format!("w{}.nc", n)),
                }
            }
            Job::Reader(f, ops) => {
                let k = (*f & 7) as usize % files.len();
                let (path, own) = (rdir.join(format!("r{}.nc", k)), wdir.join(format!("own{}.nc", n)));
                Mach::R { r: None, f: &files[k], data: files[k].values(), ops, k: 0, path, own, lose: *f >> 3 }
            }
            Job::Defs(h) => Mach::D { ds: DataSet::new(), m: MDs::default(), h, k: 0 },
        }
    }
    /// One call; false when the job is over.
    fn step(&mut self, log: &mut Log) -> Result<bool, String> {
        match self {
            Mach::W { w, f, ds, data, ops, k, close, path } => {
                *k += 1;
                match *k {
                    1 => {
                        *w = Some(FileWriter::create_new(&path).map_err(|e| format!("create_new: {:?}", e))?);
                        log.push("created".into());
                    }
                    2 => {
                        let x = w.as_mut().unwrap();
                        x.set_def(ds, ver(f.version), f.min()).map_err(|e| format!("set_def failed: {:?}", e))?;
                        log.push("defined".into());
                    }
                    n if n - 3 < ops.len() => {
                        let r = do_wcall(w.as_mut().unwrap(), &f.ds, true, data, &ops[n - 3])?;
                        log.push(format!("{:?}", r));
                    }
                    _ => {
                        let x = w.take().unwrap();
                        ensure_eq!(x.file_path(), path.as_path(), "file_path");
                        if *close {
                            x.close().map_err(|e| format!("close failed: {:?}", e))?;
                            let b = std::fs::read(&path).map_err(|e| e.to_string())?;
                            bytes_same(&b, &enc::canonical_file(&f.ds, f.version, f.min(), data))?;
                        } else {
                            drop(x);
                        }
                        log.push("finished".into());
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            Mach::R { r, f, data, ops, k, path, own, lose } => {
                *k += 1;
                match *k {
                    1 if *lose > 0 => {
                        std::fs::copy(&path, &own).map_err(|e| e.to_string())?;
                        *r = Some(FileReader::open(&own).map_err(|e| format!("open failed: {:?}", e))?);
                        std::fs::remove_file(&own).map_err(|e| e.to_string())?;
                        if *lose > 1 {
                            // another file takes the path
                            std::fs::write(&own, vec![0x5au8; 300]).map_err(|e| e.to_string())?;
                        }
                        log.push("opened".into());
                    }
                    1 => {
                        *r = Some(FileReader::open(&path).map_err(|e| format!("open failed: {:?}", e))?);
                        log.push("opened".into());
                    }
                    n if n - 2 < ops.len() => {
                        do_read(r.as_mut().unwrap(), &f.ds, data, &ops[n - 2])?;
                        log.push(format!("{:?}", n));
                    }
                    _ => {
                        let (d, v) = r.take().unwrap().close();
                        same(&d, &f.ds)?;
                        log.push(format!("{:?}", v));
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            Mach::D { ds, m, h, k } => {
                if *k == h.ops.len() {
                    check_getters(ds, m, &h.names)?;
                    return Ok(false);
                }
                let nm = Names(h.names.clone());
                let op = &h.ops[*k];
                let adm = conditions(m, op, &nm);
                match real_apply(ds, op, &nm)? {
                    Ok(_) => {
                        ensure!(adm.is_empty() || rename_to_itself(op, &nm), "{:?} succeeded although {:?}", op, adm);
                        model_apply(m, op, &nm);
                        log.push("ok".into());
                    }
                    Err(e) => {
                        ensure!(!adm.is_empty(), "{:?} failed with {:?}", op, e);
                        log.push(format!("{:?}", e));
                    }
                }
                same(ds, m)?;
                *k += 1;
                Ok(true)
            }
        }
    }
}

fn outputs(dir: &Path, n: usize) -> Result<Vec<Option<Vec<u8>>>, String> {
    Ok((0..n).map(|i| std::fs::read(dir.join(format!("w{}.nc", i))).ok()).collect())
}

fn c23_check(c: &C23, cx: &mut Cx) -> Chk {
    let mut files = c.files.clone();
    if c.twin && files.len() > 1 {
        files[1] = twin(&files[0]);
    }
    let rdir = cx.dir.join("r");
    let base = cx.dir.clone();
    let mk = |n: &str| -> Result<PathBuf, String> {
        let d = base.join(n);
        std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
        Ok(d)
    };
    mk("r")?;
    for (k, f) in files.iter().enumerate() {
        let m = make(&f.ds, f.version, &f.values(), &c.lay);
        std::fs::write(rdir.join(format!("r{}.nc", k)), m.bytes).map_err(|e| e.to_string())?;
    }
    let nj = c.jobs.len();
    // alone
    let sdir = mk("solo")?;
    let mut solo: Vec<Log> = vec![];
    for (n, j) in c.jobs.iter().enumerate() {
        let dss: Vec<DataSet> = files.iter().map(|f| build(&f.ds)).collect::<Result<_, _>>()?;
        let mut m = Mach::new(j, n, &files, &dss, &rdir, &sdir);
        let mut log = vec![];
        while m.step(&mut log).map_err(|e| format!("job {} alone: {}", n, e))? {}
        solo.push(log);
    }
    let sbytes = outputs(&sdir, nj)?;
    // interleaved in one thread
    let idir = mk("inter")?;
    let dss: Vec<DataSet> = files.iter().map(|f| build(&f.ds)).collect::<Result<_, _>>()?;
    {
        let mut ms: Vec<Option<Mach>> =
            c.jobs.iter().enumerate().map(|(n, j)| Some(Mach::new(j, n, &files, &dss, &rdir, &idir))).collect();
        let mut logs: Vec<Log> = vec![vec![]; nj];
        let mut t = 0usize;
        let mut switches = 0;
        let mut last = usize::MAX;
        while ms.iter().any(|m| m.is_some()) {
            let live: Vec<usize> = (0..nj).filter(|i| ms[*i].is_some()).collect();
            let pick = if c.sched.is_empty() { t } else { c.sched[t % c.sched.len()] as usize };
            let n = live[pick % live.len()];
            t += 1;
            if n != last {
                switches += 1;
            }
            last = n;
            let more = ms[n].as_mut().unwrap().step(&mut logs[n]).map_err(|e| format!("job {} interleaved: {}", n, e))?;
            if !more {
                ms[n] = None;
            }
        }
        for n in 0..nj {
            ensure_eq!(logs[n], solo[n], "results of job {} interleaved", n);
        }
        cx.nontrivial(nj >= 2 && switches > nj);
    }
    for (n, (a, b)) in outputs(&idir, nj)?.iter().zip(sbytes.iter()).enumerate() {
        ensure!(a == b, "file written by job {} differs when interleaved", n);
    }
    // one thread per job
    if c.threads {
        cx.label("threads");
        let tdir = mk("thr")?;
        let barrier = std::sync::Barrier::new(nj);
        let res: Vec<Result<Log, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = c
                .jobs
                .iter()
                .enumerate()
                .map(|(n, j)| {
                    let (files, rdir, tdir, barrier) = (&files, &rdir, &tdir, &barrier);
                    s.spawn(move || -> Result<Log, String> {
                        let dss: Result<Vec<DataSet>, String> = files.iter().map(|f| build(&f.ds)).collect();
                        barrier.wait();
                        let dss = dss?;
                        let mut m = Mach::new(j, n, files, &dss, rdir, tdir);
                        let mut log = vec![];
                        while m.step(&mut log).map_err(|e| format!("job {} in its own thread: {}", n, e))? {}
                        Ok(log)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked in a thread".into()))).collect()
        });
        for (n, r) in res.into_iter().enumerate() {
            ensure_eq!(r?, solo[n], "results of job {} in its own thread", n);
        }
        for (n, (a, b)) in outputs(&tdir, nj)?.iter().zip(sbytes.iter()).enumerate() {
            ensure!(a == b, "file written by job {} differs when each job has its thread", n);
        }
    }
    cx.label_if(c.twin, "same names, other shapes");
    cx.label_if(c.jobs.iter().filter(|j| matches!(j, Job::Writer(..))).count() >= 2, "two writers");
    cx.label_if(c.jobs.iter().filter(|j| matches!(j, Job::Reader(..))).count() >= 2, "two readers");
    Ok(())
}

pub fn c23() -> Prop<C23> {
    Prop {
        id: "C23",
        rule: "2..5 jobs (writer histories on shared or separate data sets, readers of shared files, definition histories) run alone, interleaved call by call by a generated schedule, and one thread each; non-trivial: at least two jobs and more switches than jobs",
        strategy: |_| {
            let o = DsOpts { max_vars: 4, rich: false, min_vars: 1, max_chunk: 60, ..DsOpts::default() };
            let job = prop_oneof![
                3 => (0u8..4, vec(wcall(), 0..10), proptest::bool::weighted(0.8)).prop_map(|(f, o, c)| Job::Writer(f, o, c)),
                3 => (0u8..4, prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], prop_oneof![40 => vec(rd_op(), 1..10), 1 => vec(rd_op(), 10..80)])
                    .prop_map(|(f, l, o)| Job::Reader(f | l << 3, o)),
                2 => hist(any_dop(), true).prop_map(Job::Defs),
            ];
            let l = prop_oneof![1 => Just(Lay::plain()), 1 => lay()];
            (vec(file_case(o), 1..3), any::<bool>(), l, vec(job, 2..6), vec(any::<u8>(), 1..60), proptest::bool::weighted(0.4))
                .prop_map(|(files, twin, lay, jobs, sched, threads)| C23 { files, twin, lay, jobs, sched, threads })
                .boxed()
        },
        check: c23_check,
        fixed: no_fixed,
        quick: 24000,
        thorough: 1500000,
        workers: 4,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}
