//! C03 conforming files, C11 truncation, C12 read sequences, C13 indeterminate record count,
//! C10 hostile bytes, C19 header acceptance.
use crate::api::*;
use crate::enc;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::rw::file_labels;
use crate::{ensure, ensure_eq};
use netcdf3::{DataVector, FileReader, InvalidDataSet, ReadError};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::Path;

/// How a foreign writer may have laid out the file.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Lay {
    /// permutation seed for the order of the blocks (0: definition order)
    pub perm: u32,
    /// permutation seed of the record variables inside a record
    pub rperm: u32,
    /// gaps in words before each block
    pub gaps: Vec<u8>,
    /// content of padding and gaps
    pub junk: u32,
    /// vsize fields: None = regular, otherwise arbitrary legal values
    pub vsize: Option<u32>,
    /// trailing bytes after the data
    pub trail: u8,
    /// numrecs = STREAMING when the layout permits it
    pub streaming: bool,
    /// empty lists as tag + 0
    pub tagged: u8,
    /// numrecs stored when there is no unlimited dimension
    pub stray_numrecs: u32,
    /// the padding of the very last slab is missing
    pub short_end: bool,
}

impl Lay {
    pub fn plain() -> Lay {
        Lay {
            perm: 0,
            rperm: 0,
            gaps: vec![0],
            junk: 0,
            vsize: None,
            trail: 0,
            streaming: false,
            tagged: 0,
            stray_numrecs: 0,
            short_end: false,
        }
    }
}

pub fn lay() -> BoxedStrategy<Lay> {
    let perm = || prop_oneof![1 => Just(0u32), 2 => 1u32..10000];
    let gaps = prop_oneof![1 => Just(vec![0u8]), 3 => vec(prop_oneof![3 => Just(0u8), 3 => 1u8..6, 1 => 6u8..250], 1..5)];
    let vs = prop_oneof![2 => Just(None), 2 => any::<u32>().prop_map(Some)];
    (
        (perm(), perm(), gaps, any::<u32>(), vs),
        (prop_oneof![2 => Just(0u8), 1 => 1u8..40], proptest::bool::weighted(0.2), prop_oneof![3 => Just(0u8), 1 => 0u8..16]),
        (prop_oneof![3 => Just(0u32), 1 => 0u32..=(i32::MAX as u32)], proptest::bool::weighted(0.2)),
    )
        .prop_map(|((perm, rperm, gaps, junk, vsize), (trail, streaming, tagged), (stray_numrecs, short_end))| Lay {
            perm,
            rperm,
            gaps,
            junk,
            vsize,
            trail,
            streaming,
            tagged,
            stray_numrecs,
            short_end,
        })
        .boxed()
}

pub struct Made {
    pub bytes: Vec<u8>,
    pub header_len: usize,
    pub begins: Vec<usize>,
    pub stride: usize,
    pub rec_start: usize,
    pub streaming: bool,
}

impl Made {
    /// file range of the values of one chunk
    pub fn range(&self, ds: &MDs, var: usize, rec: usize) -> std::ops::Range<usize> {
        let v = &ds.vars[var];
        let p = self.begins[var] + if ds.is_rec(v) { rec * self.stride } else { 0 };
        p..p + ds.raw(v)
    }
}

fn shuffle<T>(v: &mut Vec<T>, seed: u32) {
    if seed == 0 {
        return;
    }
    let mut s = seed as u64;
    for i in (1..v.len()).rev() {
        let j = (splitmix(&mut s) % (i as u64 + 1)) as usize;
        v.swap(i, j);
    }
}

/// Reference encoder with a free data layout.
pub fn make(ds: &MDs, version: u8, data: &[Vals], l: &Lay) -> Made {
    let hl = enc::header_len(ds, version);
    let packed = ds.packed();
    let stride = ds.stride();
    let nrec = ds.num_records().unwrap_or(0);
    let recs = ds.rec_vars();
    // blocks: Some(i) fixed variable i, None the records
    let mut blocks: Vec<Option<usize>> = (0..ds.vars.len()).filter(|i| !ds.is_rec(&ds.vars[*i])).map(Some).collect();
    if !recs.is_empty() {
        blocks.push(None);
    }
    shuffle(&mut blocks, l.perm);
    let mut begins = vec![0usize; ds.vars.len()];
    let mut pos = hl;
    let mut rec_start = 0;
    let mut last_raw_end = hl;
    let mut g = 0usize;
    let mut rec_order = recs.clone();
    shuffle(&mut rec_order, l.rperm);
    let mut rec_last = false;
    for b in blocks.iter() {
        pos += 4 * l.gaps[g % l.gaps.len()] as usize;
        g += 1;
        rec_last = false;
        match b {
            Some(i) => {
                begins[*i] = pos;
                last_raw_end = pos + ds.raw(&ds.vars[*i]);
                pos += ds.vsize(&ds.vars[*i]);
            }
            None => {
                rec_start = pos;
                let mut p = pos;
                for i in rec_order.iter() {
                    begins[*i] = p;
                    if nrec > 0 {
                        last_raw_end = p + (nrec - 1) * stride + ds.raw(&ds.vars[*i]);
                    }
                    p += ds.vsize(&ds.vars[*i]);
                }
                pos = rec_start + nrec * stride;
                if nrec == 0 {
                    last_raw_end = pos;
                }
                rec_last = true;
                // keep what follows on a word boundary
                if packed {
                    pos += enc::pad4(pos);
                }
            }
        }
    }
    let end_of_recs = rec_start + nrec * stride;
    let streaming = l.streaming && rec_last;
    let mut end = pos;
    if streaming {
        end = end_of_recs;
    } else if l.short_end {
        end = last_raw_end;
    } else {
        end += l.trail as usize;
    }
    let mut s = l.junk as u64;
    let numrecs = if ds.unlim().is_none() {
        l.stray_numrecs
    } else if streaming {
        u32::MAX
    } else {
        nrec as u32
    };
    let vs: Vec<u32> = ds
        .vars
        .iter()
        .map(|v| match l.vsize {
            None => enc::vsize_field(ds, v),
            Some(_) => {
                let r = splitmix(&mut s);
                match r % 4 {
                    0 => 0,
                    1 => u32::MAX,
                    2 => (r >> 33) as u32 % 64,
                    _ => ((r >> 33) as u32) & 0x7fff_ffff,
                }
            }
        })
        .collect();
    let bs: Vec<u64> = begins.iter().map(|b| *b as u64).collect();
    let mut f = enc::header_opt(ds, version, numrecs, &vs, &bs, l.tagged);
    debug_assert_eq!(f.len(), hl);
    while f.len() < end {
        let r = if l.junk == 0 { 0 } else { splitmix(&mut s) };
        f.extend_from_slice(&r.to_be_bytes());
    }
    f.truncate(std::cmp::max(end, hl));
    let made = Made { bytes: vec![], header_len: hl, begins, stride, rec_start, streaming };
    for (i, v) in ds.vars.iter().enumerate() {
        let raw = ds.raw(v);
        let b = data[i].be_bytes();
        for r in 0..ds.nrec(v) {
            let rg = made.range(ds, i, r);
            f[rg].copy_from_slice(&b[r * raw..(r + 1) * raw]);
        }
    }
    Made { bytes: f, ..made }
}

fn lay_labels(cx: &mut Cx, l: &Lay, made: &Made) {
    cx.label_if(l.perm > 0, "blocks permuted");
    cx.label_if(l.rperm > 0, "record variables permuted");
    cx.label_if(l.gaps.iter().any(|g| *g > 0), "gaps");
    cx.label_if(l.vsize.is_some(), "arbitrary vsize fields");
    cx.label_if(l.trail > 0, "trailing bytes");
    cx.label_if(made.streaming, "indeterminate numrecs");
    cx.label_if(l.tagged > 0, "empty lists with a tag");
    cx.label_if(l.short_end, "final padding missing");
}

// ------------------------------------------------------------------ C03

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C03 {
    f: FileCase,
    lay: Lay,
}

fn c03_check(c: &C03, cx: &mut Cx) -> Chk {
    let ds = &c.f.ds;
    let data = c.f.values();
    let made = make(ds, c.f.version, &data, &c.lay);
    file_labels(cx, ds, c.f.version);
    lay_labels(cx, &c.lay, &made);
    cx.nontrivial(!ds.vars.is_empty() && data.iter().any(|d| d.len() > 0));
    let p = cx.path();
    std::fs::write(&p, &made.bytes).map_err(|e| e.to_string())?;
    check_read_back(&p, c.f.version, ds, &data)?;
    // record reads as well
    let mut r = FileReader::open(&p).map_err(|e| format!("open failed: {:?}", e))?;
    for (i, v) in ds.vars.iter().enumerate().rev() {
        let cl = ds.chunk_len(v);
        for k in (0..ds.nrec(v)).rev() {
            let g = read_record(&mut r, &v.name, k).map_err(|e| format!("read_record({:?},{}): {:?}", v.name, k, e))?;
            ensure_eq!(g, slice_rec(&data[i], cl, k), "record {} of {:?}", k, v.name);
        }
    }
    Ok(())
}

pub fn c03() -> Prop<C03> {
    Prop {
        id: "C03",
        rule: "files made by the reference encoder with free layout: gaps, permuted placement, junk padding, arbitrary vsize, trailing bytes, missing final padding, indeterminate numrecs, empty lists as tag+0; non-trivial: at least one variable with data",
        strategy: |_| (file_case(DsOpts::default()), lay()).prop_map(|(f, lay)| C03 { f, lay }).boxed(),
        check: c03_check,
        fixed: |t| {
            crowded_cases(t)
                .into_iter()
                .enumerate()
                .map(|(i, f)| {
                    let i = i as u32;
                    // in turn: as a writer would place them, with gaps, in another order
                    let (perm, rperm) = if i % 3 == 2 { (11 + i, 5 + i) } else { (0, 0) };
                    let gaps = if i % 3 == 0 { vec![0] } else { vec![0, 1, 0, 3] };
                    C03 { f, lay: Lay { perm, rperm, gaps, junk: i, ..Lay::plain() } }
                })
                .collect()
        },
        quick: 144000,
        thorough: 9000000,
        workers: 8,
        case_timeout: 600,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C11

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C11 {
    f: FileCase,
    lay: Lay,
    seed: u32,
}

/// `got` must be an error or exactly `exp`; exactly `exp` when `need` bytes are present.
fn truncated(got: Result<Vals, ReadError>, exp: &Vals, complete: bool, what: &str) -> Chk {
    match got {
        Ok(v) => ensure!(v == *exp, "{} returned wrong data {} instead of {}", what, short_pub(&v), short_pub(exp)),
        Err(e) => ensure!(!complete, "{} failed with {:?} although all its bytes are present", what, e),
    }
    Ok(())
}

fn c11_check(c: &C11, cx: &mut Cx) -> Chk {
    let ds = &c.f.ds;
    let data = c.f.values();
    let made = make(ds, c.f.version, &data, &c.lay);
    file_labels(cx, ds, c.f.version);
    let len = made.bytes.len();
    cx.nontrivial(!ds.vars.is_empty() && data.iter().any(|d| d.len() > 0));
    // cut points
    let mut cuts: Vec<usize> = if len <= 1500 {
        (0..=len).collect()
    } else {
        let mut v = vec![0, 1, 2, 3, 4, 5, 7, 8, 12, len, len - 1];
        let mut s = c.seed as u64;
        let (w, rnd) = if len > 20000 { (1i64, 6) } else { (3i64, 100) };
        let step = 1 + ds.vars.len() / 8;
        for d in -w..=w {
            for b in [1024i64, 2048, 4096, made.header_len as i64, made.rec_start as i64] {
                v.push((b + d).max(0) as usize);
            }
            for (i, var) in ds.vars.iter().enumerate().step_by(step) {
                let n = ds.nrec(var);
                for r in [0, n / 2, n.saturating_sub(1)] {
                    if r < n {
                        let g = made.range(ds, i, r);
                        v.push((g.start as i64 + d).max(0) as usize);
                        v.push((g.end as i64 + d).max(0) as usize);
                    }
                }
            }
        }
        for _ in 0..rnd {
            v.push((splitmix(&mut s) % (len as u64)) as usize);
        }
        v.retain(|x| *x <= len);
        v
    };
    cuts.sort();
    cuts.dedup();
    let p = cx.path();
    std::fs::write(&p, &made.bytes).map_err(|e| e.to_string())?;
    let f = std::fs::OpenOptions::new().write(true).open(&p).map_err(|e| e.to_string())?;
    cx.evals(cuts.len() as u64);
    for cut in cuts.into_iter().rev() {
        f.set_len(cut as u64).map_err(|e| e.to_string())?;
        let r = FileReader::open(&p);
        if cut < made.header_len {
            match r {
                Ok(_) => return Err(format!("cut {} of a {} byte header: the file was opened", cut, made.header_len)),
                Err(e) => ensure!(
                    e.header_is_incomplete(),
                    "cut {} of a {} byte header: error {:?} does not say that the header is incomplete",
                    cut,
                    made.header_len,
                    e
                ),
            }
            continue;
        }
        let mut r = match r {
            Ok(r) => r,
            Err(e) => return Err(format!("cut {} after the {} byte header: {:?}", cut, made.header_len, e)),
        };
        same(r.data_set(), ds).map_err(|e| format!("cut {}: {}", cut, e))?;
        ensure_eq!(ver_num(&r.version()), c.f.version, "cut {}: version", cut);
        for (i, v) in ds.vars.iter().enumerate() {
            let n = ds.nrec(v);
            let ok = |k: usize| made.range(ds, i, k).end <= cut;
            let all = (0..n).all(|k| ok(k));
            let w = format!("cut {}: read_var({:?})", cut, v.name);
            truncated(read_var(&mut r, &v.name), &data[i], all, &w)?;
            let cl = ds.chunk_len(v);
            let probe: Vec<usize> = if n <= 4 { (0..n).collect() } else { vec![0, n / 2, n - 2, n - 1] };
            for k in probe {
                let w = format!("cut {}: read_record({:?},{})", cut, v.name, k);
                truncated(read_record(&mut r, &v.name, k), &slice_rec(&data[i], cl, k), ok(k), &w)?;
            }
        }
        let all_ok =
            ds.vars.iter().enumerate().all(|(i, v)| (0..ds.nrec(v)).all(|k| made.range(ds, i, k).end <= cut));
        match r.read_all_vars() {
            Ok(m) => {
                ensure_eq!(m.len(), ds.vars.len(), "cut {}: read_all_vars", cut);
                for (i, v) in ds.vars.iter().enumerate() {
                    let g = m.get(&v.name).map(from_dv);
                    ensure!(g.as_ref() == Some(&data[i]), "cut {}: read_all_vars returned wrong data of {:?}", cut, v.name);
                }
            }
            Err(e) => ensure!(!all_ok, "cut {}: read_all_vars failed with {:?} although all data is present", cut, e),
        }
    }
    Ok(())
}

pub fn c11() -> Prop<C11> {
    Prop {
        id: "C11",
        rule: "every cut point of small files (sampled plus all boundaries above 1500 bytes), canonical and free layouts; non-trivial: the file has data; inner executions = cut points",
        strategy: |_| {
            let o = DsOpts { max_vars: 4, max_chunk: 40, special: 2, ..DsOpts::default() };
            let l = prop_oneof![2 => Just(Lay::plain()), 1 => lay()];
            (file_case(o), l, any::<u32>())
                .prop_map(|(f, mut lay, seed)| {
                    lay.streaming = false;
                    C11 { f, lay, seed }
                })
                .boxed()
        },
        check: c11_check,
        fixed: no_fixed,
        quick: 9600,
        thorough: 600000,
        workers: 8,
        case_timeout: 120,
        level: "exploration",
        raw: None,
        exhaustive_note: "all cut points of each generated file up to 1500 bytes",
    }
}

// ------------------------------------------------------------------ C12

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum RdOp {
    Var(u16),
    VarTyped(u16, Option<Ty>),
    Rec(u16, u16),
    RecTyped(u16, u16, Option<Ty>),
    All,
    Def,
}

pub fn rd_op() -> BoxedStrategy<RdOp> {
    let t = || prop_oneof![2 => Just(None), 1 => ty().prop_map(Some)];
    prop_oneof![
        4 => any::<u16>().prop_map(RdOp::Var),
        4 => (any::<u16>(), t()).prop_map(|(v, t)| RdOp::VarTyped(v, t)),
        6 => (any::<u16>(), any::<u16>()).prop_map(|(v, r)| RdOp::Rec(v, r)),
        6 => (any::<u16>(), any::<u16>(), t()).prop_map(|(v, r, t)| RdOp::RecTyped(v, r, t)),
        1 => Just(RdOp::All),
        1 => Just(RdOp::Def),
    ]
    .boxed()
}

/// Index of a variable, or None for an unknown name.
pub fn pick_var(ds: &MDs, v: u16) -> (String, Option<usize>) {
    let n = ds.vars.len();
    let k = v as usize % (n * 3 + 1);
    if k < n * 3 {
        return (ds.vars[k / 3].name.clone(), Some(k / 3));
    }
    let cands: Vec<String> = vec![
        "no_such_variable".into(),
        String::new(),
        ds.vars.first().map_or("v".into(), |x| format!("{}x", x.name)),
        ds.vars.last().map_or("v ".into(), |x| {
            let mut s = x.name.clone();
            s.pop();
            s
        }),
        ds.vars.first().map_or("V".into(), |x| x.name.to_uppercase()),
        ds.dims.first().map_or("dim".into(), |x| x.name.clone()),
        ds.gattrs.first().map_or("attr".into(), |x| x.name.clone()),
    ];
    let name = cands[(v as usize / 7) % cands.len()].clone();
    let idx = ds.vars.iter().position(|x| x.name == name);
    (name, idx)
}

/// Record index: usually valid, sometimes just outside or far away.
pub fn pick_rec(n: usize, r: u16) -> usize {
    match r % 10 {
        0 => n,
        1 => n + 1 + (r as usize / 10) % 5,
        2 if r % 50 == 2 => usize::MAX,
        3 if r % 50 == 3 => usize::MAX / 2 + 1,
        4 if r % 40 == 4 => 1 << 32,
        _ => {
            if n == 0 {
                0
            } else {
                (r as usize / 10) % n
            }
        }
    }
}

pub fn read_errors(ds: &MDs, name: &str, v: Option<usize>, ty: Option<Ty>, idx: Option<usize>) -> Vec<ReadError> {
    let mut a = vec![];
    match v {
        None => a.push(ReadError::VariableNotDefined(name.to_string())),
        Some(i) => {
            let mv = &ds.vars[i];
            if let Some(t) = ty {
                if t != mv.ty {
                    a.push(ReadError::VariableMismatchDataType { var_name: name.to_string(), req: dt(mv.ty), get: dt(t) });
                }
            }
            if let Some(k) = idx {
                let n = ds.nrec(mv);
                if k >= n {
                    a.push(ReadError::RecordIndexExceeded { index: k, num_records: n });
                }
            }
        }
    }
    a
}

pub fn expect(got: Result<Vals, ReadError>, adm: &[ReadError], exp: impl FnOnce() -> Vals, what: &str) -> Chk {
    match got {
        Ok(v) => {
            ensure!(adm.is_empty(), "{} succeeded although {:?}", what, adm);
            let e = exp();
            ensure!(v == e, "{} returned {} instead of {}", what, short_pub(&v), short_pub(&e));
        }
        Err(e) => {
            ensure!(!adm.is_empty(), "{} failed with {:?}", what, e);
            ensure!(adm.contains(&e), "{} failed with {:?}, conditions that hold: {:?}", what, e, adm);
        }
    }
    Ok(())
}

pub fn do_read(r: &mut FileReader, ds: &MDs, data: &[Vals], op: &RdOp) -> Chk {
    match op {
        RdOp::Var(v) => {
            let (n, i) = pick_var(ds, *v);
            let a = read_errors(ds, &n, i, None, None);
            expect(read_var(r, &n), &a, || data[i.unwrap()].clone(), &format!("read_var({:?})", n))
        }
        RdOp::VarTyped(v, t) => {
            let (n, i) = pick_var(ds, *v);
            let t = t.or(i.map(|i| ds.vars[i].ty)).unwrap_or(Ty::I8);
            let a = read_errors(ds, &n, i, Some(t), None);
            expect(read_var_typed(r, &n, t), &a, || data[i.unwrap()].clone(), &format!("read_var_{:?}({:?})", t, n))
        }
        RdOp::Rec(v, k) => {
            let (n, i) = pick_var(ds, *v);
            let k = pick_rec(i.map_or(1, |i| ds.nrec(&ds.vars[i])), *k);
            let a = read_errors(ds, &n, i, None, Some(k));
            let e = || slice_rec(&data[i.unwrap()], ds.chunk_len(&ds.vars[i.unwrap()]), k);
            expect(read_record(r, &n, k), &a, e, &format!("read_record({:?},{})", n, k))
        }
        RdOp::RecTyped(v, k, t) => {
            let (n, i) = pick_var(ds, *v);
            let k = pick_rec(i.map_or(1, |i| ds.nrec(&ds.vars[i])), *k);
            let t = t.or(i.map(|i| ds.vars[i].ty)).unwrap_or(Ty::I8);
            let a = read_errors(ds, &n, i, Some(t), Some(k));
            let e = || slice_rec(&data[i.unwrap()], ds.chunk_len(&ds.vars[i.unwrap()]), k);
            expect(read_record_typed(r, &n, k, t), &a, e, &format!("read_record_{:?}({:?},{})", t, n, k))
        }
        RdOp::All => {
            let m = r.read_all_vars().map_err(|e| format!("read_all_vars failed: {:?}", e))?;
            ensure_eq!(m.len(), ds.vars.len(), "number of variables of read_all_vars");
            for (i, v) in ds.vars.iter().enumerate() {
                let g: Option<Vals> = m.get(&v.name).map(|d: &DataVector| from_dv(d));
                ensure!(g.as_ref() == Some(&data[i]), "read_all_vars: data of {:?} differ", v.name);
            }
            Ok(())
        }
        RdOp::Def => same(r.data_set(), ds),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C12 {
    f: FileCase,
    lay: Lay,
    ops: Vec<RdOp>,
}

fn c12_check(c: &C12, cx: &mut Cx) -> Chk {
    let ds = &c.f.ds;
    let data = c.f.values();
    let made = make(ds, c.f.version, &data, &c.lay);
    file_labels(cx, ds, c.f.version);
    cx.nontrivial(!ds.vars.is_empty() && c.ops.len() >= 2);
    let p = cx.path();
    std::fs::write(&p, &made.bytes).map_err(|e| e.to_string())?;
    let mut r = FileReader::open(&p).map_err(|e| format!("open failed: {:?}", e))?;
    for (k, op) in c.ops.iter().enumerate() {
        do_read(&mut r, ds, &data, op).map_err(|e| format!("step {}: {}", k, e))?;
    }
    do_read(&mut r, ds, &data, &RdOp::All)?;
    let (d, v) = r.close();
    ensure_eq!(ver_num(&v), c.f.version, "version");
    same(&d, ds)
}

pub fn c12() -> Prop<C12> {
    Prop {
        id: "C12",
        rule: "read sequences (whole, typed, record, typed record, all; unknown names, other types, indices outside) over free layouts; non-trivial: a variable and at least two reads",
        strategy: |_| {
            let o = DsOpts { max_vars: 5, rich: false, ..DsOpts::default() };
            let l = prop_oneof![1 => Just(Lay::plain()), 1 => lay()];
            (file_case(o), l, prop_oneof![100 => vec(rd_op(), 1..25), 1 => vec(rd_op(), 25..300)]).prop_map(|(f, lay, ops)| C12 { f, lay, ops }).boxed()
        },
        check: c12_check,
        fixed: no_fixed,
        quick: 144000,
        thorough: 9000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C13

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C13 {
    f: FileCase,
    lay: Lay,
    /// change of the file length relative to the whole records
    delta: i32,
    /// a sparse file with a data part of about this size, and this many bytes beyond whole records
    #[serde(default)]
    sparse: Option<(u64, u16)>,
}

/// The count of records in a sparse file much larger than what is stored in it.
fn c13_sparse(c: &C13, m: &Made, start: usize, size: u64, odd: u16, cx: &mut Cx) -> Chk {
    let ds = &c.f.ds;
    let stride = ds.stride() as u64;
    let whole = m.bytes.len().saturating_sub(start) as u64 / stride;
    let n = (size / stride).max(whole);
    let odd = odd as u64 % stride;
    let q = cx.path();
    std::fs::write(&q, &m.bytes[..start + (whole * stride) as usize]).map_err(|e| e.to_string())?;
    let f = std::fs::OpenOptions::new().write(true).open(&q).map_err(|e| e.to_string())?;
    if f.set_len(start as u64 + n * stride + odd).is_err() {
        cx.label("no room for a sparse file");
        return Ok(());
    }
    drop(f);
    cx.label("sparse data part beyond 2^24 bytes");
    cx.label_if(n > u32::MAX as u64, "more than 2^32 records");
    let r = FileReader::open(&q);
    if odd != 0 {
        cx.label("partial record at the end of a sparse file");
        ensure!(r.is_err(), "{} records of {} bytes and {} bytes: opened with {:?} records", n, stride, odd, r.unwrap().data_set().num_records());
        return Ok(());
    }
    let mut r = r.map_err(|e| format!("{} records of {} bytes in a sparse file: open failed: {:?}", n, stride, e))?;
    ensure_eq!(r.data_set().num_records(), Some(n as usize), "records of {} bytes in a sparse file", stride);
    let (whole, n) = (whole as usize, n as usize);
    let (e, exp) = seen(ds, ds.unlim().unwrap(), whole, m);
    for (i, v) in e.vars.iter().enumerate().filter(|(_, v)| e.is_rec(v)) {
        for k in [0, whole.saturating_sub(1), whole, n / 2, n - 1, n] {
            let a = read_errors(&e_with(&e, n), &v.name, Some(i), None, Some(k));
            let x = || if k < whole { slice_rec(&exp[i], e.chunk_len(v), k) } else { Vals::from_be(v.ty, &vec![0; e.chunk_len(v) * v.ty.size()]) };
            expect(read_record(&mut r, &v.name, k), &a, x, &format!("read_record({:?},{}) in a sparse file of {} records", v.name, k, n))?;
        }
    }
    let _ = std::fs::remove_file(&q);
    Ok(())
}

fn e_with(e: &MDs, n: usize) -> MDs {
    let mut e = e.clone();
    let u = e.unlim().unwrap();
    e.dims[u].size = n;
    e
}

/// The definition with n records, and the data that the bytes hold for it.
fn seen(ds: &MDs, un: usize, n: usize, m: &Made) -> (MDs, Vec<Vals>) {
    let mut e = ds.clone();
    e.dims[un].size = n;
    let exp = e
        .vars
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let mut b = vec![];
            for r in 0..e.nrec(v) {
                b.extend_from_slice(&m.bytes[m.range(&e, i, r)]);
            }
            Vals::from_be(v.ty, &b)
        })
        .collect();
    (e, exp)
}

fn c13_check(c: &C13, cx: &mut Cx) -> Chk {
    let ds = &c.f.ds;
    let data = c.f.values();
    let un = ds.unlim();
    let recs = ds.rec_vars();
    let mut l = c.lay.clone();
    l.perm = 0; // the records come last
    l.streaming = false;
    l.short_end = false;
    l.trail = 0;
    let stored = make(ds, c.f.version, &data, &l);
    l.streaming = true;
    let mut m = make(ds, c.f.version, &data, &l);
    if un.is_some() {
        m.bytes[4..8].copy_from_slice(&u32::MAX.to_be_bytes());
    }
    let p = cx.path();
    if recs.is_empty() {
        // STREAMING with no record variable: zero records (or no unlimited dimension at all)
        m.bytes[4..8].copy_from_slice(&u32::MAX.to_be_bytes());
        let n = (m.bytes.len() as i64 + c.delta.max(0) as i64) as usize;
        m.bytes.resize(n, 7);
        let mut e = ds.clone();
        if let Some(u) = un {
            e.dims[u].size = 0;
            cx.label("no record variable");
        } else {
            cx.label("no unlimited dimension");
        }
        std::fs::write(&p, &m.bytes).map_err(|e| e.to_string())?;
        return check_read_back(&p, c.f.version, &e, &data);
    }
    let base = m.bytes.len() as i64;
    let target = (base + c.delta as i64).max(m.header_len as i64) as usize;
    let mut s = c.lay.junk as u64;
    while m.bytes.len() < target {
        m.bytes.push(splitmix(&mut s) as u8);
    }
    m.bytes.truncate(target);
    let start = recs.iter().map(|i| m.begins[*i]).min().unwrap();
    let stride = ds.stride();
    if target >= start {
        // a stored count is used as it is, whatever the file holds after those records
        let avail = (target - start) / stride;
        let k = splitmix(&mut s) as usize % (avail + 1);
        let k = if splitmix(&mut s) % 3 == 0 { 0 } else { k };
        let mut b = m.bytes.clone();
        b[4..8].copy_from_slice(&(k as u32).to_be_bytes());
        let q = cx.path();
        std::fs::write(&q, &b).map_err(|e| e.to_string())?;
        let (e, exp) = seen(ds, un.unwrap(), k, &m);
        cx.label_if(k == 0 && avail > 0, "stored count of zero in front of records");
        cx.label_if(k > 0 && k < avail, "stored count below the records of the file");
        check_read_back(&q, c.f.version, &e, &exp).map_err(|e| format!("with the stored record count {}: {}", k, e))?;
        let _ = std::fs::remove_file(&q);
    }
    if let (Some((size, odd)), true) = (c.sparse, target >= start) {
        c13_sparse(c, &m, start, size, odd, cx)?;
    }
    std::fs::write(&p, &m.bytes).map_err(|e| e.to_string())?;
    cx.nontrivial(true);
    if target < start || (target - start) % stride != 0 {
        cx.label(if target < start { "data part missing" } else { "partial record" });
        return match FileReader::open(&p) {
            Ok(r) => Err(format!(
                "file of {} bytes, records of {} bytes from {}: opened with {:?} records",
                target,
                stride,
                start,
                r.data_set().num_records()
            )),
            Err(e) => {
                ensure!(!e.header_is_incomplete(), "partial records reported as an incomplete header");
                Ok(())
            }
        };
    }
    let n = (target - start) / stride;
    cx.label_if(n == 0, "zero records");
    cx.label_if(n > ds.num_records().unwrap(), "more records than generated");
    cx.label_if(n < ds.num_records().unwrap(), "fewer records than generated");
    cx.label_if(ds.packed(), "packed lone record variable");
    let (e, exp) = seen(ds, un.unwrap(), n, &m);
    check_read_back(&p, c.f.version, &e, &exp)?;
    let mut r = FileReader::open(&p).map_err(|e| format!("open failed: {:?}", e))?;
    for (i, v) in e.vars.iter().enumerate() {
        for k in [0, n / 2, n.saturating_sub(1), n, n + 1] {
            let a = read_errors(&e, &v.name, Some(i), None, Some(k));
            let x = || slice_rec(&exp[i], e.chunk_len(v), k);
            expect(read_record(&mut r, &v.name, k), &a, x, &format!("read_record({:?},{})", v.name, k))?;
        }
    }
    if c.delta == 0 {
        // same as with the stored count
        let q = cx.path();
        std::fs::write(&q, &stored.bytes).map_err(|e| e.to_string())?;
        check_read_back(&q, c.f.version, ds, &data)?;
    }
    Ok(())
}

pub fn c13() -> Prop<C13> {
    Prop {
        id: "C13",
        rule: "files with numrecs = 2^32-1 whose length is the whole records plus/minus some bytes or records; non-trivial: there are record variables",
        strategy: |_| {
            let o = DsOpts { unlim_w: 9, ..DsOpts::default() };
            (file_case(o), lay(), prop_oneof![3 => Just(0i32), 3 => -40i32..60, 3 => -4000i32..4000, 4 => (0u8..60).prop_map(|k| 1_000_000 + k as i32)], proptest::option::weighted(0.1, (24u32..43, any::<u64>(), prop_oneof![2 => Just(0u16), 1 => 1u16..2000])))
                .prop_map(|(f, lay, delta, sparse)| {
                    // codes >= 1_000_000: whole records more or fewer
                    let st = f.ds.stride() as i32;
                    let n = f.ds.num_records().unwrap_or(0) as i32;
                    let delta = if delta >= 1_000_000 {
                        let k = (delta - 1_000_000) % (n + 4) - n;
                        k * st
                    } else {
                        delta
                    };
                    C13 { f, lay, delta, sparse: sparse.map(|(p, r, o)| ((1u64 << p) + r % (1u64 << p), o)) }
                })
                .boxed()
        },
        check: c13_check,
        fixed: no_fixed,
        quick: 144000,
        thorough: 9000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C19 / C10 mutations

/// Edits of the model that make it illegal (or keep it legal by chance).
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum AstMut {
    DupDim(u16, u16),
    DupVar(u16, u16),
    DupGattr(u16, u16),
    DupVattr(u16),
    DimName(u16, String),
    VarName(u16, String),
    GattrName(u16, String),
    VattrName(u16, String),
    /// second unlimited dimension, or a fixed one becomes unlimited
    Unlim(u16),
    DimSize(u16, u32),
    /// dimension id of a variable: position, new id
    DimId(u16, u16, u16),
    PushDim(u16, u16),
    SwapDims(u16, u16, u16),
    /// a variable with so many dimensions in all
    Wide(u16, u16),
    /// so many more dimensions (0), variables (1), global attributes (2), attributes (3)
    Many(u8, u16, u16),
}

/// Edits of the header bytes.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum ByteMut {
    Set(u32, u8),
    Flip(u32, u8),
    /// word at a word-aligned position
    Word(u32, u32),
    Add(u32, i8),
    Insert(u32, Vec<u8>),
    Delete(u32, u8),
    Truncate(u32),
    Append(Vec<u8>),
    /// copy n words from a to b
    Copy(u32, u32, u8),
    /// other bytes in one of the paddings: which, how, what
    Pad(u16, u8, u8),
    /// other bytes in one of the names: which, where, what
    Name(u16, u16, Vec<u8>),
    /// another word (or the word changed by xor) in one of the fields of a kind
    Field(u8, u16, u32, bool),
}

/// What does not belong into a name, at least not everywhere.
fn name_bytes() -> BoxedStrategy<Vec<u8>> {
    let seq: Vec<&[u8]> = vec![
        b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf",
        b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"/", b"\0", b" ", b"\t", b"\n", b"\x1f", b"\x7f",
        b"_", b"@", b"+", b"0", b"-", b".", b"~", b"!", b"\xc2\x80", b"\xc2\xa0", b"\xc3\xa9", b"e\xcc\x81", b"\xef\xbf\xbf", b"\xef\xbb\xbf", b"\xe2\x80\xa8", b"\xf0\x90\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xe0\xa0\x80", b"\xed\x9f\xbf", b"\xee\x80\x80",
    ];
    select(seq.into_iter().map(|x| x.to_vec()).collect::<Vec<_>>()).boxed()
}

pub fn ast_mut() -> BoxedStrategy<AstMut> {
    let u = || any::<u16>();
    let n = || prop_oneof![4 => 5u16..40, 2 => 40u16..300, 1 => 300u16..1000];
    let small = prop_oneof![
        2 => (u(), u()).prop_map(|(a, b)| AstMut::DupDim(a, b)),
        3 => (u(), u()).prop_map(|(a, b)| AstMut::DupVar(a, b)),
        2 => (u(), u()).prop_map(|(a, b)| AstMut::DupGattr(a, b)),
        2 => u().prop_map(AstMut::DupVattr),
        1 => (u(), any_name()).prop_map(|(a, b)| AstMut::DimName(a, b)),
        1 => (u(), any_name()).prop_map(|(a, b)| AstMut::VarName(a, b)),
        1 => (u(), any_name()).prop_map(|(a, b)| AstMut::GattrName(a, b)),
        1 => (u(), any_name()).prop_map(|(a, b)| AstMut::VattrName(a, b)),
        2 => u().prop_map(AstMut::Unlim),
        2 => (u(), select(vec![0u32, 1, i32::MAX as u32 - 4, i32::MAX as u32 - 3, i32::MAX as u32 - 2, i32::MAX as u32, 1 << 31, u32::MAX])).prop_map(|(a, b)| AstMut::DimSize(a, b)),
        3 => (u(), u(), u()).prop_map(|(a, b, c)| AstMut::DimId(a, b, c)),
        2 => (u(), u()).prop_map(|(a, b)| AstMut::PushDim(a, b)),
        2 => (u(), u(), u()).prop_map(|(a, b, c)| AstMut::SwapDims(a, b, c)),
    ];
    prop_oneof![
        600 => small,
        1 => (u(), prop_oneof![2 => 1020u16..1030, 1 => 250u16..260]).prop_map(|(a, n)| AstMut::Wide(a, n)),
        8 => (0u8..4, u(), n()).prop_map(|(k, a, n)| AstMut::Many(k, a, n)),
    ]
    .boxed()
}

pub fn byte_mut() -> BoxedStrategy<ByteMut> {
    let p = || any::<u32>();
    let w = prop_oneof![
        4 => 0u32..16,
        3 => select(vec![i32::MAX as u32, i32::MAX as u32 - 1, 1u32 << 31, u32::MAX, u32::MAX - 1, 1 << 24, 1 << 16, 1 << 28, 0x4000_0000, 0x2000_0000, 0x1000_0000]),
        1 => any::<u32>(),
    ];
    let word2 = prop_oneof![w.clone(), (0u32..32).prop_map(|k| 1u32 << k)];
    prop_oneof![
        3 => (p(), any::<u8>()).prop_map(|(a, b)| ByteMut::Set(a, b)),
        3 => (p(), 0u8..8).prop_map(|(a, b)| ByteMut::Flip(a, b)),
        6 => (p(), w).prop_map(|(a, b)| ByteMut::Word(a, b)),
        3 => (p(), any::<i8>()).prop_map(|(a, b)| ByteMut::Add(a, b)),
        1 => (p(), vec(any::<u8>(), 1..9)).prop_map(|(a, b)| ByteMut::Insert(a, b)),
        1 => (p(), 1u8..9).prop_map(|(a, b)| ByteMut::Delete(a, b)),
        1 => p().prop_map(ByteMut::Truncate),
        1 => vec(any::<u8>(), 0..40).prop_map(ByteMut::Append),
        1 => (p(), p(), 1u8..10).prop_map(|(a, b, c)| ByteMut::Copy(a, b, c)),
        2 => (any::<u16>(), 0u8..6, any::<u8>()).prop_map(|(a, b, c)| ByteMut::Pad(a, b, c)),
        2 => (any::<u16>(), prop_oneof![Just(0u16), Just(u16::MAX), any::<u16>()], name_bytes()).prop_map(|(a, b, c)| ByteMut::Name(a, b, c)),
        3 => (0u8..5, any::<u16>(), word2, any::<bool>()).prop_map(|(k, a, b, c)| ByteMut::Field(k, a, b, c)),
    ]
    .boxed()
}

fn at<T>(v: &mut Vec<T>, i: u16) -> Option<&mut T> {
    let n = v.len();
    if n == 0 {
        None
    } else {
        Some(&mut v[i as usize % n])
    }
}

pub fn apply_ast(m: &mut MDs, a: &AstMut) {
    match a {
        AstMut::DupDim(a, b) => {
            if let Some(n) = at(&mut m.dims, *a).map(|d| d.name.clone()) {
                at(&mut m.dims, *b).unwrap().name = n;
            }
        }
        AstMut::DupVar(a, b) => {
            if let Some(n) = at(&mut m.vars, *a).map(|d| d.name.clone()) {
                at(&mut m.vars, *b).unwrap().name = n;
            }
        }
        AstMut::DupGattr(a, b) => {
            if let Some(n) = at(&mut m.gattrs, *a).map(|d| d.name.clone()) {
                at(&mut m.gattrs, *b).unwrap().name = n;
            }
        }
        AstMut::DupVattr(a) => {
            if let Some(v) = at(&mut m.vars, *a) {
                if let Some(x) = v.attrs.first().cloned() {
                    v.attrs.push(x);
                }
            }
        }
        AstMut::DimName(a, s) => {
            if let Some(d) = at(&mut m.dims, *a) {
                d.name = s.clone();
            }
        }
        AstMut::VarName(a, s) => {
            if let Some(d) = at(&mut m.vars, *a) {
                d.name = s.clone();
            }
        }
        AstMut::GattrName(a, s) => {
            if let Some(d) = at(&mut m.gattrs, *a) {
                d.name = s.clone();
            }
        }
        AstMut::VattrName(a, s) => {
            if let Some(v) = at(&mut m.vars, *a) {
                if let Some(d) = v.attrs.last_mut() {
                    d.name = s.clone();
                }
            }
        }
        AstMut::Unlim(a) => {
            if let Some(d) = at(&mut m.dims, *a) {
                d.unlim = true;
            }
        }
        AstMut::DimSize(a, s) => {
            if let Some(d) = at(&mut m.dims, *a) {
                d.size = *s as usize;
            }
        }
        AstMut::DimId(a, b, c) => {
            let n = m.dims.len() as u16 + 2;
            if let Some(v) = at(&mut m.vars, *a) {
                if let Some(d) = at(&mut v.dims, *b) {
                    *d = (*c % n) as usize;
                }
            }
        }
        AstMut::PushDim(a, c) => {
            let n = m.dims.len() as u16 + 1;
            if let Some(v) = at(&mut m.vars, *a) {
                v.dims.push((*c % n) as usize);
            }
        }
        AstMut::Wide(a, n) => {
            let mut k = m.dims.len();
            if let Some(v) = at(&mut m.vars, *a) {
                while v.dims.len() < *n as usize {
                    m.dims.push(MDim { name: format!("wide{}", k), size: 1, unlim: false });
                    v.dims.push(k);
                    k += 1;
                }
            }
        }
        AstMut::Many(what, a, n) => {
            let attrs = |l: &mut Vec<MAttr>| {
                for i in 0..*n {
                    let vals = if i % 3 == 0 { Vals::I16(vec![i as i16]) } else { Vals::U8(vec![]) };
                    l.push(MAttr { name: format!("many{}", i), vals });
                }
            };
            match what {
                0 => (0..*n).for_each(|i| m.dims.push(MDim { name: format!("many{}", i), size: i as usize + 1, unlim: false })),
                1 => (0..*n).for_each(|i| {
                    let dims = if i % 4 == 0 { m.dims.len().min(1) } else { 0 };
                    let v = MVar { name: format!("many{}", i), ty: ALL_TY[i as usize % 6], dims: (0..dims).collect(), attrs: vec![] };
                    m.vars.push(v);
                }),
                2 => attrs(&mut m.gattrs),
                _ => {
                    if let Some(v) = at(&mut m.vars, *a) {
                        attrs(&mut v.attrs);
                    }
                }
            }
        }
        AstMut::SwapDims(a, b, c) => {
            if let Some(v) = at(&mut m.vars, *a) {
                let n = v.dims.len();
                if n > 0 {
                    v.dims.swap(*b as usize % n, *c as usize % n);
                }
            }
        }
    }
}

/// `limit`: edits apply to the first `limit` bytes (the header).
pub fn apply_bytes(b: &mut Vec<u8>, m: &ByteMut, limit: usize) {
    let n = limit.min(b.len());
    if n == 0 {
        if let ByteMut::Append(x) = m {
            b.extend_from_slice(x);
        }
        return;
    }
    match m {
        ByteMut::Set(p, v) => b[*p as usize % n] = *v,
        ByteMut::Flip(p, k) => b[*p as usize % n] ^= 1 << (k % 8),
        ByteMut::Word(p, v) => {
            let q = (*p as usize % n) / 4 * 4;
            if q + 4 <= b.len() {
                b[q..q + 4].copy_from_slice(&v.to_be_bytes());
            }
        }
        ByteMut::Add(p, d) => {
            let q = (*p as usize % n) / 4 * 4;
            if q + 4 <= b.len() {
                let w = u32::from_be_bytes([b[q], b[q + 1], b[q + 2], b[q + 3]]).wrapping_add(*d as i32 as u32);
                b[q..q + 4].copy_from_slice(&w.to_be_bytes());
            }
        }
        ByteMut::Insert(p, x) => {
            let q = *p as usize % n;
            b.splice(q..q, x.iter().copied());
        }
        ByteMut::Delete(p, k) => {
            let q = *p as usize % n;
            let e = (q + *k as usize).min(b.len());
            b.drain(q..e);
        }
        ByteMut::Truncate(p) => b.truncate(*p as usize % (b.len() + 1)),
        ByteMut::Append(x) => b.extend_from_slice(x),
        ByteMut::Copy(a, c, k) => {
            let s = (*a as usize % n) / 4 * 4;
            let d = (*c as usize % n) / 4 * 4;
            let k = (*k as usize * 4).min(b.len() - s).min(b.len() - d);
            let t: Vec<u8> = b[s..s + k].to_vec();
            b[d..d + k].copy_from_slice(&t);
        }
        ByteMut::Pad(i, how, x) => {
            if let Some((q, n)) = part(b, enc::Part::Padding, *i) {
                match how {
                    0 => b[q] = *x,
                    1 => b[q + n - 1] = *x,
                    2 => b[q..q + n].fill(*x),
                    3 => {
                        b[q] = *x;
                        b[q + n - 1] = x.wrapping_neg();
                    }
                    4 => {
                        b[q] = *x;
                        b[q + n - 1] = !*x;
                    }
                    _ => b[q + n / 2] = *x,
                }
            }
        }
        ByteMut::Name(i, at, x) => {
            if let Some((q, n)) = part(b, enc::Part::Name, *i) {
                let x = &x[..x.len().min(n)];
                let k = *at as usize * (n - x.len()) / u16::MAX as usize;
                b[q + k..q + k + x.len()].copy_from_slice(x);
            }
        }
        ByteMut::Field(kind, i, w, xor) => {
            use enc::Part::*;
            if let Some((q, n)) = part(b, [Tag, Type, Count, DimId, Begin][*kind as usize % 5], *i) {
                let q = if n == 8 && *i % 2 == 1 { q + 4 } else { q };
                let old = u32::from_be_bytes([b[q], b[q + 1], b[q + 2], b[q + 3]]);
                b[q..q + 4].copy_from_slice(&(if *xor { old ^ *w } else { *w }).to_be_bytes());
            }
        }
    }
}

/// The position and length of one of the parts of a kind.
fn part(b: &[u8], k: enc::Part, i: u16) -> Option<(usize, usize)> {
    let l: Vec<_> = enc::parts(b).into_iter().filter(|x| x.0 == k).collect();
    l.get(i as usize % l.len().max(1)).map(|x| (x.1, x.2))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C19 {
    f: FileCase,
    lay: Lay,
    ast: Vec<AstMut>,
    bytes: Vec<ByteMut>,
    /// the whole content, when it was found by coverage-guided fuzzing
    #[serde(default)]
    raw: Option<Vec<u8>>,
}

/// A model after illegal edits cannot be laid out: header with arbitrary begins only.
fn raw_header(m: &MDs, version: u8, lay: &Lay) -> Vec<u8> {
    let mut s = lay.junk as u64;
    let k = m.vars.len();
    let vs: Vec<u32> = (0..k).map(|_| (splitmix(&mut s) % 500) as u32 * 4).collect();
    let bs: Vec<u64> = (0..k).map(|_| splitmix(&mut s) % 5000 * 4).collect();
    let nr = m.dims.iter().find(|d| d.unlim).map_or(0, |d| d.size as u32 & 0x7fff_ffff);
    enc::header_opt(m, version, nr, &vs, &bs, lay.tagged)
}

pub fn judge(bytes: &[u8], p: &Path) -> Result<&'static str, String> {
    let want = enc::decode(bytes, bytes.len() as u64);
    match (FileReader::open(p), want) {
        (Ok(r), Ok(d)) => {
            ensure_eq!(ver_num(&r.version()), d.version, "version");
            same(r.data_set(), &d.ds).map_err(|e| format!("accepted header read differently: {}", e))?;
            Ok("accepted")
        }
        (Err(_), Err(enc::Bad::Incomplete)) => Ok("rejected: incomplete"),
        (Err(_), Err(enc::Bad::Invalid(_))) => Ok("rejected: malformed"),
        (Ok(_), Err(w)) => Err(format!("a header that does not conform was accepted ({:?})", w)),
        (Err(e), Ok(d)) => Err(format!("a conforming header was rejected: {} ({} header bytes)", short_pub(&e), d.len)),
    }
}

fn c19_bytes(c: &C19) -> Vec<u8> {
    if let Some(b) = &c.raw {
        return b.clone();
    }
    let mut b;
    let hl;
    if c.ast.is_empty() {
        let m = make(&c.f.ds, c.f.version, &c.f.values(), &c.lay);
        hl = m.header_len;
        b = m.bytes;
    } else {
        let mut m = c.f.ds.clone();
        for a in &c.ast {
            apply_ast(&mut m, a);
        }
        b = raw_header(&m, c.f.version, &c.lay);
        hl = b.len();
    }
    for m in &c.bytes {
        apply_bytes(&mut b, m, hl);
    }
    b
}

fn c19_raw(b: &[u8]) -> C19 {
    let f = FileCase { ds: MDs::default(), version: 1, min: MinSpec::Abs(0), data: vec![] };
    C19 { f, lay: Lay::plain(), ast: vec![], bytes: vec![], raw: Some(b.to_vec()) }
}

fn c19_check(c: &C19, cx: &mut Cx) -> Chk {
    let b = c19_bytes(c);
    cx.nontrivial(!c.ast.is_empty() || !c.bytes.is_empty() || c.raw.is_some());
    let p = cx.path();
    std::fs::write(&p, &b).map_err(|e| e.to_string())?;
    let l = judge(&b, &p)?;
    cx.label(l);
    Ok(())
}

pub fn c19() -> Prop<C19> {
    Prop {
        id: "C19",
        rule: "legal headers edited at the definition level (duplicate or invalid names, dimension ids, unlimited dimensions, sizes) and at byte/word level; verdict and content compared with an independent strict decoder; non-trivial: at least one edit",
        strategy: |_| {
            let o = DsOpts { max_vars: 4, max_chunk: 30, ..DsOpts::default() };
            let a = prop_oneof![1 => Just(vec![]), 1 => vec(ast_mut(), 1..3)];
            let b = prop_oneof![1 => Just(vec![]), 4 => vec(byte_mut(), 1..3), 1 => vec(byte_mut(), 1..8)];
            (file_case(o), lay(), a, b).prop_map(|(f, lay, ast, bytes)| C19 { f, lay, ast, bytes, raw: None }).boxed()
        },
        check: c19_check,
        fixed: no_fixed,
        quick: 360000,
        thorough: 30000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: Some((c19_raw, c19_bytes)),
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C27

/// Whether the data set read so far has this defect.
fn defect_holds(e: &InvalidDataSet, ds: &MDs) -> bool {
    use InvalidDataSet::*;
    let times = |it: &mut dyn Iterator<Item = &String>, n: &String| it.filter(|x| *x == n).count();
    let dim_names = |v: &MVar| -> Option<Vec<String>> { v.dims.iter().map(|d| ds.dims.get(*d).map(|d| d.name.clone())).collect() };
    let some_var = |n: &String, f: &dyn Fn(&MVar) -> bool| ds.vars.iter().any(|v| v.name == *n && f(v));
    match e {
        DimensionAlreadyExists(n) => times(&mut ds.dims.iter().map(|d| &d.name), n) > 1,
        UnlimitedDimensionAlreadyExists(n) => {
            ds.dims.iter().filter(|d| d.unlim).count() > 1 && ds.dims.iter().find(|d| d.unlim).map_or(false, |d| d.name == *n)
        }
        DimensionNameNotValid(n) => !name_ok(n) && ds.dims.iter().any(|d| d.name == *n),
        MaximumFixedDimensionSizeExceeded { dim_name, get } => {
            ds.dims.iter().any(|d| d.name == *dim_name && d.size == *get && !d.unlim && d.size > i32::MAX as usize - 3)
        }
        GlobalAttributeAlreadyExists(n) => times(&mut ds.gattrs.iter().map(|a| &a.name), n) > 1,
        GlobalAttributeNameNotValid(n) => !name_ok(n) && ds.gattrs.iter().any(|a| a.name == *n),
        VariableAlreadyExists(n) => times(&mut ds.vars.iter().map(|a| &a.name), n) > 1,
        VariableNameNotValid(n) => !name_ok(n) && ds.vars.iter().any(|a| a.name == *n),
        VariableAttributeAlreadyExists { var_name, attr_name } => {
            some_var(var_name, &|v| v.attrs.iter().filter(|a| a.name == *attr_name).count() > 1)
        }
        VariableAttributeNameNotValid { var_name, attr_name } => {
            !name_ok(attr_name) && some_var(var_name, &|v| v.attrs.iter().any(|a| a.name == *attr_name))
        }
        DimensionIdsNotFound { defined, searched, not_found } => ds.vars.iter().any(|v| {
            let nf: Vec<usize> = v.dims.iter().copied().filter(|d| *d >= ds.dims.len()).collect();
            !nf.is_empty() && nf == *not_found && v.dims == *searched && defined.iter().copied().eq(0..ds.dims.len())
        }),
        DimensionsUsedMultipleTimes { var_name, get_dim_names } => some_var(var_name, &|v| {
            let u: std::collections::HashSet<usize> = v.dims.iter().copied().collect();
            u.len() < v.dims.len() && dim_names(v).as_ref() == Some(get_dim_names)
        }),
        UnlimitedDimensionMustBeDefinedFirst { var_name, unlim_dim_name, get_dim_names } => some_var(var_name, &|v| {
            v.dims.iter().skip(1).any(|d| ds.dims.get(*d).map_or(false, |d| d.unlim && d.name == *unlim_dim_name))
                && dim_names(v).as_ref() == Some(get_dim_names)
        }),
        MaximumDimensionsPerVariableExceeded { var_name, num_dims } => some_var(var_name, &|v| v.dims.len() == *num_dims && *num_dims > 1024),
        _ => false,
    }
}

fn c27_check(c: &C19, cx: &mut Cx) -> Chk {
    use netcdf3::error::parse_header_error::{InvalidBytes, ParseHeaderErrorKind as K};
    let b = c19_bytes(c);
    let p = cx.path();
    std::fs::write(&p, &b).map_err(|e| e.to_string())?;
    let got = FileReader::open(&p);
    let d = match enc::diagnose(&b, b.len() as u64) {
        None => {
            cx.label("conforms");
            return Ok(());
        }
        Some(d) => d,
    };
    cx.nontrivial(true);
    let incomplete = d.verdict == enc::Bad::Incomplete;
    let e = match got {
        Ok(_) => return Err(format!("a file that does not conform was opened ({:?})", d.verdict)),
        Err(e) => e,
    };
    let kind = |f: enc::Field| -> (&'static str, Vec<K>) {
        match f {
            enc::Field::Magic => ("magic word", vec![K::MagicWord]),
            enc::Field::Version => ("version", vec![K::VersionNumber]),
            enc::Field::NonNeg => ("negative number", vec![K::NonNegativeI32]),
            enc::Field::NegType => ("negative type code", vec![K::NonNegativeI32, K::DataType]),
            enc::Field::DimTag => ("tag of the dimensions", vec![K::DimTag]),
            enc::Field::AttrTag => ("tag of attributes", vec![K::AttrTag]),
            enc::Field::VarTag => ("tag of the variables", vec![K::VarTag]),
            enc::Field::Utf8 => ("name that is not UTF-8", vec![K::Utf8]),
            enc::Field::Padding => ("padding", vec![K::ZeroPadding]),
            enc::Field::Type => ("type code", vec![K::DataType]),
            enc::Field::Begin => ("negative begin", vec![K::Offset]),
        }
    };
    let why = format!("{:?}{}", d.verdict, d.field.map_or(String::new(), |(f, at)| format!(", field at {}: {}", at, kind(f).0)));
    let says = e.header_is_incomplete();
    if let ReadError::ParseHeader(x) = &e {
        ensure_eq!(x.header_is_incomplete(), says, "header_is_incomplete of the two errors");
    }
    match &e {
        _ if says => {
            ensure!(incomplete, "the error says the header is incomplete, but: {}", why);
            cx.label("incomplete");
        }
        ReadError::ParseHeader(x) => {
            let (label, kinds, at) = match (d.field, d.cut_tag) {
                (Some((f, at)), _) => {
                    let (l, k) = kind(f);
                    (l, k, Some(at))
                }
                (None, Some(f)) => ("the file ends within a wrong tag", kind(f).1, None),
                _ => return Err(format!("the error is {}, but: {}", short_pub(&e), why)),
            };
            ensure!(kinds.contains(&x.kind), "the error is {:?}, but: {}", x.kind, why);
            if let (InvalidBytes::Bytes(v), Some(at)) = (&x.invalid_bytes, at) {
                ensure!(!v.is_empty() && b[at..].starts_with(v), "the error shows other bytes than those at the wrong field: {:?}, {}", x.kind, why);
            }
            cx.label(label);
        }
        ReadError::DataSet(x) => {
            ensure!(defect_holds(x, &d.ds), "the error is {:?}, but: {}", x, why);
            cx.label(match x {
                InvalidDataSet::DimensionIdsNotFound { .. } => "unknown dimension ids",
                InvalidDataSet::DimensionsUsedMultipleTimes { .. } => "dimension used twice",
                InvalidDataSet::UnlimitedDimensionMustBeDefinedFirst { .. } => "unlimited dimension not first",
                InvalidDataSet::UnlimitedDimensionAlreadyExists(_) => "two unlimited dimensions",
                InvalidDataSet::MaximumFixedDimensionSizeExceeded { .. } => "dimension size",
                InvalidDataSet::MaximumDimensionsPerVariableExceeded { .. } => "number of dimensions",
                InvalidDataSet::DimensionAlreadyExists(_)
                | InvalidDataSet::VariableAlreadyExists(_)
                | InvalidDataSet::GlobalAttributeAlreadyExists(_)
                | InvalidDataSet::VariableAttributeAlreadyExists { .. } => "duplicate name",
                _ => "invalid name",
            });
        }
        ReadError::ComputationNumberOfRecords => {
            let begin = d.ds.vars.iter().zip(&d.begins).filter(|(v, _)| v.dims.first().map_or(false, |i| ds_unlim(&d.ds, *i))).map(|x| *x.1).min();
            let wrong = d.numrecs.is_none() && d.field.is_none() && !incomplete && begin.is_some();
            ensure!(wrong, "the error is {:?}, but: {}", e, why);
            cx.label("number of records");
        }
        _ => return Err(format!("the error is {:?}, but: {}", e, why)),
    }
    // refused again in the same way
    let again = FileReader::open(&p).err();
    ensure!(again.as_ref() == Some(&e), "opened once more: {:?} instead of {:?}", again.map(|x| short_pub(&x)), short_pub(&e));
    Ok(())
}

fn ds_unlim(ds: &MDs, i: usize) -> bool {
    ds.dims.get(i).map_or(false, |d| d.unlim)
}

pub fn c27() -> Prop<C19> {
    Prop {
        id: "C27",
        rule: "legal headers edited at the definition level and at byte/word level, or cut; the error compared with the diagnosis of an independent strict decoder (first wrong field and its bytes, defects of the data set, missing bytes); non-trivial: the file does not conform",
        strategy: |_| {
            let o = DsOpts { max_vars: 4, max_chunk: 30, ..DsOpts::default() };
            let a = prop_oneof![3 => Just(vec![]), 2 => vec(ast_mut(), 1..2), 1 => vec(ast_mut(), 2..4)];
            let b = prop_oneof![1 => Just(vec![]), 6 => vec(byte_mut(), 1..2), 2 => vec(byte_mut(), 2..4)];
            (file_case(o), lay(), a, b).prop_map(|(f, lay, ast, bytes)| C19 { f, lay, ast, bytes, raw: None }).boxed()
        },
        check: c27_check,
        fixed: no_fixed,
        quick: 240000,
        thorough: 30000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: Some((c19_raw, c19_bytes)),
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C10

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C10 {
    Mutated { f: FileCase, lay: Lay, bytes: Vec<ByteMut>, anywhere: bool },
    Raw { magic: u8, bytes: Vec<u8> },
    /// a long header, complete, cut after so many 1/65536, or with a wrong byte there
    Long { crowd: Crowd, ty: Ty, version: u8, cut: u16, wrong: bool },
    /// a valid header whose data part is missing or of another size
    Hollow { f: FileCase, begins: Vec<u64>, sizes: Vec<u32>, numrecs: u32, tail: u16 },
    /// one variable whose size is just above a power of two, and next to no data
    Wrap { sizes: Vec<u32>, ty: Ty, version: u8, numrecs: Option<u32>, begin: u32, tail: u16 },
}

/// Sizes whose product is 2^k or little more (k from 31 to 64).
fn wrapping_sizes() -> BoxedStrategy<Vec<u32>> {
    let l: &[&[u32]] = &[
        &[715827883, 3], &[1073741825, 2], &[25873297, 83], &[6700417, 641], &[1431655766, 3], &[613566757, 7],
        &[954437177, 9], &[13400834, 641], &[1717986919, 5], &[125400505, 137], &[1908874354, 9], &[1321528399, 13],
        &[1824726041, 1263665316], &[457612994, 48920869, 103], &[916807923, 7005787, 359], &[2147418113, 429509837, 5],
        &[299306349, 10827767, 1423], &[2147418113, 859019674, 5], &[598612698, 10827767, 1423], &[2147418113, 1718039348, 5],
        &[823996703, 1066043567, 21], &[1197225396, 10827767, 1423], &[65536, 65536], &[65537, 65535], &[65536, 65536, 65536, 65536],
        &[1 << 30, 1 << 30, 2], &[1 << 30, 1 << 30, 4], &[1 << 30, 1 << 30, 8], &[1 << 30, 1 << 30, 16], &[1 << 30, 2], &[1 << 30, 4], &[1 << 30, 8], &[1 << 30],
    ];
    let l: Vec<Vec<u32>> = l.iter().map(|x| x.to_vec()).collect();
    (select(l), any::<u16>()).prop_map(|(mut v, k)| {
        let n = v.len();
        v.rotate_left(k as usize % n);
        v
    })
    .boxed()
}

/// Open and read everything; panics are caught by the engine.
/// Returns the largest single allocation request.
fn swallow(p: &Path) -> (bool, usize) {
    let mut opened = false;
    let ((), big) = max_request(|| {
        let mut r = match FileReader::open(p) {
            Ok(r) => r,
            Err(e) => {
                let _ = e.header_is_incomplete();
                let _ = format!("{}", e);
                return;
            }
        };
        opened = true;
        let vars: Vec<(String, Ty)> =
            r.data_set().get_vars().iter().map(|v| (v.name().to_string(), ty_of(&v.data_type()))).collect();
        let n = r.data_set().num_records().unwrap_or(1);
        let _ = r.data_set().record_size();
        for v in r.data_set().get_vars() {
            let _ = (v.len(), v.chunk_len(), v.chunk_size(), v.num_chunks(), v.dim_names());
        }
        let _ = r.read_all_vars();
        for (v, t) in vars.iter().take(40) {
            let _ = r.read_var(v);
            let _ = read_var_typed(&mut r, v, *t);
            for i in [0, 1, n / 2, n.wrapping_sub(1), n, usize::MAX] {
                let _ = r.read_record(v, i);
            }
            let _ = read_record_typed(&mut r, v, n.wrapping_sub(1), *t);
            let _ = r.read_var_i8(v);
        }
        let _ = r.close();
    });
    (opened, big)
}

pub fn c10_bytes(c: &C10) -> Vec<u8> {
    match c {
        C10::Mutated { f, lay, bytes, anywhere } => {
            let m = make(&f.ds, f.version, &f.values(), lay);
            let mut b = m.bytes;
            for x in bytes {
                let lim = if *anywhere { b.len() } else { m.header_len };
                apply_bytes(&mut b, x, lim);
            }
            b
        }
        C10::Long { crowd, ty, version, cut, wrong } => {
            let m = crowded(*crowd, *ty);
            let mut b = enc::canonical_header(&m, *version, 0);
            let k = b.len() * *cut as usize / 65536;
            if *wrong {
                b[k] ^= 0xff;
            } else if *cut > 0 {
                b.truncate(k);
            }
            b
        }
        C10::Wrap { sizes, ty, version, numrecs, begin, tail } => {
            let mut m = MDs::default();
            if numrecs.is_some() {
                m.dims.push(MDim { name: "t".into(), size: 0, unlim: true });
            }
            for (i, s) in sizes.iter().enumerate() {
                m.dims.push(MDim { name: format!("d{}", i), size: *s as usize, unlim: false });
            }
            m.vars.push(MVar { name: "v".into(), ty: *ty, dims: (0..m.dims.len()).collect(), attrs: vec![] });
            let mut b = enc::header(&m, *version, numrecs.unwrap_or(0), &[u32::MAX], &[*begin as u64]);
            b.extend(std::iter::repeat(0x41).take(*tail as usize));
            b
        }
        C10::Raw { magic, bytes } => {
            let mut b = match magic % 4 {
                0 => vec![],
                1 => b"CDF\x01".to_vec(),
                2 => b"CDF\x02".to_vec(),
                _ => b"CDF\x01\0\0\0\0".to_vec(),
            };
            b.extend_from_slice(bytes);
            b
        }
        C10::Hollow { f, begins, sizes, numrecs, tail } => {
            let mut m = f.ds.clone();
            for (i, d) in m.dims.iter_mut().enumerate() {
                if !d.unlim && !sizes.is_empty() {
                    let s = sizes[i % sizes.len()];
                    if s > 0 {
                        d.size = s as usize;
                    }
                }
            }
            let vs = vec![0u32; m.vars.len()];
            let bs: Vec<u64> =
                (0..m.vars.len()).map(|i| if begins.is_empty() { 0 } else { begins[i % begins.len()] }).collect();
            let mut b = enc::header(&m, f.version, *numrecs, &vs, &bs);
            b.extend(std::iter::repeat(0x41).take(*tail as usize));
            b
        }
    }
}

fn c10_check(c: &C10, cx: &mut Cx) -> Chk {
    let b = c10_bytes(c);
    let p = cx.path();
    std::fs::write(&p, &b).map_err(|e| e.to_string())?;
    if let C10::Long { .. } = c {
        let (r, all) = all_requests(|| FileReader::open(&p).is_ok());
        cx.label(if r { "long header opened" } else { "long header rejected" });
        cx.nontrivial(true);
        ensure!(
            all <= 64 * b.len() + (4 << 20),
            "opening a file of {} bytes requested {} bytes of memory in all",
            b.len(),
            all
        );
        return Ok(());
    }
    let (opened, big) = swallow(&p);
    if let C10::Wrap { sizes, ty, numrecs, begin, .. } = c {
        // in every case more than 2^30 bytes of data are said to be where a few hundred are
        let slab = sizes.iter().map(|s| *s as u128).product::<u128>() * ty.size() as u128;
        let mut r = FileReader::open(&p).map_err(|e| format!("a legal header is refused: {:?}", e))?;
        let n = numrecs.unwrap_or(1) as u128;
        let end = |i: u128| *begin as u128 + (i + 1) * slab;
        if n > 0 && end(n - 1) > b.len() as u128 {
            ensure!(r.read_var("v").is_err(), "a variable that is not in the file was read");
            ensure!(r.read_all_vars().is_err(), "a variable that is not in the file was read with all others");
            ensure!(read_var_typed(&mut r, "v", *ty).is_err(), "a variable that is not in the file was read by type");
        }
        for i in 0..3u128.min(n) {
            if numrecs.is_some() && end(i) > b.len() as u128 {
                ensure!(r.read_record("v", i as usize).is_err(), "record {} is not in the file and was read", i);
            }
        }
    }
    cx.label(if opened { "opened" } else { "rejected" });
    cx.label(match c {
        C10::Mutated { .. } => "mutated file",
        C10::Raw { .. } => "raw bytes",
        C10::Long { .. } => "long header",
        C10::Hollow { .. } => "hollow data part",
        C10::Wrap { .. } => "size just above a power of two",
    });
    cx.nontrivial(b.len() > 8);
    ensure!(
        big <= 64 * b.len() + (1 << 20),
        "a single allocation of {} bytes was requested for a file of {} bytes",
        big,
        b.len()
    );
    Ok(())
}

/// Headers of up to about a MiB (thorough: 8 MiB) that consist of many parts.
fn long_headers(thorough: bool) -> Vec<C10> {
    let mut l = vec![];
    let n = if thorough { 8 } else { 1 };
    for (i, c) in [Crowd::Blocks(40 * n, 26000), Crowd::Blocks(400, 2600 * n), Crowd::Blocks(2600, 400 * n), Crowd::VarBlocks(1600, 600 * n), Crowd::Long((1 << 20) * n), Crowd::Dims(5000 * n), Crowd::Vars(4000 * n), Crowd::Gattrs(8000 * n)].into_iter().enumerate() {
        for (k, cut) in [0u16, 65535, 60000, 40000].into_iter().enumerate() {
            l.push(C10::Long { crowd: c, ty: ALL_TY[(i + k) % 6], version: 1 + (i % 2) as u8, cut, wrong: k == 2 });
        }
    }
    l
}

pub fn c10_strategy() -> BoxedStrategy<C10> {
    let o = DsOpts { max_vars: 4, max_chunk: 30, ..DsOpts::default() };
    let word = prop_oneof![
        4 => select(vec![0u32, 1, 2, 3, 4, 8, 10, 11, 12, 97, 0x0A, 0x0B, 0x0C]),
        2 => select(vec![i32::MAX as u32, 1 << 31, u32::MAX, 1 << 30, 0x1FFF_FFFF, 0x0800_0000]),
        1 => any::<u32>(),
    ]
    .prop_map(|w| w.to_be_bytes().to_vec());
    let words = vec(word, 0..40).prop_map(|v| v.concat());
    let raw = (any::<u8>(), prop_oneof![1 => vec(any::<u8>(), 0..400), 3 => words])
        .prop_map(|(magic, bytes)| C10::Raw { magic, bytes });
    let beg = prop_oneof![
        3 => 0u64..3000,
        3 => select(vec![i32::MAX as u64, 1u64 << 31, u32::MAX as u64, 1 << 32, i64::MAX as u64, i64::MAX as u64 - 7, 1 << 63, u64::MAX, 1 << 62]),
        1 => any::<u64>(),
    ];
    let sz = prop_oneof![3 => Just(0u32), 2 => select(vec![1u32, 1 << 16, 1 << 24, i32::MAX as u32 - 3, 1 << 30, 0x4000_0001]), 1 => 1u32..3000];
    let nr = prop_oneof![2 => 0u32..5, 2 => select(vec![i32::MAX as u32, u32::MAX, 1 << 30, 1 << 20]), 1 => 0u32..(1 << 31)];
    let hollow = (file_case(o), vec(beg, 0..4), vec(sz, 0..4), nr, 0u16..2000)
        .prop_map(|(f, begins, sizes, numrecs, tail)| C10::Hollow { f, begins, sizes, numrecs, tail });
    let muta = (file_case(o), lay(), vec(byte_mut(), 1..6), any::<bool>())
        .prop_map(|(f, lay, bytes, anywhere)| C10::Mutated { f, lay, bytes, anywhere });
    let ty = (0usize..6).prop_map(|i| ALL_TY[i]);
    let recs = prop_oneof![2 => Just(None), 2 => (0u32..4).prop_map(Some), 1 => (0u32..(1 << 31)).prop_map(Some), 1 => select(vec![1u32 << 30, i32::MAX as u32]).prop_map(Some)];
    let wrap = (wrapping_sizes(), ty, 1u8..3, recs, prop_oneof![0u32..400, 0u32..(1 << 31)], 0u16..2000)
        .prop_map(|(sizes, ty, version, numrecs, begin, tail)| C10::Wrap { sizes, ty, version, numrecs, begin, tail });
    prop_oneof![4 => muta, 3 => raw, 3 => hollow, 1 => wrap].boxed()
}

pub fn c10() -> Prop<C10> {
    Prop {
        id: "C10",
        rule: "mutated valid files, structured random words and bytes, valid headers with hostile sizes, offsets, record counts; open then read every variable and record; oracle: no panic/abort/hang, single allocation <= 64 x file size + 1 MiB, and for opening long headers all allocations together <= 64 x file size + 4 MiB; non-trivial: more than 8 bytes",
        strategy: |_| c10_strategy(),
        check: c10_check,
        fixed: |t| long_headers(t),
        quick: 360000,
        thorough: 30000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: Some((|b| C10::Raw { magic: 0, bytes: b.to_vec() }, c10_bytes)),
        exhaustive_note: "",
    }
}
