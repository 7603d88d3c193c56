//! C14: sizes and offsets around the limits of the format, in sparse files.
use crate::api::*;
use crate::enc;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use netcdf3::{FileReader, FileWriter, WriteError};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs::File;
use std::os::unix::fs::{FileExt, MetadataExt};
use std::path::Path;

/// Data are stored below this position only.
const CAP: u128 = 1 << 42;
const SMALL: usize = 2048;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BW {
    v: u16,
    /// record: 0 first, 1 last, 2 middle, 3.. around a power of two of the position
    sel: u8,
    whole: bool,
    d: DataSpec,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C14 {
    ds: MDs,
    version: u8,
    min: usize,
    writes: Vec<BW>,
    /// after a refusal: the same definition as 64-bit offset, or `second`
    same: bool,
    second: FileCase,
    /// gaps in front of each variable, for the reader
    gaps: Vec<u64>,
    /// header space of 2 GiB and more, which is really written: only where there is room for it
    #[serde(default)]
    huge_header: bool,
    /// an attribute of 2^31 values and more: (of a variable, type, values above 2^31)
    #[serde(default)]
    long_attr: Option<(bool, Ty, u32)>,
}

const SIZES: &[usize] = &[
    1, 2, 3, 5, 7, 17, 100, 255, 1000, 46340, 46341, 65535, 65536, 65537, 0x100_0000, 268435455, 268435456, 268435457,
    536870911, 536870912, 536870913, 1073741823, 1073741824, 2147483640, 2147483641, 2147483642, 2147483643, 2147483644,

];

const NREC: &[usize] = &[
    0, 1, 2, 3, 10, 1000, 65536, 1000003, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff,
    0x1_0000_0000, 0x1_0000_0001, 0x1_0000_0005, 1 << 40,
];

fn size() -> BoxedStrategy<usize> {
    prop_oneof![6 => select(SIZES.to_vec()), 3 => 1usize..12, 1 => 1usize..0x7fff_fffd].boxed()
}

fn small_attr() -> BoxedStrategy<Vec<MAttr>> {
    vec(vals(), 0..2)
        .prop_map(|l| l.into_iter().enumerate().map(|(i, vals)| MAttr { name: format!("a{}", i), vals }).collect())
        .boxed()
}

pub fn big_ds() -> BoxedStrategy<MDs> {
    let nrec = prop_oneof![1 => Just(None), 4 => select(NREC.to_vec()).prop_map(Some), 1 => (0usize..50).prop_map(Some)];
    let var = (ty(), any::<bool>(), vec(0u8..20, 0..3), small_attr());
    let tune = (0u8..3, any::<u8>(), select(vec![1u64 << 31, 1 << 31, 1 << 31, 1 << 32, 1 << 33]), -4i64..5);
    (vec(size(), 1..6), nrec, vec(var, 1..6), tune)
        .prop_map(|(sizes, nrec, vars, (tk, tpos, target, delta))| {
            let mut m = MDs::default();
            for (i, s) in sizes.iter().enumerate() {
                m.dims.push(MDim { name: format!("d{}", i), size: *s, unlim: false });
            }
            let nf = m.dims.len();
            if let Some(n) = nrec {
                m.dims.push(MDim { name: "un".into(), size: n, unlim: true });
            }
            for (i, (ty, rec, picks, attrs)) in vars.into_iter().enumerate() {
                let mut dims = vec![];
                if rec && nrec.is_some() {
                    dims.push(nf);
                }
                for p in picks {
                    let k = p as usize % nf;
                    if !dims.contains(&k) {
                        dims.push(k);
                    }
                }
                m.vars.push(MVar { name: format!("v{}", "x".repeat(i)), ty, dims, attrs });
            }
            if tk > 0 {
                // a variable whose size makes the following one begin around `target`
                let ty = if target == 1 << 31 { Ty::I8 } else { Ty::F64 };
                let w = ty.size() as i64;
                let k = m.dims.len();
                m.dims.push(MDim { name: "tune".into(), size: 8, unlim: false });
                let rec = tk == 2 && nrec.is_some();
                let mut dims = vec![k];
                if rec {
                    dims.insert(0, nf);
                }
                let at = tpos as usize % (m.vars.len() + 1);
                m.vars.insert(at, MVar { name: "tunevar".into(), ty, dims, attrs: vec![] });
                let l = enc::canonical_layout(&m, 1, 0);
                let end = l.begins[at] + m.vsize_big(&m.vars[at]);
                let want = (target as i64 + delta) as i128 - end as i128;
                let size = 8 + want / w as i128;
                if size >= 1 && size <= 2147483644 {
                    m.dims[k].size = size as usize;
                }
            }
            m
        })
        .boxed()
}

pub fn refused(ds: &MDs, version: u8, min: usize) -> bool {
    let l = enc::canonical_layout(ds, version, min);
    let limit = if version == 1 { i32::MAX as u128 } else { i64::MAX as u128 };
    l.begins.iter().any(|b| *b > limit)
}

fn strategy(_t: bool) -> BoxedStrategy<C14> {
    let min = prop_oneof![
        5 => Just(0usize),
        2 => 0usize..9000,
        1 => select(vec![0x7fff_fffcusize, 0x7fff_fffd, 0x8000_0000, 0x8000_0004, 0xffff_ffff, 0x1_0000_0000, 1 << 62,
            0x7fff_ffff_ffff_fffc, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, usize::MAX - 2, usize::MAX]),
    ];
    let bw = (any::<u16>(), 0u8..12, any::<bool>(), dspec()).prop_map(|(v, sel, whole, d)| BW { v, sel, whole, d });
    let gap = prop_oneof![
        3 => Just(0u64),
        3 => select(vec![4u64, 1, 3, 1 << 31, (1 << 31) - 4, 1 << 32, (1 << 32) + 4, 1 << 33, 1 << 40]),
        1 => 0u64..(1 << 34)
    ];
    (big_ds(), version(), min, vec(bw, 1..8), any::<bool>(), file_case(DsOpts { max_vars: 3, max_dims: 3, ..DsOpts::default() }), vec(gap, 1..5))
        .prop_map(|(ds, version, min, writes, same, second, gaps)| {
            // a huge header is only asked for where it must be refused: otherwise it would be written
            let min = if min > 10000 && !refused(&ds, version, min) { 0 } else { min };
            C14 { ds, version, min, writes, same, second, gaps, huge_header: false, long_attr: None }
        })
        .boxed()
}

/// What a sparse file must hold.
struct Sparse {
    ext: BTreeMap<u128, Vec<u8>>,
    /// longest extent
    max: usize,
}

impl Sparse {
    fn put(&mut self, pos: u128, b: Vec<u8>) {
        if !b.is_empty() {
            self.max = self.max.max(b.len());
            self.ext.insert(pos, b);
        }
    }
    fn get(&self, pos: u128, n: usize) -> Vec<u8> {
        let mut o = vec![0u8; n];
        let from = pos.saturating_sub(self.max as u128);
        for (p, b) in self.ext.range(from..pos + n as u128) {
            for (i, x) in b.iter().enumerate() {
                let q = p + i as u128;
                if q >= pos && q < pos + n as u128 {
                    o[(q - pos) as usize] = *x;
                }
            }
        }
        o
    }
    fn end(&self) -> u128 {
        self.ext.iter().map(|(p, b)| p + b.len() as u128).max().unwrap_or(0)
    }
}

fn read_at(f: &File, pos: u128, n: usize) -> Result<Vec<u8>, String> {
    let mut b = vec![0u8; n];
    f.read_exact_at(&mut b, pos as u64).map_err(|e| format!("cannot read {} bytes at {} of the file: {}", n, pos, e))?;
    Ok(b)
}

fn check_sparse(p: &Path, s: &Sparse) -> Chk {
    let f = File::open(p).map_err(|e| e.to_string())?;
    let md = f.metadata().map_err(|e| e.to_string())?;
    ensure_eq!(md.len() as u128, s.end(), "length of the sparse file");
    for (pos, b) in &s.ext {
        let got = read_at(&f, *pos, b.len())?;
        if got != *b {
            let k = got.iter().zip(b.iter()).position(|(a, b)| a != b).unwrap();
            return Err(format!("byte at {} is {:#x}, expected {:#x}", pos + k as u128, got[k], b[k]));
        }
    }
    // nothing else was written
    if md.blocks() * 512 < 32 << 20 {
        use std::os::unix::io::AsRawFd;
        let mut pos: i64 = 0;
        let mut walked = 0u64;
        loop {
            let a = unsafe { libc::lseek(f.as_raw_fd(), pos, libc::SEEK_DATA) };
            if a < 0 {
                break;
            }
            let b = unsafe { libc::lseek(f.as_raw_fd(), a, libc::SEEK_HOLE) };
            if b <= a {
                break;
            }
            walked += (b - a) as u64;
            if walked > 64 << 20 {
                break;
            }
            let got = read_at(&f, a as u128, (b - a) as usize)?;
            let exp = s.get(a as u128, (b - a) as usize);
            if got != exp {
                let k = got.iter().zip(exp.iter()).position(|(a, b)| a != b).unwrap();
                return Err(format!("unexpected byte {:#x} at {} (expected {:#x})", got[k], a + k as i64, exp[k]));
            }
            pos = b;
        }
    }
    Ok(())
}

fn rec_index(sel: u8, n: usize, begin: u128, stride: u128) -> usize {
    let around = |t: u128, d: i64| -> usize {
        if stride == 0 {
            return 0;
        }
        let q = (t.saturating_sub(begin) / stride) as i128 + d as i128;
        if q < 0 {
            0
        } else {
            q.min(usize::MAX as i128) as usize
        }
    };
    let r = match sel {
        0 => 0,
        1 => n - 1,
        2 => n / 2,
        3 => around(1 << 31, -1),
        4 => around(1 << 31, 0),
        5 => around(1 << 31, 1),
        6 => around(1 << 32, -1),
        7 => around(1 << 32, 0),
        8 => around(1 << 32, 1),
        9 => around(3 << 32, 0),
        10 => around(CAP - 100000, -1),
        _ => (n / 3).saturating_add(1),
    };
    r.min(n - 1)
}

/// Writes and reads in the sparse file of an accepted definition.
fn sparse_io(mut w: FileWriter, p: &Path, c: &C14, version: u8, min: usize, cx: &mut Cx) -> Chk {
    let ds = &c.ds;
    let l = enc::canonical_layout(ds, version, min);
    let mut s = Sparse { ext: BTreeMap::new(), max: 0 };
    s.put(0, enc::canonical_header(ds, version, min));
    // (variable, record) written
    let mut done: Vec<(usize, usize)> = vec![];
    let lone = ds.rec_vars().len() == 1;
    for b in &c.writes {
        let i = b.v as usize % ds.vars.len();
        let v = &ds.vars[i];
        let cl = ds.chunk_len_big(v);
        let n = ds.nrec(v);
        if cl > SMALL as u128 || n == 0 {
            continue;
        }
        let cl = cl as usize;
        let rec = ds.is_rec(v);
        let raw = ds.raw(v);
        let pad = if rec && lone { 0 } else { enc::pad4(raw) };
        let mut put = |s: &mut Sparse, r: usize, x: &Vals| {
            let pos = l.begins[i] + if rec { r as u128 * l.stride } else { 0 };
            let mut by = x.be_bytes();
            for k in 0..pad {
                let f = v.ty.fill_bytes();
                by.push(f[k % f.len()]);
            }
            cx.label_if(pos > 1 << 31, "written beyond 2 GiB");
            cx.label_if(pos > 1 << 32, "written beyond 4 GiB");
            if pos >= 1 << 31 {
                cx.nontrivial(true);
            }
            s.put(pos, by);
            done.push((i, r));
        };
        let last = l.begins[i] + if rec { (n as u128 - 1) * l.stride } else { 0 };
        if (b.whole || !rec) && n as u128 * cl as u128 <= SMALL as u128 && last < CAP {
            let x = b.d.expand(v.ty, n * cl);
            if b.whole {
                write_var(&mut w, &v.name, &x).map_err(|e| format!("write_var({:?}) failed: {:?}", v.name, e))?;
            } else {
                write_record(&mut w, &v.name, 0, &x).map_err(|e| format!("write_record({:?},0) failed: {:?}", v.name, e))?;
            }
            for r in 0..n {
                put(&mut s, r, &slice_rec(&x, cl, r));
            }
        } else {
            let r = if rec { rec_index(b.sel, n, l.begins[i], l.stride) } else { 0 };
            let pos = l.begins[i] + if rec { r as u128 * l.stride } else { 0 };
            if pos >= CAP {
                continue;
            }
            let x = b.d.expand(v.ty, cl);
            write_record(&mut w, &v.name, r, &x)
                .map_err(|e| format!("write_record({:?},{}) failed: {:?}", v.name, r, e))?;
            put(&mut s, r, &x);
        }
    }
    drop(w);
    check_sparse(p, &s)?;
    // the reader
    if l.end > CAP * 2 {
        cx.label("file too large to read back");
        return Ok(());
    }
    let f = std::fs::OpenOptions::new().write(true).open(p).map_err(|e| e.to_string())?;
    if f.set_len(l.end.max(s.end()) as u64).is_err() {
        return Ok(());
    }
    drop(f);
    if ds.rec_vars().is_empty() && enc::numrecs_field(ds) == u32::MAX {
        return Ok(()); // the number of records is not recoverable
    }
    let exp_n = ds.num_records();
    let mut r = FileReader::open(p).map_err(|e| format!("open of the sparse file failed: {:?}", e))?;
    ensure_eq!(r.data_set().num_records(), exp_n, "num_records of the sparse file");
    cx.label_if(exp_n > Some(i32::MAX as usize), "more than 2^31-1 records read back");
    done.reverse();
    for (i, k) in done {
        let v = &ds.vars[i];
        let pos = l.begins[i] + if ds.is_rec(v) { k as u128 * l.stride } else { 0 };
        let exp = Vals::from_be(v.ty, &s.get(pos, ds.raw(v)));
        let got = read_record(&mut r, &v.name, k).map_err(|e| format!("read_record({:?},{}) failed: {:?}", v.name, k, e))?;
        ensure!(got == exp, "read_record({:?},{}) at {}: got {} expected {}", v.name, k, pos, short_pub(&got), short_pub(&exp));
    }
    for (i, v) in ds.vars.iter().enumerate() {
        let n = ds.nrec(v);
        if ds.chunk_len_big(v) * (n as u128) > SMALL as u128 {
            continue;
        }
        let mut b = vec![];
        for k in 0..n {
            let pos = l.begins[i] + if ds.is_rec(v) { k as u128 * l.stride } else { 0 };
            b.extend(s.get(pos, ds.raw(v)));
        }
        let exp = Vals::from_be(v.ty, &b);
        let got = read_var(&mut r, &v.name).map_err(|e| format!("read_var({:?}) failed: {:?}", v.name, e))?;
        ensure!(got == exp, "read_var({:?}): got {} expected {}", v.name, short_pub(&got), short_pub(&exp));
    }
    Ok(())
}

/// A 64-bit offset file whose variables begin anywhere.
fn reader_gaps(p: &Path, c: &C14, cx: &mut Cx) -> Chk {
    let ds = &c.ds;
    let hl = enc::header_len(ds, 2) as u128;
    let mut pos = hl;
    let mut begins = vec![0u128; ds.vars.len()];
    let gap = |k: usize| c.gaps[k % c.gaps.len()] as u128;
    for (i, v) in ds.vars.iter().enumerate() {
        if !ds.is_rec(v) {
            pos += gap(i);
            begins[i] = pos;
            pos += ds.vsize_big(v);
        }
    }
    pos += gap(ds.vars.len());
    for (i, v) in ds.vars.iter().enumerate() {
        if ds.is_rec(v) {
            begins[i] = pos;
            pos += ds.vsize_big(v);
        }
    }
    let stride = ds.stride_big();
    let numrecs = enc::numrecs_field(ds);
    if numrecs == u32::MAX {
        return Ok(());
    }
    if begins.iter().any(|b| *b > i64::MAX as u128) {
        return Ok(());
    }
    let vs: Vec<u32> = ds.vars.iter().map(|v| enc::vsize_field(ds, v)).collect();
    let bs: Vec<u64> = begins.iter().map(|b| *b as u64).collect();
    let f = File::create(p).map_err(|e| e.to_string())?;
    let mut s = Sparse { ext: BTreeMap::new(), max: 0 };
    s.put(0, enc::header(ds, 2, numrecs, &vs, &bs));
    let mut reads = vec![];
    for b in &c.writes {
        let i = b.v as usize % ds.vars.len();
        let v = &ds.vars[i];
        let n = ds.nrec(v);
        if ds.chunk_len_big(v) > SMALL as u128 || n == 0 {
            continue;
        }
        let k = if ds.is_rec(v) { rec_index(b.sel, n, begins[i], stride) } else { 0 };
        let at = begins[i] + if ds.is_rec(v) { k as u128 * stride } else { 0 };
        if at >= CAP {
            continue;
        }
        let x = b.d.expand(v.ty, ds.chunk_len(v));
        cx.label_if(at > 1 << 32, "read beyond 4 GiB");
        s.put(at, x.be_bytes());
        reads.push((i, k, x, b.whole));
    }
    for (at, b) in &s.ext {
        f.write_all_at(b, *at as u64).map_err(|e| format!("harness cannot write: {}", e))?;
    }
    drop(f);
    let mut r = FileReader::open(p).map_err(|e| format!("open of a conforming file failed: {:?}", e))?;
    let mut last: BTreeMap<(usize, usize), Vals> = BTreeMap::new();
    for (i, k, x, _) in &reads {
        last.insert((*i, *k), x.clone());
    }
    for (i, k, _, whole) in &reads {
        let v = &ds.vars[*i];
        let exp = &last[&(*i, *k)];
        let got = if *whole && !ds.is_rec(v) {
            read_var(&mut r, &v.name)
        } else {
            read_record(&mut r, &v.name, *k)
        };
        let got = got.map_err(|e| format!("reading {:?} (begin {}, record {}) failed: {:?}", v.name, begins[*i], k, e))?;
        ensure!(got == *exp, "{:?} record {} (begin {}): got {} expected {}", v.name, k, begins[*i], short_pub(&got), short_pub(exp));
    }
    Ok(())
}

/// Definitions with an attribute whose count of values does not fit its 32-bit field. The values
/// are zeros that are never touched as long as the definition is refused.
fn fixed(_t: bool) -> Vec<C14> {
    let mut o = vec![];
    for (k, (of_var, ty, more)) in
        [(false, Ty::U8, 0u32), (true, Ty::I8, 3), (false, Ty::I16, 1)].into_iter().enumerate()
    {
        for version in [1u8, 2] {
            let mut second = MDs::default();
            second.dims.push(MDim { name: "x".into(), size: 3, unlim: false });
            second.vars.push(MVar { name: "v".into(), ty: Ty::I16, dims: vec![0], attrs: vec![] });
            let mut ds = second.clone();
            if k == 2 {
                ds.vars.clear();
            }
            let second = FileCase { ds: second, version, min: MinSpec::Abs(0), data: vec![DataSpec { mode: 1, seed: 7 }] };
            o.push(C14 {
                ds,
                version,
                min: 0,
                writes: vec![],
                same: false,
                second,
                gaps: vec![0],
                huge_header: false,
                long_attr: Some((of_var, ty, more)),
            });
        }
    }
    for more in [5usize] {
        let mut c = o[0].clone();
        c.long_attr = None;
        c.huge_header = true;
        c.version = 2;
        c.min = (1 << 31) + more;
        c.writes = vec![BW { v: 0, sel: 0, whole: true, d: DataSpec { mode: 1, seed: 3 } }];
        o.push(c);
    }
    o
}

/// Bytes that can be written at `dir`.
fn room(dir: &Path) -> u64 {
    use std::os::unix::ffi::OsStrExt;
    let c = match std::ffi::CString::new(dir.as_os_str().as_bytes()) {
        Ok(c) => c,
        Err(_) => return 0,
    };
    let mut st: libc::statvfs = unsafe { std::mem::zeroed() };
    if unsafe { libc::statvfs(c.as_ptr(), &mut st) } != 0 {
        return 0;
    }
    st.f_bavail as u64 * st.f_frsize as u64
}

fn add_long_attr(ds: &mut netcdf3::DataSet, var: Option<&str>, ty: Ty, n: usize) -> Result<(), String> {
    macro_rules! add {
        ($t:ty, $g:ident, $v:ident) => {{
            let x: Vec<$t> = vec![0 as $t; n];
            match var {
                None => ds.$g("long", x),
                Some(v) => ds.$v(v, "long", x),
            }
        }};
    }
    match ty {
        Ty::I8 => add!(i8, add_global_attr_i8, add_var_attr_i8),
        Ty::U8 => add!(u8, add_global_attr_u8, add_var_attr_u8),
        Ty::I16 => add!(i16, add_global_attr_i16, add_var_attr_i16),
        Ty::I32 => add!(i32, add_global_attr_i32, add_var_attr_i32),
        Ty::F32 => add!(f32, add_global_attr_f32, add_var_attr_f32),
        Ty::F64 => add!(f64, add_global_attr_f64, add_var_attr_f64),
    }
    .map_err(|e| format!("cannot define an attribute of {} values: {:?}", n, e))
}

/// A definition with an attribute that is too long is refused, and the writer stays usable.
fn long_attr(c: &C14, of_var: bool, ty: Ty, more: u32, cx: &mut Cx) -> Chk {
    cx.label("attribute of 2^31 values and more");
    cx.nontrivial(true);
    let p = cx.path();
    let mut real = build(&c.ds)?;
    let var = if of_var { Some(c.ds.vars[0].name.as_str()) } else { None };
    add_long_attr(&mut real, var, ty, (1usize << 31) + more as usize)?;
    let f = &c.second;
    let real2 = build(&f.ds)?;
    let mut w = FileWriter::open(&p).map_err(|e| format!("open: {:?}", e))?;
    let r = w.set_def(&real, ver(c.version), c.min);
    match r {
        Ok(()) => return Err("set_def accepted an attribute of more than 2^31-1 values".to_string()),
        Err(WriteError::ClassicVersionNotPossible) if c.version == 1 && !c.ds.vars.is_empty() => {}
        Err(WriteError::ClassicVersionNotPossible) => {
            return Err("set_def refused with ClassicVersionNotPossible, no offset is too large".to_string())
        }
        Err(_) if c.version == 1 && !c.ds.vars.is_empty() => {
            return Err(format!("set_def refused with {:?}, the classic offsets do not fit", r))
        }
        Err(_) => {}
    }
    ensure!(!w.header_is_defined(), "header_is_defined after a refusal");
    ensure_eq!(std::fs::metadata(&p).map_err(|e| e.to_string())?.len(), 0, "file length after a refusal");
    w.set_def(&real2, ver(f.version), f.min()).map_err(|e| format!("set_def after a refusal failed: {:?}", e))?;
    let data = f.values();
    for (i, v) in f.ds.vars.iter().enumerate() {
        write_var(&mut w, &v.name, &data[i]).map_err(|e| format!("write_var failed: {:?}", e))?;
    }
    w.close().map_err(|e| format!("close failed: {:?}", e))?;
    let got = std::fs::read(&p).map_err(|e| e.to_string())?;
    bytes_same(&got, &enc::canonical_file(&f.ds, f.version, f.min(), &data))
}

fn check(c: &C14, cx: &mut Cx) -> Chk {
    if let Some((of_var, ty, more)) = c.long_attr {
        return long_attr(c, of_var, ty, more, cx);
    }
    if c.huge_header {
        if room(&cx.dir) < 6 << 30 {
            cx.label("no room for a header of 2 GiB");
            return Ok(());
        }
        cx.label("header of more than 2 GiB");
    }
    let p = cx.path();
    let real = build(&c.ds)?;
    let real2 = build(&c.second.ds)?;
    let must_fail = refused(&c.ds, c.version, c.min);
    let l = enc::canonical_layout(&c.ds, c.version, c.min);
    cx.label_if(l.begins.iter().any(|b| *b > (1 << 31) - 64 && *b < (1 << 31) + 64), "begin within 64 bytes of 2^31");
    cx.label_if(l.begins.iter().any(|b| *b >= 1 << 32), "begin beyond 4 GiB");
    cx.label_if(c.ds.vars.iter().any(|v| c.ds.vsize_big(v) > i32::MAX as u128), "vsize beyond 2^31-1");
    cx.label_if(enc::numrecs_field(&c.ds) == u32::MAX, "record count beyond 2^31-1");
    let mut w = FileWriter::open(&p).map_err(|e| format!("open: {:?}", e))?;
    let r = w.set_def(&real, ver(c.version), c.min);
    if must_fail {
        cx.nontrivial(true);
        cx.label_if(c.version == 1, "classic refused");
        cx.label_if(c.version == 2, "64-bit offset refused");
        match r {
            Ok(()) => return Err(format!("set_def accepted a definition whose offsets do not fit: {:?}", l.begins)),
            Err(WriteError::ClassicVersionNotPossible) if c.version == 1 => {}
            Err(e) if c.version == 1 => return Err(format!("set_def refused with {:?}", e)),
            Err(_) => {}
        }
        ensure!(!w.header_is_defined(), "header_is_defined after a refusal");
        ensure!(w.data_set().is_none(), "data_set after a refusal");
        ensure!(w.version().is_none(), "version after a refusal");
        ensure!(w.header_min_size().is_none(), "header_min_size after a refusal");
        ensure_eq!(std::fs::metadata(&p).map_err(|e| e.to_string())?.len(), 0, "file length after a refusal");
        let v = &c.ds.vars[0];
        ensure_eq!(
            write_var(&mut w, &v.name, &Vals::from_be(v.ty, &[])),
            Err(WriteError::HeaderNotDefined),
            "write_var after a refusal"
        );
        if c.same && c.version == 1 && !refused(&c.ds, 2, c.min % 10000) {
            let min = c.min % 10000;
            w.set_def(&real, ver(2), min).map_err(|e| format!("the 64-bit offset version was refused: {:?}", e))?;
            cx.label("same definition accepted as 64-bit offset");
            sparse_io(w, &p, c, 2, min, cx)?;
        } else {
            let f = &c.second;
            w.set_def(&real2, ver(f.version), f.min()).map_err(|e| format!("set_def after a refusal failed: {:?}", e))?;
            let data = f.values();
            for (i, v) in f.ds.vars.iter().enumerate() {
                write_var(&mut w, &v.name, &data[i]).map_err(|e| format!("write_var failed: {:?}", e))?;
            }
            w.close().map_err(|e| format!("close failed: {:?}", e))?;
            let got = std::fs::read(&p).map_err(|e| e.to_string())?;
            bytes_same(&got, &enc::canonical_file(&f.ds, f.version, f.min(), &data))?;
        }
    } else {
        if let Err(e) = r {
            return Err(format!("set_def refused with {:?} a definition whose offsets fit: {:?}", e, l.begins));
        }
        ensure!(w.header_is_defined(), "header_is_defined after set_def");
        cx.nontrivial(c.ds.vars.iter().any(|v| c.ds.vsize_big(v) > i32::MAX as u128));
        sparse_io(w, &p, c, c.version, c.min, cx)?;
    }
    let p2 = cx.path();
    reader_gaps(&p2, c, cx)
}

pub fn c14() -> Prop<C14> {
    Prop {
        id: "C14",
        rule: "definitions with dimension sizes and record counts around 2^31, 2^32 and beyond, begin offsets tuned to both sides of 2^31; set_def, then writes and reads in sparse files at positions up to 4 TiB; non-trivial: a refusal, a chunk above 2^31-1 or data at 2 GiB or above",
        strategy,
        check,
        fixed,
        quick: 144000,
        thorough: 9000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}
