//! C01 round trip, C02 byte-exact encoding, C18 rewrite identity, C20 header space, C16 creation modes.
use crate::api::*;
use crate::engine::*;
use crate::enc;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use netcdf3::{FileReader, FileWriter, ReadError, WriteError};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::Path;

/// Writes a complete file: variables in the given rotation, each whole or record by record.
pub fn write_full(path: &Path, c: &FileCase, data: &[Vals], order: u32) -> Result<(), String> {
    let ds = build(&c.ds)?;
    let mut w = FileWriter::open(path).map_err(|e| format!("open: {:?}", e))?;
    w.set_def(&ds, ver(c.version), c.min()).map_err(|e| format!("set_def failed: {:?}", e))?;
    let n = c.ds.vars.len();
    let mut s = order as u64;
    let mut idx: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = (splitmix(&mut s) % (i as u64 + 1)) as usize;
        if order > 0 {
            idx.swap(i, j);
        }
    }
    for i in idx {
        let v = &c.ds.vars[i];
        let by_rec = order > 0 && splitmix(&mut s) % 2 == 0;
        if by_rec {
            let cl = c.ds.chunk_len(v);
            let nr = c.ds.nrec(v);
            let rev = splitmix(&mut s) % 2 == 0;
            for k in 0..nr {
                let r = if rev { nr - 1 - k } else { k };
                write_record(&mut w, &v.name, r, &slice_rec(&data[i], cl, r))
                    .map_err(|e| format!("write_record({:?},{}) failed: {:?}", v.name, r, e))?;
            }
        } else {
            write_var(&mut w, &v.name, &data[i]).map_err(|e| format!("write_var({:?}) failed: {:?}", v.name, e))?;
        }
    }
    w.close().map_err(|e| format!("close failed: {:?}", e))?;
    Ok(())
}

pub fn file_labels(cx: &mut Cx, m: &MDs, version: u8) {
    let rec = m.rec_vars().len();
    cx.label_if(version == 1, "classic");
    cx.label_if(version == 2, "offset64");
    cx.label_if(rec >= 2, "several record variables");
    cx.label_if(rec == 1, "one record variable");
    cx.label_if(m.packed(), "packed lone record variable");
    cx.label_if(rec > 0 && rec < m.vars.len(), "fixed and record variables");
    cx.label_if(rec > 0 && m.num_records() == Some(0), "zero records");
    cx.label_if(m.vars.iter().any(|v| v.dims.is_empty()), "scalar variable");
    let attrs = || m.gattrs.iter().chain(m.vars.iter().flat_map(|v| v.attrs.iter()));
    cx.label_if(attrs().any(|a| a.vals.len() == 0), "zero-length attribute");
    cx.label_if(
        attrs().any(|a| (a.vals.len() * a.vals.ty().size()) % 4 != 0),
        "attribute with padding",
    );
    cx.label_if(
        m.vars.iter().any(|v| v.attrs.iter().any(|a| match &a.vals {
            Vals::F32(x) => x.iter().any(|b| f32::from_bits(*b).is_nan()),
            Vals::F64(x) => x.iter().any(|b| f64::from_bits(*b).is_nan()),
            _ => false,
        })),
        "NaN attribute",
    );
    let h = enc::header_len(m, version);
    cx.label_if(h > 1024, "header > 1024 bytes");
    cx.label_if(h > 4096, "header > 4096 bytes");
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C01 {
    f: FileCase,
    order: u32,
}

fn c01_strategy(_t: bool) -> BoxedStrategy<C01> {
    (file_case(DsOpts::default()), prop_oneof![1 => Just(0u32), 2 => 1u32..100000])
        .prop_map(|(f, order)| C01 { f, order })
        .boxed()
}

fn c01_check(c: &C01, cx: &mut Cx) -> Chk {
    let data = c.f.values();
    let p = cx.path();
    file_labels(cx, &c.f.ds, c.f.version);
    cx.nontrivial(!c.f.ds.vars.is_empty() && data.iter().any(|d| d.len() > 0));
    let r = write_full(&p, &c.f, &data, c.order);
    r?;
    check_read_back(&p, c.f.version, &c.f.ds, &data)
}

pub fn c01() -> Prop<C01> {
    Prop {
        id: "C01",
        rule: "random definitions (dims, attributes of every type/length, variables, 0..n records), version, header_min_size, data bit patterns, write order; non-trivial: at least one variable with data",
        strategy: c01_strategy,
        check: c01_check,
        fixed: |t| crowded_cases(t).into_iter().map(|f| C01 { f, order: 0 }).collect(),
        quick: 144000,
        thorough: 9000000,
        workers: 8,
        case_timeout: 600,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C02 {
    f: FileCase,
    order: u32,
    /// a definition of any size whose header is compared, without data
    #[serde(default)]
    big: Option<(MDs, u8, usize)>,
}

/// A definition that is accepted by the version it comes with.
pub fn big_accepted() -> BoxedStrategy<Option<(MDs, u8, usize)>> {
    let b = (crate::props::big::big_ds(), version(), prop_oneof![3 => Just(0usize), 1 => 0usize..3000]);
    prop_oneof![
        5 => Just(None),
        1 => b.prop_map(|(ds, v, min)| {
            if !crate::props::big::refused(&ds, v, min) {
                Some((ds, v, min))
            } else if !crate::props::big::refused(&ds, 2, min) {
                Some((ds, 2, min))
            } else {
                None
            }
        })
    ]
    .boxed()
}

/// Defines the data set, drops the writer and compares the header and its padding.
pub fn header_only(p: &Path, m: &MDs, v: u8, min: usize) -> Chk {
    let ds = build(m)?;
    let mut w = FileWriter::open(p).map_err(|e| format!("open: {:?}", e))?;
    w.set_def(&ds, ver(v), min).map_err(|e| format!("set_def failed: {:?}", e))?;
    drop(w);
    let exp = enc::canonical_header(m, v, min);
    use std::io::Read;
    let mut got = vec![];
    let f = std::fs::File::open(p).map_err(|e| e.to_string())?;
    f.take(exp.len() as u64).read_to_end(&mut got).map_err(|e| e.to_string())?;
    bytes_same(&got, &exp).map_err(|e| format!("header of a definition without data: {}", e))
}

fn c02_check(c: &C02, cx: &mut Cx) -> Chk {
    if let Some((m, v, min)) = &c.big {
        cx.label("header of a huge definition");
        let p = cx.path();
        header_only(&p, m, *v, *min)?;
    }
    let data = c.f.values();
    let p = cx.path();
    file_labels(cx, &c.f.ds, c.f.version);
    cx.nontrivial(!c.f.ds.vars.is_empty() && data.iter().any(|d| d.len() > 0));
    write_full(&p, &c.f, &data, c.order)?;
    let got = std::fs::read(&p).map_err(|e| e.to_string())?;
    let exp = enc::canonical_file(&c.f.ds, c.f.version, c.f.min(), &data);
    bytes_same(&got, &exp)?;
    // self-check of the oracle: the strict decoder reads the reference encoding back
    let d = enc::decode(&exp, exp.len() as u64).map_err(|e| format!("oracle decoder rejects oracle encoding: {:?}", e))?;
    ensure!(d.ds == c.f.ds, "oracle decoder disagrees with oracle encoder");
    Ok(())
}

pub fn c02() -> Prop<C02> {
    Prop {
        id: "C02",
        rule: "as C01; the closed file is compared byte for byte with an independent encoder; non-trivial: at least one variable with data. In a sixth of the cases also the header of a definition of any size, without data",
        strategy: |t| {
            (c01_strategy(t), big_accepted()).prop_map(|(c, big)| C02 { f: c.f, order: c.order, big }).boxed()
        },
        check: c02_check,
        fixed: |t| crowded_cases(t).into_iter().map(|f| C02 { f, order: 0, big: None }).collect(),
        quick: 144000,
        thorough: 9000000,
        workers: 8,
        case_timeout: 600,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C18

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C18 {
    f: FileCase,
    rounds: u8,
}

fn rewrite(src: &Path, dst: &Path, version: u8, min: usize, ds_model: &MDs) -> Result<(), String> {
    let mut r = FileReader::open(src).map_err(|e| format!("open failed: {:?}", e))?;
    let all = r.read_all_vars().map_err(|e| format!("read_all_vars failed: {:?}", e))?;
    ensure_eq!(all.len(), ds_model.vars.len(), "read_all_vars size");
    let (ds, _v) = r.close();
    let mut w = FileWriter::create_new(dst).map_err(|e| format!("create_new: {:?}", e))?;
    w.set_def(&ds, ver(version), min).map_err(|e| format!("set_def on a read data set failed: {:?}", e))?;
    for v in &ds_model.vars {
        let d = all.get(&v.name).ok_or("read_all_vars lacks a variable")?;
        write_var(&mut w, &v.name, &from_dv(d)).map_err(|e| format!("write_var failed: {:?}", e))?;
    }
    w.close().map_err(|e| format!("close failed: {:?}", e))?;
    Ok(())
}

fn c18_check(c: &C18, cx: &mut Cx) -> Chk {
    let data = c.f.values();
    file_labels(cx, &c.f.ds, c.f.version);
    cx.nontrivial(!c.f.ds.vars.is_empty() && data.iter().any(|d| d.len() > 0));
    let exp = enc::canonical_file(&c.f.ds, c.f.version, c.f.min(), &data);
    let src = cx.path();
    std::fs::write(&src, &exp).map_err(|e| e.to_string())?;
    let mut cur = src.clone();
    for _ in 0..(1 + c.rounds % 3) {
        let dst = cx.path();
        rewrite(&cur, &dst, c.f.version, c.f.min(), &c.f.ds)?;
        let got = std::fs::read(&dst).map_err(|e| e.to_string())?;
        bytes_same(&got, &exp)?;
        cur = dst;
    }
    // other version
    let other = 3 - c.f.version;
    let dst = cx.path();
    rewrite(&cur, &dst, other, 0, &c.f.ds)?;
    check_read_back(&dst, other, &c.f.ds, &data)?;
    // and back again
    let back = cx.path();
    rewrite(&dst, &back, c.f.version, c.f.min(), &c.f.ds)?;
    let got = std::fs::read(&back).map_err(|e| e.to_string())?;
    bytes_same(&got, &exp)
}

pub fn c18() -> Prop<C18> {
    Prop {
        id: "C18",
        rule: "canonical files made by the reference encoder, read and rewritten 1..3 times, through the other version and back; non-trivial: at least one variable with data",
        strategy: |_| {
            (file_case(DsOpts::default()), 0u8..3).prop_map(|(f, rounds)| C18 { f, rounds }).boxed()
        },
        check: c18_check,
        fixed: no_fixed,
        quick: 48000,
        thorough: 3000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C20

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C20 {
    f: FileCase,
    mins: Vec<MinSpec>,
    /// a space of 2 GiB and more, in a sparse file
    #[serde(default)]
    huge: Option<u64>,
}

/// The same for a header space too long to be stored: the zeros are looked at where they are
/// written, and left out of the file.
fn c20_huge(c: &C20, data: &[Vals], min: u64, cx: &mut Cx) -> Chk {
    let (ds, version) = (&c.f.ds, c.f.version);
    let l = enc::canonical_layout(ds, version, min as usize);
    let (hl, start) = (l.header_len as u64, l.data_start as u64);
    let f = FileCase { min: MinSpec::Abs(min as usize), ..c.f.clone() };
    let p = cx.path();
    if version == 1 && l.begins.iter().any(|b| *b > i32::MAX as u128) {
        cx.label("header space beyond 2 GiB refused");
        let real = build(ds)?;
        let mut w = FileWriter::open(&p).map_err(|e| format!("open: {:?}", e))?;
        let g = crate::sys::PlanGuard::set(crate::sys::Plan::Skip(hl, u64::MAX));
        let r = w.set_def(&real, ver(version), min as usize);
        drop(g);
        ensure_eq!(r, Err(netcdf3::WriteError::ClassicVersionNotPossible), "definition with data beyond 2^31-1");
        drop(w);
        ensure_eq!(std::fs::metadata(&p).map_err(|e| e.to_string())?.len(), 0, "length of the file after the refusal");
        return Ok(());
    }
    cx.label("header space beyond 2 GiB");
    let g = crate::sys::PlanGuard::set(crate::sys::Plan::Skip(hl, start - 1));
    let r = write_full(&p, &f, data, 0);
    let other = crate::sys::skipped_other();
    drop(g);
    if r.is_err() && std::fs::File::open(&p).and_then(|f| f.set_len(start)).is_err() {
        cx.label("no room for a sparse file");
        return Ok(());
    }
    r?;
    ensure!(!other, "header space of {} bytes is not filled with zeros", start);
    let file = std::fs::File::open(&p).map_err(|e| e.to_string())?;
    ensure_eq!(file.metadata().map_err(|e| e.to_string())?.len() as u128, l.end, "length of a file with a header space of {}", start);
    use std::os::unix::fs::FileExt;
    let mut b = vec![0; hl as usize];
    file.read_exact_at(&mut b, 0).map_err(|e| e.to_string())?;
    let d = enc::decode(&b, l.end as u64).map_err(|e| format!("written header does not conform: {:?}", e))?;
    for (i, v) in ds.vars.iter().enumerate() {
        ensure_eq!(d.begins[i] as u128, l.begins[i], "begin of {:?}", v.name);
    }
    let mut t = vec![0; (l.end - start as u128) as usize];
    file.read_exact_at(&mut t, start).map_err(|e| e.to_string())?;
    let small = enc::canonical_file(ds, version, 0, data);
    ensure!(t == small[small.len() - t.len()..], "the data part depends on the requested header size");
    check_read_back(&p, version, ds, data)
}

fn c20_check(c: &C20, cx: &mut Cx) -> Chk {
    let data = c.f.values();
    file_labels(cx, &c.f.ds, c.f.version);
    cx.nontrivial(c.mins.iter().any(|m| m.get(&c.f.ds, c.f.version) > enc::header_len(&c.f.ds, c.f.version)));
    let hl = enc::header_len(&c.f.ds, c.f.version);
    let mut tails: Vec<Vec<u8>> = vec![];
    for ms in &c.mins {
        let min = ms.get(&c.f.ds, c.f.version);
        let f = FileCase { min: MinSpec::Abs(min), ..c.f.clone() };
        let p = cx.path();
        write_full(&p, &f, &data, 0)?;
        let b = std::fs::read(&p).map_err(|e| e.to_string())?;
        let start = std::cmp::max(hl, min);
        let start = start + enc::pad4(start);
        ensure!(b.len() >= start, "file shorter ({}) than the requested header space ({})", b.len(), start);
        if let Some(k) = b[hl..start].iter().position(|x| *x != 0) {
            return Err(format!("header space has a non-zero byte at {}", hl + k));
        }
        let d = enc::decode(&b, b.len() as u64).map_err(|e| format!("written header does not conform: {:?}", e))?;
        ensure_eq!(d.len, hl, "header length");
        let l = enc::canonical_layout(&c.f.ds, c.f.version, min);
        for (i, v) in c.f.ds.vars.iter().enumerate() {
            ensure_eq!(d.begins[i] as u128, l.begins[i], "begin of {:?}", v.name);
        }
        if let Some(m) = d.begins.iter().min() {
            ensure_eq!(*m as usize, start, "beginning of the data part");
        } else {
            ensure_eq!(b.len(), start, "length of a file without variables");
        }
        tails.push(b[start..].to_vec());
        check_read_back(&p, c.f.version, &c.f.ds, &data)?;
    }
    for t in &tails[1..] {
        ensure!(*t == tails[0], "the data part depends on the requested header size");
    }
    if let Some(min) = c.huge {
        c20_huge(c, &data, min, cx)?;
    }
    Ok(())
}

pub fn c20() -> Prop<C20> {
    Prop {
        id: "C20",
        rule: "definitions written with several header_min_size values (around the needed size, arbitrary, large); non-trivial: some requested size exceeds the needed one",
        strategy: |_| {
            let m = prop_oneof![
                60 => (-9i32..40).prop_map(MinSpec::Rel),
                40 => (0usize..6000).prop_map(MinSpec::Abs),
                20 => (0usize..60000).prop_map(MinSpec::Abs),
                2 => (60000usize..400000).prop_map(MinSpec::Abs),
                1 => (0usize..9, proptest::sample::select(vec![65536usize, 131072, 1 << 20, 1 << 21]))
                    .prop_map(|(a, b)| MinSpec::Abs(a + b - 4)),
            ];
            // refused in a classic file with variables (cheap), else 2 GiB to be written (rare)
            let huge = prop_oneof![
                30 => Just(None),
                1 => ((1u64 << 31)..(1u64 << 33)).prop_map(Some),
                1 => (0u64..12).prop_map(|k| Some((1u64 << 32) - 6 + k)),
                2 => (0u64..3000).prop_map(|k| Some((1u64 << 32) + k)),
                1 => (0u64..3000).prop_map(|k| Some((1u64 << 31) + k)),
            ];
            let rare = prop_oneof![
                8000 => Just(None),
                1 => ((1u64 << 31) - 12..(1u64 << 31) + 4).prop_map(Some),
            ];
            (file_case(DsOpts { max_vars: 4, ..DsOpts::default() }), vec(m, 2..5), huge, rare)
                .prop_map(|(f, mins, huge, rare)| {
                    let huge = rare.or(huge.filter(|_| f.version == 1 && !f.ds.vars.is_empty()));
                    C20 { f, mins, huge }
                })
                .boxed()
        },
        check: c20_check,
        fixed: no_fixed,
        quick: 48000,
        thorough: 3000000,
        workers: 8,
        case_timeout: 240,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C16

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Prev {
    None,
    Bytes(u32, u8),
    /// a valid file of another case
    File(FileCase),
    Dir,
    /// symbolic link to an existing file of n bytes
    Link(u16),
    /// symbolic link to a missing file
    Dangling,
    /// the parent directory does not exist
    NoParent,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C16 {
    f: FileCase,
    prev: Prev,
    /// how far the write goes: 0 open only, 1 set_def, 2 everything and close
    stage: u8,
    writes: u8,
    fname: u8,
    /// how the path is spelled
    #[serde(default)]
    spell: u8,
    /// 1: reads the file before it is replaced and after; 2: also from an unprivileged thread
    #[serde(default)]
    extra: u8,
}

/// The same place, spelled differently. `dir` is absolute and holds `d/`.
fn spelled(base: &Path, rel: &std::ffi::OsStr, how: u8) -> std::path::PathBuf {
    let name = Path::new(rel);
    match how % 8 {
        1 => base.join(".").join("d").join(".").join(name),
        2 => base.join("d").join("..").join("d").join(name),
        3 => std::path::PathBuf::from(format!("{}//d//{}", base.display(), "")).join(name),
        4 => match std::env::current_dir() {
            Ok(cwd) => {
                let mut p = std::path::PathBuf::new();
                for _ in cwd.components().skip(1) {
                    p.push("..");
                }
                let tail: std::path::PathBuf = base.components().skip(1).collect();
                p.push(tail);
                p.join("d").join(name)
            }
            Err(_) => base.join("d").join(name),
        },
        _ => base.join("d").join(name),
    }
}

/// Reads a finished file and compares it with the case it was written from.
fn c16_content(path: &Path, f: &FileCase, data: &[Vals]) -> Chk {
    let mut r = FileReader::open(path).map_err(|e| format!("open for reading: {:?}", e))?;
    ensure_eq!(r.file_path(), path, "file_path of the reader");
    ensure_eq!(ver_num(&r.version()), f.version, "version read");
    same(r.data_set(), &f.ds)?;
    for (i, v) in f.ds.vars.iter().enumerate() {
        let got = read_var(&mut r, &v.name).map_err(|e| format!("read_var({:?}): {:?}", v.name, e))?;
        ensure_eq!(got, data[i], "values of {:?}", v.name);
    }
    let (ds, version) = r.close();
    ensure_eq!(ver_num(&version), f.version, "version given back by close");
    same(&ds, &f.ds)
}

/// Acts as an unprivileged user on files until dropped; only this thread is concerned.
struct FsUser;

impl FsUser {
    fn become_nobody() -> Option<FsUser> {
        unsafe {
            libc::syscall(libc::SYS_setfsuid, 65534);
            let u = FsUser;
            // a call with an invalid identifier only reports the current one
            if libc::syscall(libc::SYS_setfsuid, u32::MAX as libc::c_long) == 65534 {
                Some(u)
            } else {
                None
            }
        }
    }
}

impl Drop for FsUser {
    fn drop(&mut self) {
        unsafe {
            libc::syscall(libc::SYS_setfsuid, libc::geteuid() as libc::c_long);
        }
    }
}

/// A file that may only be read is readable and cannot be replaced.
fn c16_unprivileged(c: &C16, data: &[Vals], base: &Path, cx: &mut Cx) -> Chk {
    use std::os::unix::fs::PermissionsExt;
    let dir = base.join("ro");
    let path = dir.join("f.nc");
    let bytes = enc::canonical_file(&c.f.ds, c.f.version, c.f.min(), data);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    std::fs::write(&path, &bytes).map_err(|e| e.to_string())?;
    std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o444)).map_err(|e| e.to_string())?;
    std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755)).map_err(|e| e.to_string())?;
    let res = (|| -> Chk {
        let _u = match FsUser::become_nobody() {
            Some(u) => u,
            None => return Ok(()),
        };
        // only where the situation is the one meant here
        if std::fs::read(&path).is_err() || std::fs::OpenOptions::new().write(true).open(&path).is_ok() {
            return Ok(());
        }
        cx.label("unprivileged user");
        c16_content(&path, &c.f, data).map_err(|e| format!("read-only file: {}", e))?;
        match FileWriter::open(&path) {
            Err(WriteError::IOErrorKind(std::io::ErrorKind::PermissionDenied)) => {}
            r => return Err(format!("open for writing of a read-only file: {:?}", r.map(|_| ()))),
        }
        match FileWriter::create_new(&path) {
            Err(WriteError::IOErrorKind(std::io::ErrorKind::AlreadyExists))
            | Err(WriteError::IOErrorKind(std::io::ErrorKind::PermissionDenied)) => {}
            r => return Err(format!("create_new over a read-only file: {:?}", r.map(|_| ()))),
        }
        let other = dir.join("new.nc");
        match FileWriter::create_new(&other) {
            Err(WriteError::IOErrorKind(std::io::ErrorKind::PermissionDenied)) => {}
            r => return Err(format!("create_new in a read-only directory: {:?}", r.map(|_| ()))),
        }
        match FileWriter::open(&other) {
            Err(WriteError::IOErrorKind(std::io::ErrorKind::PermissionDenied)) => {}
            r => return Err(format!("open in a read-only directory: {:?}", r.map(|_| ()))),
        }
        ensure!(!other.exists(), "a refused creation left a file");
        Ok(())
    })();
    res?;
    bytes_same(&std::fs::read(&path).map_err(|e| e.to_string())?, &bytes)?;
    std::fs::remove_dir_all(&dir).map_err(|e| e.to_string())
}

fn c16_stage(w: FileWriter, c: &C16, ds: &netcdf3::DataSet, data: &[Vals]) -> Chk {
    let mut w = w;
    if c.stage % 3 >= 1 {
        w.set_def(ds, ver(c.f.version), c.f.min()).map_err(|e| format!("set_def: {:?}", e))?;
        for (i, v) in c.f.ds.vars.iter().enumerate() {
            if c.writes >> (i % 8) & 1 == 1 {
                write_var(&mut w, &v.name, &data[i]).map_err(|e| format!("write_var: {:?}", e))?;
            }
        }
    }
    if c.stage % 3 == 2 {
        w.close().map_err(|e| format!("close: {:?}", e))?;
    } else {
        drop(w);
    }
    Ok(())
}

fn c16_check(c: &C16, cx: &mut Cx) -> Chk {
    let data = c.f.values();
    let ds = build(&c.f.ds)?;
    let base = cx.dir.clone();
    let nm: std::ffi::OsString = {
        use std::os::unix::ffi::OsStringExt;
        match c.fname % 10 {
            k @ 0..=5 => ["out.nc", "a b.nc", "é.nc", "noext", ".hidden", "x.NC"][k as usize].into(),
            6 => std::ffi::OsString::from_vec(vec![b'a', 0xff, 0xfe, b'.', b'n', b'c']),
            7 => "n".repeat(255).into(),
            8 => "-\n%s\\*?".into(),
            _ => "~".into(),
        }
    };
    let nm = nm.as_os_str();
    let dir = base.join("d");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let (path, prev_bytes): (std::path::PathBuf, Option<Vec<u8>>) = match &c.prev {
        Prev::None | Prev::Dir | Prev::Dangling => (spelled(&base, nm, c.spell), None),
        Prev::Bytes(n, b) => (spelled(&base, nm, c.spell), Some((0..*n).map(|i| (i as u8).wrapping_mul(31) ^ *b).collect())),
        Prev::File(f) => (spelled(&base, nm, c.spell), Some(enc::canonical_file(&f.ds, f.version, f.min(), &f.values()))),
        Prev::Link(n) => (spelled(&base, nm, c.spell), Some(vec![0xEE; *n as usize])),
        Prev::NoParent => (dir.join("missing").join(nm), None),
    };
    let target = dir.join("target_of_link");
    let setup = || -> std::io::Result<()> {
        match &c.prev {
            Prev::None | Prev::NoParent => {}
            Prev::Dir => std::fs::create_dir_all(&path)?,
            Prev::Bytes(..) | Prev::File(_) => std::fs::write(&path, prev_bytes.as_ref().unwrap())?,
            Prev::Link(_) => {
                std::fs::write(&target, prev_bytes.as_ref().unwrap())?;
                std::os::unix::fs::symlink(&target, &path)?;
            }
            Prev::Dangling => std::os::unix::fs::symlink(&target, &path)?,
        }
        Ok(())
    };
    let listing = || -> Vec<(String, u64)> {
        let mut v: Vec<(String, u64)> = std::fs::read_dir(&dir)
            .unwrap()
            .flatten()
            .map(|e| (e.file_name().to_string_lossy().to_string(), e.metadata().map(|m| m.len()).unwrap_or(0)))
            .collect();
        v.sort();
        v
    };
    cx.nontrivial(!matches!(c.prev, Prev::None));
    cx.label(match c.prev {
        Prev::None => "no previous file",
        Prev::Bytes(..) => "previous bytes",
        Prev::File(_) => "previous NetCDF file",
        Prev::Dir => "directory",
        Prev::Link(_) => "symlink",
        Prev::Dangling => "dangling symlink",
        Prev::NoParent => "no parent",
    });
    setup().map_err(|e| e.to_string())?;

    // reference: what the same history produces in a fresh file
    let fresh = base.join("fresh.nc");
    {
        let w = FileWriter::create_new(&fresh).map_err(|e| format!("create_new on a new path: {:?}", e))?;
        ensure_eq!(w.file_path(), fresh.as_path(), "file_path of create_new");
        c16_stage(w, c, &ds, &data)?;
    }
    let want = std::fs::read(&fresh).map_err(|e| e.to_string())?;
    if c.stage % 3 == 2 {
        let all = c.writes == 0xff;
        if all {
            bytes_same(&want, &enc::canonical_file(&c.f.ds, c.f.version, c.f.min(), &data))?;
        }
    }

    // reading something that is not there (or not a file) creates nothing
    let before = listing();
    if matches!(c.prev, Prev::None | Prev::NoParent | Prev::Dangling) {
        match FileReader::open(&path) {
            Err(ReadError::IOErrorKind(std::io::ErrorKind::NotFound)) => {}
            r => return Err(format!("opening a missing file for reading: {:?}", r.map(|_| ()))),
        }
    }
    if matches!(c.prev, Prev::Dir) {
        match FileReader::open(&path) {
            Err(ReadError::IOErrorKind(_)) => {}
            r => return Err(format!("opening a directory for reading: {:?}", r.map(|_| ()))),
        }
    }
    // what is there is read, and stays as it is
    if let (Prev::File(f), true) = (&c.prev, c.extra >= 1) {
        c16_content(&path, f, &f.values()).map_err(|e| format!("previous file: {}", e))?;
        bytes_same(&std::fs::read(&path).map_err(|e| e.to_string())?, prev_bytes.as_ref().unwrap())?;
    }
    ensure_eq!(listing(), before, "directory content after reading");

    // create_new never touches something that exists
    let r = FileWriter::create_new(&path);
    match (&c.prev, r) {
        (Prev::None, Ok(w)) => {
            c16_stage(w, c, &ds, &data)?;
            bytes_same(&std::fs::read(&path).map_err(|e| e.to_string())?, &want)?;
            // a second one is refused and leaves it
            match FileWriter::create_new(&path) {
                Err(WriteError::IOErrorKind(std::io::ErrorKind::AlreadyExists)) => {}
                r => return Err(format!("create_new on an existing file: {:?}", r.map(|_| ()))),
            }
            bytes_same(&std::fs::read(&path).map_err(|e| e.to_string())?, &want)?;
        }
        (Prev::NoParent, Err(WriteError::IOErrorKind(std::io::ErrorKind::NotFound))) => {
            match FileWriter::open(&path) {
                Err(WriteError::IOErrorKind(std::io::ErrorKind::NotFound)) => {}
                r => return Err(format!("open without a parent directory: {:?}", r.map(|_| ()))),
            }
            ensure_eq!(listing(), before, "directory content after refused calls");
            return Ok(());
        }
        (Prev::Bytes(..), Err(WriteError::IOErrorKind(std::io::ErrorKind::AlreadyExists)))
        | (Prev::File(_), Err(WriteError::IOErrorKind(std::io::ErrorKind::AlreadyExists)))
        | (Prev::Link(_), Err(WriteError::IOErrorKind(std::io::ErrorKind::AlreadyExists)))
        | (Prev::Dangling, Err(WriteError::IOErrorKind(std::io::ErrorKind::AlreadyExists)))
        | (Prev::Dir, Err(WriteError::IOErrorKind(std::io::ErrorKind::AlreadyExists))) => {
            ensure_eq!(listing(), before, "directory content after create_new was refused");
            if let Some(b) = &prev_bytes {
                bytes_same(&std::fs::read(&path).map_err(|e| e.to_string())?, b)?;
            }
        }
        (p, r) => return Err(format!("create_new with {:?}: {:?}", short_pub(p), r.map(|_| ()))),
    }

    // open replaces the previous content completely
    let r = FileWriter::open(&path);
    match (&c.prev, r) {
        (Prev::Dir, Err(WriteError::IOErrorKind(_))) => {
            ensure_eq!(listing(), before, "directory content after open of a directory");
        }
        (Prev::Dir, r) => return Err(format!("open of a directory: {:?}", r.map(|_| ()))),
        (_, Ok(w)) => {
            ensure_eq!(w.file_path(), path.as_path(), "file_path of open");
            c16_stage(w, c, &ds, &data)?;
            bytes_same(&std::fs::read(&path).map_err(|e| e.to_string())?, &want)?;
            if let Prev::Link(_) = c.prev {
                bytes_same(&std::fs::read(&target).map_err(|e| e.to_string())?, &want)?;
            }
            // and again over its own output
            let w = FileWriter::open(&path).map_err(|e| format!("open again: {:?}", e))?;
            c16_stage(w, c, &ds, &data)?;
            bytes_same(&std::fs::read(&path).map_err(|e| e.to_string())?, &want)?;
        }
        (p, Err(e)) => return Err(format!("open with {:?}: {:?}", short_pub(p), e)),
    }
    // the new content is what is read from now on, and reading it changes nothing
    if c.extra >= 1 && c.stage % 3 == 2 && c.writes == 0xff && !matches!(c.prev, Prev::Dir) {
        let before = listing();
        c16_content(&path, &c.f, &data).map_err(|e| format!("after replacing: {}", e))?;
        ensure_eq!(listing(), before, "directory content after reading the new file");
        bytes_same(&std::fs::read(&path).map_err(|e| e.to_string())?, &want)?;
    }
    if c.extra >= 2 {
        c16_unprivileged(c, &data, &base, cx)?;
    }
    Ok(())
}

pub fn c16() -> Prop<C16> {
    Prop {
        id: "C16",
        rule: "previous path states (absent, bytes, another NetCDF file, directory, symlinks, no parent) x definitions x how far writing goes; non-trivial: something existed before",
        strategy: |_| {
            let o = DsOpts { max_vars: 4, rich: false, ..DsOpts::default() };
            let prev = prop_oneof![
                2 => Just(Prev::None),
                5 => (0u32..6000, any::<u8>()).prop_map(|(n, b)| Prev::Bytes(n, b)),
                3 => file_case(o).prop_map(Prev::File),
                1 => Just(Prev::Dir),
                1 => (0u16..3000).prop_map(Prev::Link),
                1 => Just(Prev::Dangling),
                1 => Just(Prev::NoParent),
            ];
            let extra = prop_oneof![6 => Just(1u8), 1 => Just(2u8)];
            let writes = prop_oneof![2 => Just(0xffu8), 1 => any::<u8>()];
            (file_case(o), prev, prop_oneof![1 => 0u8..3, 1 => Just(2u8)], writes, 0u8..10, 0u8..8, extra)
                .prop_map(|(f, prev, stage, writes, fname, spell, extra)| C16 { f, prev, stage, writes, fname, spell, extra })
                .boxed()
        },
        check: c16_check,
        fixed: no_fixed,
        quick: 48000,
        thorough: 3000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}
