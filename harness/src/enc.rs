//! Reference encoder / decoder of the NetCDF-3 format (CDF-1 and CDF-2), written from the
//! format specification.
use crate::model::*;

pub fn pad4(n: usize) -> usize {
    (4 - n % 4) % 4
}

fn put_u32(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&v.to_be_bytes());
}

fn put_name(o: &mut Vec<u8>, s: &[u8]) {
    put_u32(o, s.len() as u32);
    o.extend_from_slice(s);
    o.extend(std::iter::repeat(0u8).take(pad4(s.len())));
}

fn put_attrs(o: &mut Vec<u8>, attrs: &[MAttr], tagged_empty: bool) {
    if attrs.is_empty() {
        put_u32(o, if tagged_empty { 0x0C } else { 0 });
        put_u32(o, 0);
        return;
    }
    put_u32(o, 0x0C);
    put_u32(o, attrs.len() as u32);
    for a in attrs {
        put_name(o, a.name.as_bytes());
        put_u32(o, a.vals.ty().code());
        put_u32(o, a.vals.len() as u32);
        let b = a.vals.be_bytes();
        let p = pad4(b.len());
        o.extend_from_slice(&b);
        o.extend(std::iter::repeat(0u8).take(p));
    }
}

/// `begins` and `vsizes` are per variable in definition order.
pub fn header(ds: &MDs, version: u8, numrecs: u32, vsizes: &[u32], begins: &[u64]) -> Vec<u8> {
    header_opt(ds, version, numrecs, vsizes, begins, 0)
}

/// `tagged`: bit set of the lists (1 dimensions, 2 global attributes, 4 variables, 8 variable
/// attributes) that are written with their tag and a zero count when they are empty,
/// instead of ABSENT.
pub fn header_opt(ds: &MDs, version: u8, numrecs: u32, vsizes: &[u32], begins: &[u64], tagged: u8) -> Vec<u8> {
    let mut o = Vec::new();
    o.extend_from_slice(b"CDF");
    o.push(version);
    put_u32(&mut o, numrecs);
    if ds.dims.is_empty() {
        put_u32(&mut o, if tagged & 1 != 0 { 0x0A } else { 0 });
        put_u32(&mut o, 0);
    } else {
        put_u32(&mut o, 0x0A);
        put_u32(&mut o, ds.dims.len() as u32);
        for d in &ds.dims {
            put_name(&mut o, d.name.as_bytes());
            put_u32(&mut o, if d.unlim { 0 } else { d.size as u32 });
        }
    }
    put_attrs(&mut o, &ds.gattrs, tagged & 2 != 0);
    if ds.vars.is_empty() {
        put_u32(&mut o, if tagged & 4 != 0 { 0x0B } else { 0 });
        put_u32(&mut o, 0);
    } else {
        put_u32(&mut o, 0x0B);
        put_u32(&mut o, ds.vars.len() as u32);
        for (i, v) in ds.vars.iter().enumerate() {
            put_name(&mut o, v.name.as_bytes());
            put_u32(&mut o, v.dims.len() as u32);
            for d in &v.dims {
                put_u32(&mut o, *d as u32);
            }
            put_attrs(&mut o, &v.attrs, tagged & 8 != 0);
            put_u32(&mut o, v.ty.code());
            put_u32(&mut o, vsizes[i]);
            if version == 1 {
                put_u32(&mut o, begins[i] as u32);
            } else {
                o.extend_from_slice(&begins[i].to_be_bytes());
            }
        }
    }
    o
}

pub fn header_len(ds: &MDs, version: u8) -> usize {
    let z32 = vec![0u32; ds.vars.len()];
    let z64 = vec![0u64; ds.vars.len()];
    header(ds, version, 0, &z32, &z64).len()
}

pub fn numrecs_field(ds: &MDs) -> u32 {
    match ds.num_records() {
        None => 0,
        Some(n) if n <= i32::MAX as usize => n as u32,
        Some(_) => u32::MAX,
    }
}

pub fn vsize_field(ds: &MDs, v: &MVar) -> u32 {
    let s = ds.vsize_big(v);
    if s > i32::MAX as u128 {
        u32::MAX
    } else {
        s as u32
    }
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub header_len: usize,
    /// first byte of the data part
    pub data_start: u128,
    pub begins: Vec<u128>,
    pub stride: u128,
    /// end of the file (exclusive)
    pub end: u128,
}

/// Canonical layout: fixed-size variables in definition order, then the records.
pub fn canonical_layout(ds: &MDs, version: u8, min: usize) -> Layout {
    let hl = header_len(ds, version);
    let data_start = round4(std::cmp::max(hl, min) as u128);
    let mut pos = data_start;
    let mut begins = vec![0u128; ds.vars.len()];
    for (i, v) in ds.vars.iter().enumerate() {
        if !ds.is_rec(v) {
            begins[i] = pos;
            pos += ds.vsize_big(v);
        }
    }
    let rec_start = pos;
    for (i, v) in ds.vars.iter().enumerate() {
        if ds.is_rec(v) {
            begins[i] = pos;
            pos += ds.vsize_big(v);
        }
    }
    let nrec = ds.num_records().unwrap_or(0) as u128;
    let stride = ds.stride_big();
    let end = if ds.rec_vars().is_empty() { rec_start } else { rec_start.saturating_add(nrec.saturating_mul(stride)) };
    Layout { header_len: hl, data_start, begins, stride, end }
}

pub fn canonical_header(ds: &MDs, version: u8, min: usize) -> Vec<u8> {
    let l = canonical_layout(ds, version, min);
    let vs: Vec<u32> = ds.vars.iter().map(|v| vsize_field(ds, v)).collect();
    let bs: Vec<u64> = l.begins.iter().map(|b| *b as u64).collect();
    let mut h = header(ds, version, numrecs_field(ds), &vs, &bs);
    h.resize(l.data_start as usize, 0);
    h
}

/// Writes one slab (values + fill padding unless packed).
pub fn put_slab(file: &mut [u8], pos: usize, bytes: &[u8], pad: usize, ty: Ty) {
    file[pos..pos + bytes.len()].copy_from_slice(bytes);
    let f = ty.fill_bytes();
    for k in 0..pad {
        file[pos + bytes.len() + k] = f[k % f.len()];
    }
}

/// Positions of the unpadded data of each chunk of each variable.
pub fn chunk_pos(ds: &MDs, l: &Layout, var: usize, rec: usize) -> usize {
    let v = &ds.vars[var];
    if ds.is_rec(v) {
        (l.begins[var] + rec as u128 * l.stride) as usize
    } else {
        l.begins[var] as usize
    }
}

/// The exact bytes of the canonical file.
pub fn canonical_file(ds: &MDs, version: u8, min: usize, data: &[Vals]) -> Vec<u8> {
    let l = canonical_layout(ds, version, min);
    let mut f = canonical_header(ds, version, min);
    f.resize(std::cmp::max(l.end as usize, f.len()), 0);
    let packed = ds.packed();
    for (i, v) in ds.vars.iter().enumerate() {
        let raw = ds.raw(v);
        let b = data[i].be_bytes();
        let rec = ds.is_rec(v);
        for r in 0..ds.nrec(v) {
            let p = chunk_pos(ds, &l, i, r);
            let pad = if rec && packed { 0 } else { pad4(raw) };
            put_slab(&mut f, p, &b[r * raw..(r + 1) * raw], pad, v.ty);
        }
    }
    f
}

/// A decoded header, or the reason why it does not conform.
#[derive(Debug, Clone)]
pub struct Decoded {
    pub version: u8,
    pub numrecs: Option<u32>,
    pub ds: MDs,
    pub begins: Vec<u64>,
    pub vsizes: Vec<u32>,
    pub len: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// the bytes end inside the header
    Incomplete,
    /// a violation of the grammar or of the legality of the data set
    Invalid(String),
}

/// The kinds of fields a header can be wrong in.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Field {
    Magic,
    Version,
    NonNeg,
    /// a type code that is negative, too
    NegType,
    DimTag,
    AttrTag,
    VarTag,
    Utf8,
    Padding,
    Type,
    Begin,
}

/// What a header got wrong.
#[derive(Debug)]
pub struct Diag {
    pub verdict: Bad,
    /// the first field that violates the grammar, and where it begins
    pub field: Option<(Field, usize)>,
    /// the file ends within a tag that is wrong already
    pub cut_tag: Option<Field>,
    /// what comes before the first violation of the grammar
    pub ds: MDs,
    pub numrecs: Option<u32>,
    pub begins: Vec<u64>,
}

/// Where the header has what.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Part {
    Name,
    Padding,
    Tag,
    Type,
    Count,
    DimId,
    Begin,
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
    field: Option<(Field, usize)>,
    cut_tag: Option<Field>,
    parts: Vec<(Part, usize, usize)>,
}

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if self.b.len() - self.p < n {
            return Err(Bad::Incomplete);
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn bad<T>(&mut self, f: Field, at: usize, what: String) -> Result<T, Bad> {
        self.field = Some((f, at));
        Err(Bad::Invalid(what))
    }
    /// what the last n bytes are
    fn part(&mut self, k: Part, n: usize) {
        self.parts.push((k, self.p - n, n));
    }
    fn u32(&mut self) -> Result<u32, Bad> {
        let r = self.take(4)?;
        Ok(u32::from_be_bytes([r[0], r[1], r[2], r[3]]))
    }
    fn nonneg(&mut self, what: &str) -> Result<usize, Bad> {
        let v = self.u32()?;
        self.part(if what == "dimension id" { Part::DimId } else { Part::Count }, 4);
        if v > i32::MAX as u32 {
            return self.bad(Field::NonNeg, self.p - 4, format!("negative {}", what));
        }
        Ok(v as usize)
    }
    /// non-negative, or all bits set
    fn optional(&mut self, what: &str) -> Result<u32, Bad> {
        let v = self.u32()?;
        if v > i32::MAX as u32 && v != u32::MAX {
            return self.bad(Field::NonNeg, self.p - 4, what.into());
        }
        Ok(v)
    }
    fn zeros(&mut self, n: usize) -> Result<(), Bad> {
        let r = self.take(n)?;
        if n > 0 {
            self.part(Part::Padding, n);
        }
        if r.iter().any(|x| *x != 0) {
            return self.bad(Field::Padding, self.p - n, "non-zero header padding".into());
        }
        Ok(())
    }
    fn name(&mut self) -> Result<String, Bad> {
        let n = self.nonneg("name length")?;
        let b = self.take(n)?;
        if n > 0 {
            self.part(Part::Name, n);
        }
        let s = match std::str::from_utf8(b) {
            Ok(s) => s.to_string(),
            Err(_) => return self.bad(Field::Utf8, self.p - n, "name is not UTF-8".into()),
        };
        self.zeros(pad4(n))?;
        Ok(s)
    }
    fn ty(&mut self) -> Result<Ty, Bad> {
        let c = self.u32()?;
        self.part(Part::Type, 4);
        match Ty::from_code(c) {
            Some(t) => Ok(t),
            None => {
                let f = if c > i32::MAX as u32 { Field::NegType } else { Field::Type };
                self.bad(f, self.p - 4, format!("type code {}", c))
            }
        }
    }
    fn attrs(&mut self, out: &mut Vec<MAttr>) -> Result<(), Bad> {
        let n = self.list(0x0C, Field::AttrTag)?;
        for _ in 0..n {
            let name = self.name()?;
            let ty = self.ty()?;
            let k = self.nonneg("attribute length")?;
            let nb = k.checked_mul(ty.size()).ok_or(Bad::Incomplete)?;
            let b = self.take(nb)?;
            let vals = Vals::from_be(ty, b);
            self.zeros(pad4(nb))?;
            out.push(MAttr { name, vals });
        }
        Ok(())
    }
    /// ABSENT -> 0, or tag + count
    fn list(&mut self, tag: u32, f: Field) -> Result<usize, Bad> {
        let at = self.p;
        let rest = &self.b[at..(at + 8).min(self.b.len())];
        let is = |t: &[u8]| rest.iter().zip(t).all(|(a, b)| a == b);
        if rest.len() < 8 && !is(&[0; 8]) && !is(&tag.to_be_bytes()) {
            self.cut_tag = Some(f);
        }
        let t = self.u32()?;
        self.part(Part::Tag, 4);
        if t == tag {
            return self.nonneg("count");
        }
        if t == 0 {
            let z = self.u32()?;
            if z != 0 {
                return self.bad(f, at, "ABSENT with a count".into());
            }
            return Ok(0);
        }
        self.bad(f, at, format!("tag {:#x} instead of {:#x}", t, tag))
    }
}

/// The grammar. What was read stays in `ds` and `begins`, also when it fails.
fn grammar(c: &mut Cur, ds: &mut MDs, numrecs: &mut Option<u32>, begins: &mut Vec<u64>, vsizes: &mut Vec<u32>) -> Result<u8, Bad> {
    let m = c.take(3.min(c.b.len()))?;
    if m != &b"CDF"[..m.len()] {
        return c.bad(Field::Magic, 0, "magic".into());
    }
    if m.len() < 3 {
        return Err(Bad::Incomplete);
    }
    let version = c.take(1)?[0];
    if version != 1 && version != 2 {
        return c.bad(Field::Version, 3, "version".into());
    }
    let nr = c.optional("numrecs")?;
    *numrecs = if nr == u32::MAX { None } else { Some(nr) };
    let nd = c.list(0x0A, Field::DimTag)?;
    for _ in 0..nd {
        let name = c.name()?;
        let size = c.nonneg("dimension size")?;
        ds.dims.push(MDim { name, size, unlim: size == 0 });
    }
    c.attrs(&mut ds.gattrs)?;
    let nv = c.list(0x0B, Field::VarTag)?;
    for _ in 0..nv {
        let name = c.name()?;
        ds.vars.push(MVar { name, ty: Ty::I8, dims: vec![], attrs: vec![] });
        let v = ds.vars.last_mut().unwrap();
        let k = c.nonneg("number of dimensions")?;
        for _ in 0..k {
            v.dims.push(c.nonneg("dimension id")?);
        }
        c.attrs(&mut v.attrs)?;
        v.ty = c.ty()?;
        vsizes.push(c.optional("vsize")?);
        let at = c.p;
        let bg = if version == 1 {
            c.u32()? as i32 as i64
        } else {
            let r = c.take(8)?;
            i64::from_be_bytes([r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]])
        };
        c.part(Part::Begin, c.p - at);
        if bg < 0 {
            return c.bad(Field::Begin, at, "negative begin".into());
        }
        begins.push(bg as u64);
    }
    Ok(version)
}

/// The parts of the header as far as it is grammatical, with position and length.
pub fn parts(b: &[u8]) -> Vec<(Part, usize, usize)> {
    let mut c = Cur { b, p: 0, field: None, cut_tag: None, parts: vec![] };
    let _ = grammar(&mut c, &mut MDs::default(), &mut Some(0), &mut vec![], &mut vec![]);
    c.parts
}

/// Why the header is refused; None if it conforms.
pub fn diagnose(b: &[u8], file_size: u64) -> Option<Diag> {
    let verdict = decode(b, file_size).err()?;
    let mut c = Cur { b, p: 0, field: None, cut_tag: None, parts: vec![] };
    let mut d = Diag { verdict, field: None, cut_tag: None, ds: MDs::default(), numrecs: Some(0), begins: vec![] };
    let _ = grammar(&mut c, &mut d.ds, &mut d.numrecs, &mut d.begins, &mut vec![]);
    d.field = c.field;
    d.cut_tag = c.cut_tag;
    Some(d)
}

/// Strict decoding of the header grammar plus legality of the data set.
/// `file_size` is used only when the number of records is indeterminate.
pub fn decode(b: &[u8], file_size: u64) -> Result<Decoded, Bad> {
    let mut c = Cur { b, p: 0, field: None, cut_tag: None, parts: vec![] };
    let inv = |s: &str| Bad::Invalid(s.to_string());
    let mut ds = MDs::default();
    let mut numrecs = Some(0);
    let mut begins = vec![];
    let mut vsizes = vec![];
    let version = grammar(&mut c, &mut ds, &mut numrecs, &mut begins, &mut vsizes)?;
    // legality
    let nun = ds.dims.iter().filter(|d| d.unlim).count();
    if nun > 1 {
        return Err(inv("two unlimited dimensions"));
    }
    fn uniq<'a>(it: impl Iterator<Item = &'a str>) -> bool {
        let mut s = std::collections::HashSet::new();
        for x in it {
            if !s.insert(x) {
                return false;
            }
        }
        true
    }
    if !uniq(ds.dims.iter().map(|d| &d.name[..])) {
        return Err(inv("duplicate dimension name"));
    }
    if !uniq(ds.gattrs.iter().map(|d| &d.name[..])) {
        return Err(inv("duplicate global attribute name"));
    }
    if !uniq(ds.vars.iter().map(|d| &d.name[..])) {
        return Err(inv("duplicate variable name"));
    }
    for d in &ds.dims {
        if !name_ok(&d.name) {
            return Err(inv("dimension name"));
        }
        if !d.unlim && d.size > (i32::MAX as usize) - 3 {
            return Err(inv("dimension size"));
        }
    }
    for a in &ds.gattrs {
        if !name_ok(&a.name) {
            return Err(inv("global attribute name"));
        }
    }
    for v in &ds.vars {
        if !name_ok(&v.name) {
            return Err(inv("variable name"));
        }
        if !uniq(v.attrs.iter().map(|d| &d.name[..])) {
            return Err(inv("duplicate attribute name"));
        }
        for a in &v.attrs {
            if !name_ok(&a.name) {
                return Err(inv("attribute name"));
            }
        }
        if v.dims.len() > 1024 {
            return Err(inv("too many dimensions"));
        }
        let mut seen = std::collections::HashSet::new();
        for (i, d) in v.dims.iter().enumerate() {
            if *d >= ds.dims.len() {
                return Err(inv("dimension id out of range"));
            }
            if !seen.insert(*d) {
                return Err(inv("dimension used twice"));
            }
            if i > 0 && ds.dims[*d].unlim {
                return Err(inv("unlimited dimension not first"));
            }
        }
    }
    // number of records
    if let Some(u) = ds.unlim() {
        match numrecs {
            Some(n) => ds.dims[u].size = n as usize,
            None => {
                let rv = ds.rec_vars();
                if rv.is_empty() {
                    ds.dims[u].size = 0;
                } else {
                    let b = rv.iter().map(|i| begins[*i]).min().unwrap();
                    let st = ds.stride_big();
                    if b > file_size {
                        return Err(inv("data part of the records is missing"));
                    }
                    let sz = (file_size - b) as u128;
                    if st == 0 || sz % st != 0 {
                        return Err(inv("not a whole number of records"));
                    }
                    ds.dims[u].size = (sz / st) as usize;
                }
            }
        }
    }
    Ok(Decoded { version, numrecs, ds, begins, vsizes, len: c.p })
}
