//! Plain-data model of NetCDF-3 definitions and values, written independently of the crate.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    I8,
    U8,
    I16,
    I32,
    F32,
    F64,
}

pub const ALL_TY: [Ty; 6] = [Ty::I8, Ty::U8, Ty::I16, Ty::I32, Ty::F32, Ty::F64];

impl Ty {
    pub fn code(self) -> u32 {
        match self {
            Ty::I8 => 1,
            Ty::U8 => 2,
            Ty::I16 => 3,
            Ty::I32 => 4,
            Ty::F32 => 5,
            Ty::F64 => 6,
        }
    }
    pub fn from_code(c: u32) -> Option<Ty> {
        ALL_TY.iter().copied().find(|t| t.code() == c)
    }
    pub fn size(self) -> usize {
        match self {
            Ty::I8 | Ty::U8 => 1,
            Ty::I16 => 2,
            Ty::I32 | Ty::F32 => 4,
            Ty::F64 => 8,
        }
    }
    /// Big-endian bytes of the default fill value (NC_FILL_BYTE, NC_FILL_CHAR, ...).
    pub fn fill_bytes(self) -> &'static [u8] {
        match self {
            Ty::I8 => &[0x81],
            Ty::U8 => &[0x00],
            Ty::I16 => &[0x80, 0x01],
            Ty::I32 => &[0x80, 0x00, 0x00, 0x01],
            Ty::F32 => &[0x7C, 0xF0, 0x00, 0x00],
            Ty::F64 => &[0x47, 0x9E, 0, 0, 0, 0, 0, 0],
        }
    }
}

/// Typed values; floats are kept as bit patterns.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum Vals {
    I8(Vec<i8>),
    U8(Vec<u8>),
    I16(Vec<i16>),
    I32(Vec<i32>),
    F32(Vec<u32>),
    F64(Vec<u64>),
}

impl Vals {
    pub fn ty(&self) -> Ty {
        match self {
            Vals::I8(_) => Ty::I8,
            Vals::U8(_) => Ty::U8,
            Vals::I16(_) => Ty::I16,
            Vals::I32(_) => Ty::I32,
            Vals::F32(_) => Ty::F32,
            Vals::F64(_) => Ty::F64,
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Vals::I8(v) => v.len(),
            Vals::U8(v) => v.len(),
            Vals::I16(v) => v.len(),
            Vals::I32(v) => v.len(),
            Vals::F32(v) => v.len(),
            Vals::F64(v) => v.len(),
        }
    }
    pub fn be_bytes(&self) -> Vec<u8> {
        match self {
            Vals::I8(v) => v.iter().map(|x| *x as u8).collect(),
            Vals::U8(v) => v.clone(),
            Vals::I16(v) => v.iter().flat_map(|x| x.to_be_bytes()).collect(),
            Vals::I32(v) => v.iter().flat_map(|x| x.to_be_bytes()).collect(),
            Vals::F32(v) => v.iter().flat_map(|x| x.to_be_bytes()).collect(),
            Vals::F64(v) => v.iter().flat_map(|x| x.to_be_bytes()).collect(),
        }
    }
    pub fn from_be(ty: Ty, b: &[u8]) -> Vals {
        match ty {
            Ty::I8 => Vals::I8(b.iter().map(|x| *x as i8).collect()),
            Ty::U8 => Vals::U8(b.to_vec()),
            Ty::I16 => Vals::I16(b.chunks_exact(2).map(|c| i16::from_be_bytes([c[0], c[1]])).collect()),
            Ty::I32 => Vals::I32(b.chunks_exact(4).map(|c| i32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect()),
            Ty::F32 => Vals::F32(b.chunks_exact(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect()),
            Ty::F64 => Vals::F64(
                b.chunks_exact(8)
                    .map(|c| u64::from_be_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))
                    .collect(),
            ),
        }
    }
    pub fn fill(ty: Ty, n: usize) -> Vals {
        let mut b = Vec::with_capacity(n * ty.size());
        for _ in 0..n {
            b.extend_from_slice(ty.fill_bytes());
        }
        Vals::from_be(ty, &b)
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Compact description of a run of values; expanded on demand.
/// mode 0: 1,2,3,... ; 1: random bit patterns; 2: special values (extremes, NaNs, fill values, zeros);
/// 3: all bytes equal; 4: mostly fill values.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub struct DataSpec {
    pub mode: u8,
    pub seed: u32,
}

impl DataSpec {
    pub fn expand(&self, ty: Ty, len: usize) -> Vals {
        let mut s = (self.seed as u64) ^ 0xABCD_EF01;
        let w = ty.size();
        let mut b: Vec<u8> = Vec::with_capacity(len * w);
        for i in 0..len {
            match self.mode % 5 {
                0 => {
                    let k = (i as u64).wrapping_add(self.seed as u64 % 97).wrapping_add(1);
                    match ty {
                        Ty::I8 | Ty::U8 => b.push((k % 120) as u8 + 1),
                        Ty::I16 => b.extend_from_slice(&((k % 30000) as i16).to_be_bytes()),
                        Ty::I32 => b.extend_from_slice(&(k as i32).to_be_bytes()),
                        Ty::F32 => b.extend_from_slice(&(k as f32).to_bits().to_be_bytes()),
                        Ty::F64 => b.extend_from_slice(&(k as f64).to_bits().to_be_bytes()),
                    }
                }
                1 => {
                    let r = splitmix(&mut s).to_be_bytes();
                    b.extend_from_slice(&r[..w]);
                }
                2 => {
                    let r = splitmix(&mut s);
                    match ty {
                        Ty::I8 | Ty::U8 => {
                            b.push([0x80u8, 0x7f, 0xff, 0x00, 0x81, 0x01, 0xc3, 0x28][(r % 8) as usize])
                        }
                        Ty::I16 => b.extend_from_slice(
                            &[i16::MIN, i16::MAX, -1, 0, -32767, 1, 0x0100, 0x00ff][(r % 8) as usize].to_be_bytes(),
                        ),
                        Ty::I32 => b.extend_from_slice(
                            &[i32::MIN, i32::MAX, -1, 0, -2147483647, 1, 0x0100_0000, 0x00ff_00ff][(r % 8) as usize]
                                .to_be_bytes(),
                        ),
                        Ty::F32 => b.extend_from_slice(
                            &[
                                0x7fc00000u32, 0x7f800001, 0xffc12345, 0x7f800000, 0xff800000, 0x80000000, 0x00000001,
                                0x7cf00000,
                            ][(r % 8) as usize]
                                .to_be_bytes(),
                        ),
                        Ty::F64 => b.extend_from_slice(
                            &[
                                0x7ff8000000000000u64,
                                0x7ff0000000000001,
                                0xfff8000000012345,
                                0x7ff0000000000000,
                                0xfff0000000000000,
                                0x8000000000000000,
                                0x0000000000000001,
                                0x479e000000000000,
                            ][(r % 8) as usize]
                                .to_be_bytes(),
                        ),
                    }
                }
                3 => {
                    for _ in 0..w {
                        b.push(self.seed as u8)
                    }
                }
                _ => {
                    let r = splitmix(&mut s);
                    if r % 3 != 0 {
                        b.extend_from_slice(ty.fill_bytes());
                    } else {
                        let q = splitmix(&mut s).to_be_bytes();
                        b.extend_from_slice(&q[..w]);
                    }
                }
            }
        }
        Vals::from_be(ty, &b)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct MDim {
    pub name: String,
    pub size: usize,
    pub unlim: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct MAttr {
    pub name: String,
    pub vals: Vals,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct MVar {
    pub name: String,
    pub ty: Ty,
    pub dims: Vec<usize>,
    pub attrs: Vec<MAttr>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Default)]
pub struct MDs {
    pub dims: Vec<MDim>,
    pub gattrs: Vec<MAttr>,
    pub vars: Vec<MVar>,
}

pub fn round4(n: u128) -> u128 {
    (n + 3) / 4 * 4
}

impl MDs {
    pub fn unlim(&self) -> Option<usize> {
        self.dims.iter().position(|d| d.unlim)
    }
    pub fn num_records(&self) -> Option<usize> {
        self.unlim().map(|i| self.dims[i].size)
    }
    pub fn is_rec(&self, v: &MVar) -> bool {
        v.dims.first().map_or(false, |d| self.dims[*d].unlim)
    }
    /// Number of values per chunk (record or whole fixed-size variable), exact.
    /// Products beyond 2^120 saturate (only used for "does not fit" decisions).
    pub fn chunk_len_big(&self, v: &MVar) -> u128 {
        let skip = if self.is_rec(v) { 1 } else { 0 };
        let mut p: u128 = 1;
        for d in v.dims.iter().skip(skip) {
            p = p.saturating_mul(self.dims[*d].size as u128);
            if p > 1u128 << 120 {
                p = 1u128 << 120;
            }
        }
        p
    }
    pub fn chunk_len(&self, v: &MVar) -> usize {
        self.chunk_len_big(v) as usize
    }
    pub fn nrec(&self, v: &MVar) -> usize {
        if self.is_rec(v) {
            self.num_records().unwrap()
        } else {
            1
        }
    }
    pub fn len(&self, v: &MVar) -> usize {
        self.nrec(v) * self.chunk_len(v)
    }
    /// bytes of a chunk without padding
    pub fn raw_big(&self, v: &MVar) -> u128 {
        self.chunk_len_big(v) * v.ty.size() as u128
    }
    /// bytes of a chunk rounded up to 4
    pub fn vsize_big(&self, v: &MVar) -> u128 {
        round4(self.raw_big(v))
    }
    pub fn raw(&self, v: &MVar) -> usize {
        self.raw_big(v) as usize
    }
    pub fn vsize(&self, v: &MVar) -> usize {
        self.vsize_big(v) as usize
    }
    pub fn rec_vars(&self) -> Vec<usize> {
        (0..self.vars.len()).filter(|i| self.is_rec(&self.vars[*i])).collect()
    }
    /// Exactly one record variable whose records are not a multiple of four bytes:
    /// its records are packed without padding.
    pub fn packed(&self) -> bool {
        let r = self.rec_vars();
        r.len() == 1 && self.raw_big(&self.vars[r[0]]) % 4 != 0
    }
    /// Distance between two records of the same variable (u128).
    pub fn stride_big(&self) -> u128 {
        let r = self.rec_vars();
        if r.len() == 1 {
            self.raw_big(&self.vars[r[0]])
        } else {
            r.iter().map(|i| self.vsize_big(&self.vars[*i])).sum()
        }
    }
    pub fn stride(&self) -> usize {
        self.stride_big() as usize
    }
    pub fn record_size_sum_big(&self) -> u128 {
        self.rec_vars().iter().map(|i| self.vsize_big(&self.vars[*i])).sum()
    }
}

/// Independent version of the naming rule.
pub fn name_ok(s: &str) -> bool {
    let n = s.len();
    if n == 0 || n > 256 {
        return false;
    }
    for (i, c) in s.chars().enumerate() {
        let u = c as u32;
        if u >= 0x80 {
            continue;
        }
        if i == 0 {
            let alpha = (0x41..=0x5a).contains(&u) || (0x61..=0x7a).contains(&u);
            let digit = (0x30..=0x39).contains(&u);
            if !(alpha || digit || u == 0x5f) {
                return false;
            }
        } else if u < 0x20 || u == 0x7f || u == 0x2f {
            return false;
        }
    }
    true
}
