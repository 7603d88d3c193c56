//! proptest strategies for names, values, definitions, data and histories.
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::{BoxedStrategy, Strategy};
use serde::{Deserialize, Serialize};

const FIRST: &[char] = &['a', 'b', 'Z', 'q', '0', '9', '_', 'é', '€', '𝄞', '\u{80}', 'ß'];
const REST: &[char] = &[
    'a', 'b', 'c', 'x', 'Y', '1', '_', '.', '@', '+', '-', ' ', '!', '"', '#', '$', '%', '&', '\'', '(', ')', '*',
    ',', ':', ';', '<', '=', '>', '?', '[', '\\', ']', '^', '`', '{', '|', '}', '~', 'é', 'Ω', '中', '😀', '\u{a0}',
    '\u{301}',
];

/// Valid names: a small shared pool (collisions between namespaces, names that differ in
/// case only, names that are the beginning of another), short names of all
/// lengths modulo 4, special characters, UTF-8, and names near the 256 byte limit.
pub fn name() -> BoxedStrategy<String> {
    let pool = select(vec![
        "a", "A", "b", "aa", "x", "X", "y1", "Y1", "lat", "LAT", "lat_", "time", "Time", "dim_1", "units", "_FillValue", "scale_factor",
        // names that look the same, or differ in trailing characters only
        "a ", "\u{e9}", "e\u{301}",
    ])
        .prop_map(|s| s.to_string());
    let short = (select(FIRST), vec(select(REST), 0..12)).prop_map(|(f, r)| {
        let mut s = String::new();
        s.push(f);
        s.extend(r);
        s
    });
    let long = (200usize..=256, select(vec!['a', 'é', '中'])).prop_map(|(n, c)| {
        let mut s = String::new();
        while s.len() + c.len_utf8() <= n {
            s.push(c);
        }
        while s.len() < n {
            s.push('z');
        }
        s
    });
    let mid = (13usize..60).prop_map(|n| "n".repeat(n));
    let mixed = (select(FIRST), vec(select(REST), 1..20), 230usize..=256).prop_map(|(f, r, n)| mixed_name(f, &r, n));
    prop_oneof![10 => pool, 10 => short, 2 => mid, 1 => long, 1 => mixed].boxed()
}

/// A name of exactly `n` bytes: the first character, then the others again and again.
pub fn mixed_name(f: char, r: &[char], n: usize) -> String {
    let mut s = String::new();
    s.push(f);
    for c in r.iter().cycle() {
        if s.len() + c.len_utf8() > n {
            break;
        }
        s.push(*c);
    }
    while s.len() < n {
        s.push('z');
    }
    s
}

pub fn ty() -> BoxedStrategy<Ty> {
    select(ALL_TY.to_vec()).boxed()
}

pub fn dspec() -> BoxedStrategy<DataSpec> {
    (prop_oneof![3 => Just(0u8), 4 => Just(1u8), 3 => Just(2u8), 1 => Just(3u8), 2 => Just(4u8)], 0u32..1000)
        .prop_map(|(mode, seed)| DataSpec { mode, seed })
        .boxed()
}

pub fn vals() -> BoxedStrategy<Vals> {
    let len = prop_oneof![
        120 => Just(0usize),
        720 => 1usize..10,
        120 => 10usize..40,
        58 => 200usize..700,
        2 => edge_size()
    ];
    let generic = (ty(), len, dspec()).prop_map(|(t, n, d)| d.expand(t, n));
    let text = vec(select(REST), 0..20).prop_map(|c| Vals::U8(c.into_iter().collect::<String>().into_bytes()));
    let text2 = (select(vec!["", "\u{feff}", " ", "\0", "\u{fffd}"]), vec(select(REST), 0..6), select(vec!["", "\0", "\n", " ", "\0\0\0", "\u{feff}", "\r"]))
        .prop_map(|(a, c, b)| Vals::U8(format!("{}{}{}", a, c.into_iter().collect::<String>(), b).into_bytes()));
    let nan = prop_oneof![
        Just(Vals::F32(vec![0x7fc00000])),
        Just(Vals::F64(vec![0x7ff8000000000000])),
        Just(Vals::F64(vec![0x3ff0000000000000, 0x7ff8000000000001]))
    ];
    prop_oneof![24 => generic, 8 => text, 1 => text2, 3 => nan].boxed()
}

/// Sizes at and around powers of two, where blocks and buffers end.
pub fn edge_size() -> BoxedStrategy<usize> {
    let p = select(vec![64usize, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768]);
    let p = prop_oneof![14 => p, 1 => select(vec![65536usize, 131072])];
    (p, select(vec![0i32, 0, 0, -1, 1, 3])).prop_map(|(a, d)| (a as i64 + d as i64) as usize).boxed()
}

/// Makes names unique within a list, keeping them valid.
pub fn uniq(names: &mut Vec<String>) {
    let mut seen = std::collections::HashSet::new();
    for n in names.iter_mut() {
        let mut k = 0;
        let base = n.clone();
        while !seen.insert(n.clone()) {
            k += 1;
            let suf = format!("{}", k);
            let mut b = base.clone();
            while b.len() + suf.len() > 256 {
                b.pop();
            }
            *n = format!("{}{}", b, suf);
        }
    }
}

fn attrs(max: usize) -> BoxedStrategy<Vec<MAttr>> {
    vec((name(), vals()), 0..=max)
        .prop_map(|l| {
            let (mut ns, vs): (Vec<String>, Vec<Vals>) = l.into_iter().unzip();
            uniq(&mut ns);
            ns.into_iter().zip(vs).map(|(name, vals)| MAttr { name, vals }).collect()
        })
        .boxed()
}

/// Attribute lists for one owner: usually few, sometimes many (long headers).
pub fn attr_list(rich: bool) -> BoxedStrategy<Vec<MAttr>> {
    if rich {
        prop_oneof![6 => attrs(3), 1 => attrs(14)].boxed()
    } else {
        prop_oneof![3 => Just(vec![]), 2 => attrs(2)].boxed()
    }
}

#[derive(Clone, Copy, Debug)]
pub struct DsOpts {
    pub max_dims: usize,
    pub max_vars: usize,
    pub max_rec: usize,
    /// upper bound on values per chunk
    pub max_chunk: usize,
    pub min_vars: usize,
    pub rich: bool,
    /// probability weight (0..=10) of an unlimited dimension
    pub unlim_w: u32,
    /// weight (against 1400) of large slabs, of many records, and 6 times that of long lists
    pub special: u32,
}

impl Default for DsOpts {
    fn default() -> Self {
        DsOpts { max_dims: 5, max_vars: 6, max_rec: 5, max_chunk: 400, min_vars: 0, rich: true, unlim_w: 7, special: 40 }
    }
}

fn dim_size() -> BoxedStrategy<usize> {
    prop_oneof![4 => Just(1usize), 8 => 2usize..6, 3 => 6usize..18, 1 => 18usize..90].boxed()
}

type RawVar = (String, Ty, bool, Vec<u16>, Vec<MAttr>);

/// Attributes that conventions give a meaning to, with the values they usually have
/// (this library is to store them like any other).
fn conventional(t: Ty, names: &[&str], seeds: &[(u16, u8, u32)]) -> Vec<MAttr> {
    let mut l: Vec<MAttr> = vec![];
    for (k, kind, seed) in seeds {
        let name = names[*k as usize % names.len()];
        if l.iter().any(|a| a.name == name) {
            continue;
        }
        let text = matches!(name, "units" | "long_name" | "coordinates" | "Conventions" | "title" | "_Unsigned" | "_Encoding" | "calendar" | "bounds");
        let vals = if text {
            let texts = ["K", "true", "hours since 1970-01-01 00:00:00", "lat lon", "CF-1.7", "\0", "utf-8", ""];
            Vals::U8(texts[*kind as usize % texts.len()].as_bytes().to_vec())
        } else {
            let t = match kind % 8 {
                0..=4 => t,
                5 => Ty::F64,
                6 => Ty::F32,
                _ => Ty::I16,
            };
            let n = if name == "valid_range" { 2 } else { 1 };
            DataSpec { mode: (kind / 8) % 5, seed: *seed }.expand(t, n)
        };
        l.push(MAttr { name: name.to_string(), vals });
    }
    l
}

fn conventional_seeds(weight: u32) -> BoxedStrategy<Vec<(u16, u8, u32)>> {
    prop_oneof![10 - weight => Just(vec![]), weight => vec((any::<u16>(), any::<u8>(), 0u32..1000), 1..5)].boxed()
}

/// Puts the attributes `more` among the others, the names staying unique.
fn join_attrs(l: &mut Vec<MAttr>, more: Vec<MAttr>) {
    if more.is_empty() {
        return;
    }
    l.retain(|a| more.iter().all(|b| a.name != b.name));
    let at = more.len() % (l.len() + 1);
    let tail = l.split_off(at);
    l.extend(more);
    l.extend(tail);
}

fn raw_var(o: DsOpts) -> BoxedStrategy<RawVar> {
    let names = &[
        "_FillValue", "scale_factor", "add_offset", "_FillValue", "missing_value", "valid_min", "valid_max", "valid_range", "units", "long_name", "_Unsigned",
        "coordinates", "bounds", "calendar", "_Encoding",
    ];
    (name(), ty(), proptest::bool::weighted(0.6), vec(0u16..1000, 0..4), attr_list(o.rich), conventional_seeds(2))
        .prop_map(move |(n, t, r, d, mut a, c)| {
            join_attrs(&mut a, conventional(t, names, &c));
            (n, t, r, d, a)
        })
        .boxed()
}

pub fn mds(o: DsOpts) -> BoxedStrategy<MDs> {
    let dims = vec((name(), dim_size()), 0..=o.max_dims);
    let vars = vec(raw_var(o), o.min_vars..=o.max_vars);
    let vars = if o.rich && o.max_vars >= 6 {
        prop_oneof![12 => vars.boxed(), 1 => vec(raw_var(o), 7..20).boxed()].boxed()
    } else {
        vars.boxed()
    };
    // nrec: zero sometimes
    let nrec = prop_oneof![1 => Just(0usize), 2 => Just(1usize), 5 => 0..=o.max_rec];
    let un = (0u32..10, 0u16..100, nrec, name());
    // some variables are named like their first dimension ("coordinate variables")
    (dims, un, (attr_list(o.rich), conventional_seeds(1), 0u32..64), vars)
        .prop_map(move |(dims, (uw, upos, nrec, uname), (mut gattrs, conv, coord), vars)| {
            join_attrs(&mut gattrs, conventional(Ty::F64, &["Conventions", "title", "_FillValue", "missing_value", "_Encoding", "_NCProperties"], &conv));
            let mut m = MDs::default();
            let mut ns: Vec<String> = dims.iter().map(|d| d.0.clone()).collect();
            let has_un = uw < o.unlim_w;
            let up = if dims.is_empty() { 0 } else { upos as usize % (dims.len() + 1) };
            if has_un {
                ns.insert(up, uname);
            }
            uniq(&mut ns);
            let mut k = 0;
            for (i, name) in ns.into_iter().enumerate() {
                if has_un && i == up {
                    m.dims.push(MDim { name, size: nrec, unlim: true });
                } else {
                    m.dims.push(MDim { name, size: dims[k].1, unlim: false });
                    k += 1;
                }
            }
            m.gattrs = gattrs;
            let fixed: Vec<usize> = (0..m.dims.len()).filter(|i| !m.dims[*i].unlim).collect();
            let mut vn: Vec<String> = vars.iter().map(|v| v.0.clone()).collect();
            uniq(&mut vn);
            for (name, (_, ty, rec, picks, attrs)) in vn.into_iter().zip(vars) {
                let mut d = vec![];
                if rec && has_un {
                    d.push(up);
                }
                let mut prod = 1usize;
                for p in picks {
                    if fixed.is_empty() {
                        break;
                    }
                    let i = fixed[p as usize % fixed.len()];
                    if !d.contains(&i) && prod * m.dims[i].size <= o.max_chunk {
                        prod *= m.dims[i].size;
                        d.push(i);
                    }
                }
                m.vars.push(MVar { name, ty, dims: d, attrs });
            }
            for i in 0..m.vars.len().min(6) {
                if coord >> i & 1 == 1 && coord % 3 == 0 {
                    if let Some(d) = m.vars[i].dims.first() {
                        let n = m.dims[*d].name.clone();
                        if m.vars.iter().all(|v| v.name != n) {
                            m.vars[i].name = n;
                        }
                    }
                }
            }
            m
        })
        .boxed()
}

/// Data sets that have exactly one record variable of a small type (record packing rule),
/// plus some fixed-size variables.
pub fn mds_lone(o: DsOpts) -> BoxedStrategy<MDs> {
    (mds(DsOpts { unlim_w: 10, min_vars: 1, ..o }), 0u16..100, select(vec![Ty::I8, Ty::U8, Ty::I16]))
        .prop_map(|(mut m, k, t)| {
            let un = m.unlim().unwrap();
            let k = k as usize % m.vars.len();
            for (i, v) in m.vars.iter_mut().enumerate() {
                let isr = v.dims.first() == Some(&un);
                if i == k {
                    if !isr {
                        v.dims.insert(0, un);
                    }
                    v.ty = t;
                } else if isr {
                    v.dims.remove(0);
                }
            }
            m
        })
        .boxed()
}

/// One variable whose chunk has a length at or next to a power of two (up to 48 Ki values),
/// sometimes split over two dimensions, beside a few small variables.
pub fn mds_slab(o: DsOpts) -> BoxedStrategy<MDs> {
    (mds(DsOpts { max_vars: 3, max_rec: o.max_rec.min(3), min_vars: 1, max_chunk: o.max_chunk.min(40), ..o }), any::<u16>(), edge_size(), 1usize..4, ty(), name(), name())
        .prop_map(|(mut m, k, n, split, t, n1, n2)| {
            let k = k as usize % m.vars.len();
            let mut ns: Vec<String> = m.dims.iter().map(|d| d.name.clone()).collect();
            ns.push(n1);
            ns.push(n2);
            uniq(&mut ns);
            let n2 = ns.pop().unwrap();
            let n1 = ns.pop().unwrap();
            let a = m.dims.len();
            m.dims.push(MDim { name: n1, size: if split > 1 && n % split == 0 { n / split } else { n }, unlim: false });
            let rec = m.is_rec(&m.vars[k]);
            let mut d: Vec<usize> = if rec { vec![m.vars[k].dims[0]] } else { vec![] };
            d.push(a);
            if split > 1 && n % split == 0 {
                m.dims.push(MDim { name: n2, size: split, unlim: false });
                d.push(a + 1);
            }
            m.vars[k].dims = d;
            m.vars[k].ty = t;
            m
        })
        .boxed()
}

/// Many records (up to and around 256 and 1000) of small chunks.
pub fn mds_records(o: DsOpts) -> BoxedStrategy<MDs> {
    (
        mds_lone_or(DsOpts { max_vars: 3, min_vars: 1, max_chunk: 6, unlim_w: 10, ..o }),
        prop_oneof![
            30 => 6usize..130,
            20 => select(vec![127usize, 128, 255, 256, 257, 1000, 1024]),
            1 => select(vec![32767usize, 32768, 65535, 65536, 65537])
        ],
    )
        .prop_map(|(mut m, n)| {
            let u = m.unlim().unwrap();
            m.dims[u].size = n;
            m
        })
        .boxed()
}

fn mds_lone_or(o: DsOpts) -> BoxedStrategy<MDs> {
    prop_oneof![1 => mds(o), 1 => mds_lone(o)].boxed()
}

/// Long lists: variables with many dimensions (up to the limit), many dimensions, variables or attributes.
pub fn mds_wide(o: DsOpts) -> BoxedStrategy<MDs> {
    let n = prop_oneof![3 => 30usize..200, 1 => select(vec![255usize, 256, 257, 1000]), 2 => select(vec![1023usize, 1024])];
    (mds(DsOpts { max_vars: 3, min_vars: 1, max_chunk: 40, ..o }), 0u8..4, n, any::<u16>(), ty())
        .prop_map(|(mut m, what, n, k, t)| {
            let k = k as usize % m.vars.len();
            match what {
                0 | 1 => {
                    // n dimensions in all for variable k, the unlimited one included
                    let rec = m.is_rec(&m.vars[k]);
                    let mut d: Vec<usize> = if rec { vec![m.vars[k].dims[0]] } else { vec![] };
                    let mut i = 0;
                    while d.len() < n {
                        let name = format!("w{}", i);
                        i += 1;
                        if m.dims.iter().any(|x| x.name == name) {
                            continue;
                        }
                        d.push(m.dims.len());
                        m.dims.push(MDim { name, size: if i == 7 { 3 } else { 1 }, unlim: false });
                    }
                    m.vars[k].dims = d;
                }
                2 => {
                    let like = m.vars[k].clone();
                    for i in 0..n.min(300) {
                        let name = format!("w{}", i);
                        if !m.vars.iter().any(|x| x.name == name) {
                            let t = ALL_TY[(i + k) % 6];
                            let dims = if i % 2 == 0 { like.dims.clone() } else { vec![] };
                            m.vars.push(MVar { name, ty: t, dims, attrs: vec![] });
                        }
                    }
                }
                _ => {
                    let vals = DataSpec { mode: 1, seed: n as u32 }.expand(t, n % 5);
                    let l = if k % 2 == 0 { &mut m.gattrs } else { &mut m.vars[k].attrs };
                    for i in 0..n {
                        let name = format!("w{}", i);
                        if !l.iter().any(|x| x.name == name) {
                            l.push(MAttr { name, vals: vals.clone() });
                        }
                    }
                }
            }
            m
        })
        .boxed()
}

pub fn mds_any(o: DsOpts) -> BoxedStrategy<MDs> {
    if o.special == 0 {
        return prop_oneof![6 => mds(o), 1 => mds_lone(o)].boxed();
    }
    prop_oneof![
        1200 => mds(o),
        200 => mds_lone(o),
        o.special => mds_slab(o),
        o.special => mds_records(o),
        (o.special / 6).max(1) => mds_wide(o)
    ]
    .boxed()
}

/// A definition with very many of one thing.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Crowd {
    Dims(usize),
    Vars(usize),
    RecVars(usize),
    Gattrs(usize),
    Vattrs(usize),
    /// a global attribute with so many values
    Long(usize),
    /// one value per record
    Records(usize),
    /// slabs of so many values
    Slab(usize),
    /// so many global attributes of about so many bytes each
    Blocks(usize, usize),
    /// so many variables with an attribute of about so many bytes each
    VarBlocks(usize, usize),
}

pub fn crowded(c: Crowd, t: Ty) -> MDs {
    let dim = |i: usize, size: usize| MDim { name: format!("d{}", i), size, unlim: false };
    let attr = |i: usize| MAttr { name: format!("a{}", i), vals: DataSpec { mode: 1, seed: i as u32 }.expand(t, i % 3) };
    let var = |i: usize, dims: Vec<usize>| MVar { name: format!("v{}", i), ty: if i == 0 { t } else { ALL_TY[i % 6] }, dims, attrs: vec![] };
    let mut m = MDs { dims: vec![], gattrs: vec![], vars: vec![] };
    let unlim = |n: usize| MDim { name: "t".to_string(), size: n, unlim: true };
    match c {
        Crowd::Dims(n) => {
            m.dims = (0..n).map(|i| dim(i, 1 + i % 7)).collect();
            m.vars = vec![var(0, vec![n - 1, 0]), var(1, vec![n / 2, n - 2])];
        }
        Crowd::Vars(n) => {
            m.dims = vec![dim(0, 2)];
            m.vars = (0..n).map(|i| var(i, if i % 5 == 0 { vec![0] } else { vec![] })).collect();
        }
        Crowd::RecVars(n) => {
            m.dims = vec![unlim(2)];
            m.vars = (0..n).map(|i| var(i, vec![0])).collect();
        }
        Crowd::Gattrs(n) => m.gattrs = (0..n).map(attr).collect(),
        Crowd::Vattrs(n) => {
            m.vars = vec![var(0, vec![])];
            m.vars[0].attrs = (0..n).map(attr).collect();
        }
        Crowd::Long(n) => {
            let long = |seed, n| MAttr { name: "long".to_string(), vals: DataSpec { mode: 1, seed }.expand(t, n) };
            m.gattrs = vec![long(3, n)];
            m.vars = vec![var(0, vec![])];
            m.vars[0].attrs = vec![attr(1), long(4, n / 400)];
        }
        Crowd::Records(n) => {
            m.dims = vec![unlim(n)];
            m.vars = vec![var(0, vec![0]), var(1, vec![0])];
        }
        Crowd::Blocks(n, k) => {
            m.gattrs = (0..n).map(|i| MAttr { vals: DataSpec { mode: 1, seed: i as u32 }.expand(t, k / t.size()), ..attr(i) }).collect();
        }
        Crowd::VarBlocks(n, k) => {
            m.vars = (0..n)
                .map(|i| MVar { attrs: vec![MAttr { vals: DataSpec { mode: 1, seed: i as u32 }.expand(t, k / t.size()), ..attr(i) }], ..var(i, vec![]) })
                .collect();
        }
        Crowd::Slab(n) => {
            m.dims = vec![unlim(2), dim(0, n)];
            m.vars = vec![var(0, vec![1]), var(1, vec![]), MVar { ty: t, ..var(2, vec![0, 1]) }];
        }
    }
    m
}

/// Such definitions: quick ones, and those that take up to a few minutes.
pub fn crowded_cases(thorough: bool) -> Vec<FileCase> {
    use Crowd::*;
    let mut l = vec![];
    let n = 8200;
    for (i, c) in [Dims(33000), Vars(n), RecVars(1100), Gattrs(n), Vattrs(n), Long((1 << 18) + 1), Long((1 << 22) + 5), Records(140000), Slab((1 << 20) + 3)].iter().enumerate() {
        l.push((*c, if i == 6 { Ty::U8 } else { ALL_TY[i % 6] }));
    }
    l.extend(ALL_TY.iter().map(|t| (Slab((1 << 18) + 1), *t)));
    if thorough {
        let n = 65600;
        l.extend([Dims(n), Vars(n / 2), Gattrs(n), Vattrs(n), Records(1 << 20)].iter().map(|c| (*c, Ty::I16)));
        l.extend(ALL_TY.iter().map(|t| (Slab((1 << 23) + 1), *t)));
        l.extend(ALL_TY.iter().map(|t| (Long((1 << 20) + 1), *t)));
        l.push((Long((1 << 24) + 5), Ty::U8));
    }
    l.into_iter()
        .enumerate()
        .map(|(i, (c, t))| FileCase {
            ds: crowded(c, t),
            version: 1 + (i % 2) as u8,
            min: MinSpec::Abs(0),
            data: vec![DataSpec { mode: 1, seed: i as u32 }],
        })
        .collect()
}

/// header_min_size values: none, small, around the needed size, large
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum MinSpec {
    Abs(usize),
    /// required size plus this
    Rel(i32),
}

impl MinSpec {
    pub fn get(&self, m: &MDs, version: u8) -> usize {
        match self {
            MinSpec::Abs(n) => *n,
            MinSpec::Rel(d) => {
                let h = crate::enc::header_len(m, version) as i64 + *d as i64;
                if h < 0 {
                    0
                } else {
                    h as usize
                }
            }
        }
    }
}

pub fn min_spec() -> BoxedStrategy<MinSpec> {
    prop_oneof![
        6 => Just(MinSpec::Abs(0)),
        3 => (-9i32..30).prop_map(MinSpec::Rel),
        2 => (0usize..3000).prop_map(MinSpec::Abs),
        1 => select(vec![1023usize, 1024, 1025, 2048, 4096, 5000, 20001]).prop_map(MinSpec::Abs),
    ]
    .boxed()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FileCase {
    pub ds: MDs,
    pub version: u8,
    pub min: MinSpec,
    pub data: Vec<DataSpec>,
}

impl FileCase {
    pub fn min(&self) -> usize {
        self.min.get(&self.ds, self.version)
    }
    pub fn spec(&self, i: usize) -> DataSpec {
        if self.data.is_empty() {
            DataSpec { mode: 0, seed: i as u32 }
        } else {
            let mut d = self.data[i % self.data.len()];
            d.seed = d.seed.wrapping_add((i * 131) as u32);
            d
        }
    }
    pub fn values(&self) -> Vec<Vals> {
        self.ds
            .vars
            .iter()
            .enumerate()
            .map(|(i, v)| self.spec(i).expand(v.ty, self.ds.len(v)))
            .collect()
    }
}

pub fn version() -> BoxedStrategy<u8> {
    select(vec![1u8, 2u8]).boxed()
}

pub fn file_case(o: DsOpts) -> BoxedStrategy<FileCase> {
    (mds_any(o), version(), min_spec(), vec(dspec(), 1..4))
        .prop_map(|(ds, version, min, data)| FileCase { ds, version, min, data })
        .boxed()
}

/// Candidate names of all kinds, valid or not.
pub fn any_name() -> BoxedStrategy<String> {
    let ctl = (vec(select(REST), 0..5), select(vec!['\0', '\n', '\x1f', '\x7f', '/', '\t', ' ']), vec(select(REST), 0..5))
        .prop_map(|(a, c, b)| {
            let mut s: String = "v".to_string();
            s.extend(a);
            s.push(c);
            s.extend(b);
            s
        });
    let first = (select(REST), vec(select(REST), 0..4)).prop_map(|(f, r)| {
        let mut s = String::new();
        s.push(f);
        s.extend(r);
        s
    });
    let uni = vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect::<String>());
    let ascii = vec((0u8..128).prop_map(|b| b as char), 0..6).prop_map(|v| v.into_iter().collect::<String>());
    let lens = (250usize..262, select(vec!['a', 'é', '中', '😀'])).prop_map(|(n, c)| {
        let mut s = String::new();
        while s.len() + c.len_utf8() <= n {
            s.push(c);
        }
        while s.len() < n {
            s.push('z');
        }
        s
    });
    let valid = select(REST).prop_map(|c| if c == '/' { 'z' } else { c });
    let any_c = prop_oneof![6 => valid.boxed(), 1 => any::<char>().prop_filter("valid", |c| !c.is_ascii()).boxed()];
    let mixed = (select(FIRST), vec(any_c, 1..40), 250usize..262).prop_map(|(f, r, n)| mixed_name(f, &r, n));
    prop_oneof![4 => name(), 3 => ctl, 3 => first, 3 => uni, 4 => ascii, 2 => lens, 2 => mixed, 1 => Just(String::new())]
        .boxed()
}
