//! Binding between the model and the public API of the crate under test.
use crate::model::*;
use netcdf3::{
    Attribute, DataSet, DataType, DataVector, Dimension, DimensionType, FileReader, FileWriter, InvalidDataSet,
    ReadError, Variable, Version, WriteError,
};
use std::rc::Rc;

pub type Chk = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {
        { let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); } }
    };
}

pub fn dt(t: Ty) -> DataType {
    match t {
        Ty::I8 => DataType::I8,
        Ty::U8 => DataType::U8,
        Ty::I16 => DataType::I16,
        Ty::I32 => DataType::I32,
        Ty::F32 => DataType::F32,
        Ty::F64 => DataType::F64,
    }
}

pub fn ty_of(t: &DataType) -> Ty {
    match t {
        DataType::I8 => Ty::I8,
        DataType::U8 => Ty::U8,
        DataType::I16 => Ty::I16,
        DataType::I32 => Ty::I32,
        DataType::F32 => Ty::F32,
        DataType::F64 => Ty::F64,
    }
}

pub fn ver(v: u8) -> Version {
    if v == 1 {
        Version::Classic
    } else {
        Version::Offset64Bit
    }
}

pub fn ver_num(v: &Version) -> u8 {
    match v {
        Version::Classic => 1,
        Version::Offset64Bit => 2,
    }
}

pub fn f32s(v: &[u32]) -> Vec<f32> {
    v.iter().map(|b| f32::from_bits(*b)).collect()
}
pub fn f64s(v: &[u64]) -> Vec<f64> {
    v.iter().map(|b| f64::from_bits(*b)).collect()
}
pub fn b32(v: &[f32]) -> Vec<u32> {
    v.iter().map(|b| b.to_bits()).collect()
}
pub fn b64(v: &[f64]) -> Vec<u64> {
    v.iter().map(|b| b.to_bits()).collect()
}

pub fn to_dv(v: &Vals) -> DataVector {
    match v {
        Vals::I8(x) => DataVector::I8(x.clone()),
        Vals::U8(x) => DataVector::U8(x.clone()),
        Vals::I16(x) => DataVector::I16(x.clone()),
        Vals::I32(x) => DataVector::I32(x.clone()),
        Vals::F32(x) => DataVector::F32(f32s(x)),
        Vals::F64(x) => DataVector::F64(f64s(x)),
    }
}

pub fn from_dv(v: &DataVector) -> Vals {
    match v {
        DataVector::I8(x) => Vals::I8(x.clone()),
        DataVector::U8(x) => Vals::U8(x.clone()),
        DataVector::I16(x) => Vals::I16(x.clone()),
        DataVector::I32(x) => Vals::I32(x.clone()),
        DataVector::F32(x) => Vals::F32(b32(x)),
        DataVector::F64(x) => Vals::F64(b64(x)),
    }
}

pub fn add_gattr(ds: &mut DataSet, name: &str, v: &Vals) -> Result<(), InvalidDataSet> {
    match v {
        Vals::I8(x) => ds.add_global_attr_i8(name, x.clone()),
        Vals::U8(x) => ds.add_global_attr_u8(name, x.clone()),
        Vals::I16(x) => ds.add_global_attr_i16(name, x.clone()),
        Vals::I32(x) => ds.add_global_attr_i32(name, x.clone()),
        Vals::F32(x) => ds.add_global_attr_f32(name, f32s(x)),
        Vals::F64(x) => ds.add_global_attr_f64(name, f64s(x)),
    }
}

pub fn add_gattr_str(ds: &mut DataSet, name: &str, v: &Vals) -> Result<(), InvalidDataSet> {
    if let Vals::U8(x) = v {
        if let Ok(s) = std::str::from_utf8(x) {
            return ds.add_global_attr_string(name, s);
        }
    }
    add_gattr(ds, name, v)
}

pub fn add_vattr_ds(ds: &mut DataSet, var: &str, name: &str, v: &Vals) -> Result<(), InvalidDataSet> {
    match v {
        Vals::I8(x) => ds.add_var_attr_i8(var, name, x.clone()),
        Vals::U8(x) => ds.add_var_attr_u8(var, name, x.clone()),
        Vals::I16(x) => ds.add_var_attr_i16(var, name, x.clone()),
        Vals::I32(x) => ds.add_var_attr_i32(var, name, x.clone()),
        Vals::F32(x) => ds.add_var_attr_f32(var, name, f32s(x)),
        Vals::F64(x) => ds.add_var_attr_f64(var, name, f64s(x)),
    }
}

pub fn add_vattr_var(var: &mut Variable, name: &str, v: &Vals) -> Result<(), InvalidDataSet> {
    match v {
        Vals::I8(x) => var.add_attr_i8(name, x.clone()),
        Vals::U8(x) => var.add_attr_u8(name, x.clone()),
        Vals::I16(x) => var.add_attr_i16(name, x.clone()),
        Vals::I32(x) => var.add_attr_i32(name, x.clone()),
        Vals::F32(x) => var.add_attr_f32(name, f32s(x)),
        Vals::F64(x) => var.add_attr_f64(name, f64s(x)),
    }
}

pub fn add_vattr_str(ds: &mut DataSet, var: &str, name: &str, v: &Vals, via_var: bool) -> Result<(), InvalidDataSet> {
    if let Vals::U8(x) = v {
        if let Ok(s) = std::str::from_utf8(x) {
            if via_var {
                if let Some(vv) = ds.get_var_mut(var) {
                    return vv.add_attr_string(name, s);
                }
            }
            return ds.add_var_attr_string(var, name, s);
        }
    }
    add_vattr_ds(ds, var, name, v)
}

pub fn add_var_typed(ds: &mut DataSet, name: &str, dims: &[String], ty: Ty, typed: bool) -> Result<(), InvalidDataSet> {
    if !typed {
        return ds.add_var(name, dims, dt(ty));
    }
    match ty {
        Ty::I8 => ds.add_var_i8(name, dims),
        Ty::U8 => ds.add_var_u8(name, dims),
        Ty::I16 => ds.add_var_i16(name, dims),
        Ty::I32 => ds.add_var_i32(name, dims),
        Ty::F32 => ds.add_var_f32(name, dims),
        Ty::F64 => ds.add_var_f64(name, dims),
    }
}

/// Builds the data set through the public API; every operation must succeed.
pub fn build(m: &MDs) -> Result<DataSet, String> {
    let mut ds = DataSet::new();
    for d in &m.dims {
        let r = if d.unlim { ds.set_unlimited_dim(&d.name, d.size) } else { ds.add_fixed_dim(&d.name, d.size) };
        r.map_err(|e| format!("valid dimension {:?} refused: {:?}", d, e))?;
    }
    for (i, a) in m.gattrs.iter().enumerate() {
        let r = if i % 3 == 1 { add_gattr_str(&mut ds, &a.name, &a.vals) } else { add_gattr(&mut ds, &a.name, &a.vals) };
        r.map_err(|e| format!("valid global attribute {:?} refused: {:?}", a.name, e))?;
    }
    for (i, v) in m.vars.iter().enumerate() {
        let names: Vec<String> = v.dims.iter().map(|d| m.dims[*d].name.clone()).collect();
        add_var_typed(&mut ds, &v.name, &names, v.ty, i % 2 == 0)
            .map_err(|e| format!("valid variable {:?} refused: {:?}", v.name, e))?;
        for (k, a) in v.attrs.iter().enumerate() {
            let r = match k % 3 {
                0 => add_vattr_ds(&mut ds, &v.name, &a.name, &a.vals),
                1 => add_vattr_var(ds.get_var_mut(&v.name).ok_or("get_var_mut lost a variable")?, &a.name, &a.vals),
                _ => add_vattr_str(&mut ds, &v.name, &a.name, &a.vals, i % 2 == 0),
            };
            r.map_err(|e| format!("valid attribute {:?}:{:?} refused: {:?}", v.name, a.name, e))?;
        }
    }
    Ok(ds)
}

pub fn attr_vals(a: &Attribute) -> Result<Vals, String> {
    let mut found: Vec<Vals> = vec![];
    if let Some(x) = a.get_i8() {
        found.push(Vals::I8(x.to_vec()));
    }
    if let Some(x) = a.get_u8() {
        found.push(Vals::U8(x.to_vec()));
    }
    if let Some(x) = a.get_i16() {
        found.push(Vals::I16(x.to_vec()));
    }
    if let Some(x) = a.get_i32() {
        found.push(Vals::I32(x.to_vec()));
    }
    if let Some(x) = a.get_f32() {
        found.push(Vals::F32(b32(x)));
    }
    if let Some(x) = a.get_f64() {
        found.push(Vals::F64(b64(x)));
    }
    if found.len() != 1 {
        return Err(format!("attribute {:?} answers to {} typed accessors", a.name(), found.len()));
    }
    let v = found.pop().unwrap();
    ensure_eq!(ty_of(&a.data_type()), v.ty(), "attribute {:?} data_type", a.name());
    ensure_eq!(a.len(), v.len(), "attribute {:?} len", a.name());
    let exp = if let Vals::U8(b) = &v { String::from_utf8(b.clone()).ok() } else { None };
    ensure_eq!(a.get_as_string(), exp, "attribute {:?} get_as_string", a.name());
    Ok(v)
}

pub fn dim_m(d: &Dimension) -> Result<MDim, String> {
    let un = d.is_unlimited();
    ensure_eq!(d.is_fixed(), !un, "is_fixed");
    ensure_eq!(
        d.dim_type(),
        if un { DimensionType::UnlimitedSize } else { DimensionType::FixedSize },
        "dim_type"
    );
    Ok(MDim { name: d.name(), size: d.size(), unlim: un })
}

pub fn var_m(v: &Variable, dims: &[Rc<Dimension>]) -> Result<MVar, String> {
    let mut idx = vec![];
    let vd = v.get_dims();
    ensure_eq!(vd.len(), v.num_dims(), "num_dims of {:?}", v.name());
    for d in &vd {
        match dims.iter().position(|x| Rc::ptr_eq(x, d)) {
            Some(i) => idx.push(i),
            None => return Err(format!("variable {:?} uses a dimension that is not in the data set", v.name())),
        }
    }
    let names: Vec<String> = vd.iter().map(|d| d.name()).collect();
    ensure_eq!(v.dim_names(), names, "dim_names of {:?}", v.name());
    let mut attrs = vec![];
    for a in v.get_attrs() {
        attrs.push(MAttr { name: a.name().to_string(), vals: attr_vals(a)? });
    }
    let an: Vec<String> = attrs.iter().map(|a| a.name.clone()).collect();
    ensure_eq!(v.get_attr_names(), an, "get_attr_names of {:?}", v.name());
    ensure_eq!(v.num_attrs(), an.len(), "num_attrs of {:?}", v.name());
    Ok(MVar { name: v.name().to_string(), ty: ty_of(&v.data_type()), dims: idx, attrs })
}

/// Everything observable of a data set, as a model value.
pub fn snapshot(ds: &DataSet) -> Result<MDs, String> {
    let dims = ds.get_dims();
    let mut m = MDs::default();
    for d in &dims {
        m.dims.push(dim_m(d)?);
    }
    for a in ds.get_global_attrs() {
        m.gattrs.push(MAttr { name: a.name().to_string(), vals: attr_vals(a)? });
    }
    for v in ds.get_vars() {
        m.vars.push(var_m(v, &dims)?);
    }
    Ok(m)
}

fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.len() > 600 {
        let mut k = 600;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    } else {
        s
    }
}

pub fn diff(got: &MDs, exp: &MDs) -> Chk {
    if got == exp {
        return Ok(());
    }
    ensure!(got.dims == exp.dims, "dimensions differ: got {} expected {}", short(&got.dims), short(&exp.dims));
    ensure!(
        got.gattrs == exp.gattrs,
        "global attributes differ: got {} expected {}",
        short(&got.gattrs),
        short(&exp.gattrs)
    );
    ensure_eq!(
        got.vars.iter().map(|v| v.name.clone()).collect::<Vec<_>>(),
        exp.vars.iter().map(|v| v.name.clone()).collect::<Vec<_>>(),
        "variable names"
    );
    for (a, b) in got.vars.iter().zip(exp.vars.iter()) {
        ensure!(a == b, "variable differs: got {} expected {}", short(a), short(b));
    }
    Err("data sets differ".into())
}

/// Snapshot must equal the model.
pub fn same(ds: &DataSet, m: &MDs) -> Chk {
    diff(&snapshot(ds)?, m)
}

/// Every by-name and counting query of the data set agrees with the model.
/// `probes` are extra names to query everywhere.
pub fn check_getters(ds: &DataSet, m: &MDs, probes: &[String]) -> Chk {
    same(ds, m)?;
    // dimensions
    ensure_eq!(ds.num_dims(), m.dims.len(), "num_dims");
    ensure_eq!(ds.dim_names(), m.dims.iter().map(|d| d.name.clone()).collect::<Vec<_>>(), "dim_names");
    let rcs = ds.get_dims();
    let un = m.unlim();
    ensure_eq!(ds.has_unlimited_dim(), un.is_some(), "has_unlimited_dim");
    match (ds.get_unlimited_dim(), un) {
        (None, None) => {}
        (Some(d), Some(i)) => ensure!(Rc::ptr_eq(&d, &rcs[i]), "get_unlimited_dim is not the unlimited dimension"),
        (g, e) => return Err(format!("get_unlimited_dim: got {:?}, expected index {:?}", g, e)),
    }
    ensure_eq!(ds.num_records(), m.num_records(), "num_records");
    let ids: Vec<usize> = (0..m.dims.len()).rev().collect();
    match ds.get_dims_from_dim_ids(&ids) {
        Ok(v) => {
            ensure_eq!(v.len(), ids.len(), "get_dims_from_dim_ids length");
            for (k, i) in ids.iter().enumerate() {
                ensure!(Rc::ptr_eq(&v[k], &rcs[*i]), "get_dims_from_dim_ids order");
            }
        }
        Err(e) => return Err(format!("get_dims_from_dim_ids failed: {:?}", e)),
    }
    let bad = [0usize, m.dims.len(), m.dims.len() + 7];
    match ds.get_dims_from_dim_ids(&bad) {
        Err(InvalidDataSet::DimensionIdsNotFound { defined, searched, not_found }) => {
            ensure_eq!(defined, (0..m.dims.len()).collect::<Vec<_>>(), "DimensionIdsNotFound.defined");
            ensure_eq!(searched, bad.to_vec(), "DimensionIdsNotFound.searched");
            let nf: Vec<usize> = bad.iter().copied().filter(|i| *i >= m.dims.len()).collect();
            ensure_eq!(not_found, nf, "DimensionIdsNotFound.not_found");
        }
        r => return Err(format!("get_dims_from_dim_ids with bad ids: {:?}", r)),
    }
    let mut names: Vec<&str> = m.dims.iter().map(|d| &d.name[..]).collect();
    names.extend(m.vars.iter().map(|d| &d.name[..]));
    names.extend(m.gattrs.iter().map(|d| &d.name[..]));
    names.extend(probes.iter().map(|d| &d[..]));
    for v in &m.vars {
        names.extend(v.attrs.iter().map(|a| &a.name[..]));
    }
    names.sort();
    names.dedup();
    if names.len() > 60 {
        names.truncate(60);
    }
    for n in names.iter() {
        let e = m.dims.iter().position(|d| d.name == *n);
        ensure_eq!(ds.has_dim(n), e.is_some(), "has_dim({:?})", n);
        ensure_eq!(ds.dim_size(n), e.map(|i| m.dims[i].size), "dim_size({:?})", n);
        ensure_eq!(
            ds.dim_type(n),
            e.map(|i| if m.dims[i].unlim { DimensionType::UnlimitedSize } else { DimensionType::FixedSize }),
            "dim_type({:?})",
            n
        );
        match (ds.get_dim(n), e) {
            (None, None) => {}
            (Some(d), Some(i)) => ensure!(Rc::ptr_eq(&d, &rcs[i]), "get_dim({:?}) returned another dimension", n),
            (g, e) => return Err(format!("get_dim({:?}): got {:?} expected {:?}", n, g, e)),
        }
        // global attributes
        let e = m.gattrs.iter().find(|a| a.name == *n);
        ensure_eq!(ds.has_global_attr(n), e.is_some(), "has_global_attr({:?})", n);
        ensure_eq!(ds.get_global_attr_len(n), e.map(|a| a.vals.len()), "get_global_attr_len({:?})", n);
        ensure_eq!(ds.get_global_attr_data_type(n), e.map(|a| dt(a.vals.ty())), "get_global_attr_data_type({:?})", n);
        let ga = match ds.get_global_attr(n) {
            None => None,
            Some(a) => {
                ensure_eq!(a.name(), *n, "get_global_attr name");
                Some(attr_vals(a)?)
            }
        };
        ensure_eq!(ga.as_ref(), e.map(|a| &a.vals), "get_global_attr({:?})", n);
        let typed = Typed {
            i8: ds.get_global_attr_i8(n).map(|x| x.to_vec()),
            u8: ds.get_global_attr_u8(n).map(|x| x.to_vec()),
            i16: ds.get_global_attr_i16(n).map(|x| x.to_vec()),
            i32: ds.get_global_attr_i32(n).map(|x| x.to_vec()),
            f32: ds.get_global_attr_f32(n).map(b32),
            f64: ds.get_global_attr_f64(n).map(b64),
            st: ds.get_global_attr_as_string(n),
        };
        ensure_eq!(typed, Typed::of(e.map(|a| &a.vals)), "typed global attribute {:?}", n);
        // variables
        let e = m.vars.iter().find(|v| v.name == *n);
        ensure_eq!(ds.has_var(n), e.is_some(), "has_var({:?})", n);
        ensure_eq!(ds.is_record_var(n), e.map(|v| m.is_rec(v)), "is_record_var({:?})", n);
        ensure_eq!(ds.var_data_type(n), e.map(|v| dt(v.ty)), "var_data_type({:?})", n);
        ensure_eq!(ds.num_var_attrs(n), e.map(|v| v.attrs.len()), "num_var_attrs({:?})", n);
        if let Some(v) = e {
            let l = m.chunk_len_big(v).checked_mul(m.nrec(v) as u128);
            if l.map_or(false, |l| l < 1 << 60) {
                ensure_eq!(ds.var_len(n), Some(l.unwrap() as usize), "var_len({:?})", n);
            }
        } else {
            ensure_eq!(ds.var_len(n), None, "var_len({:?})", n);
        }
        match (ds.get_var(n), e) {
            (None, None) => {}
            (Some(g), Some(v)) => {
                ensure_eq!(&var_m(g, &rcs)?, v, "get_var({:?})", n);
                ensure_eq!(g.is_record_var(), m.is_rec(v), "Variable::is_record_var");
                for d in m.dims.iter() {
                    let used = v.dims.iter().any(|i| m.dims[*i].name == d.name);
                    ensure_eq!(g.use_dim(&d.name), used, "use_dim({:?})", d.name);
                }
                for p in probes {
                    if !m.dims.iter().any(|d| d.name == *p) {
                        ensure!(!g.use_dim(p), "use_dim({:?}) of an undefined dimension", p);
                    }
                }
            }
            (g, e) => return Err(format!("get_var({:?}): got {:?} expected {:?}", n, g.map(|v| v.name()), e)),
        }
        match (ds.get_var_attrs(n), e) {
            (None, None) => {}
            (Some(g), Some(v)) => {
                let mut l = vec![];
                for a in g {
                    l.push(MAttr { name: a.name().to_string(), vals: attr_vals(a)? });
                }
                ensure_eq!(&l, &v.attrs, "get_var_attrs({:?})", n);
            }
            (g, e) => return Err(format!("get_var_attrs({:?}): got {} expected {}", n, g.is_some(), e.is_some())),
        }
    }
    // variable attributes, by name, from both levels
    let mut vnames: Vec<&str> = m.vars.iter().map(|v| &v.name[..]).collect();
    vnames.extend(probes.iter().take(2).map(|p| &p[..]));
    if vnames.len() > 12 {
        vnames.truncate(12);
    }
    for vn in vnames {
        let mv = m.vars.iter().find(|v| v.name == *vn);
        let gv = ds.get_var(vn);
        for an in names.iter() {
            let e = mv.and_then(|v| v.attrs.iter().find(|a| a.name == *an));
            ensure_eq!(ds.has_var_attr(vn, an), mv.map(|_| e.is_some()), "has_var_attr({:?},{:?})", vn, an);
            ensure_eq!(ds.get_var_attr_len(vn, an), e.map(|a| a.vals.len()), "get_var_attr_len({:?},{:?})", vn, an);
            ensure_eq!(
                ds.get_var_attr_data_type(vn, an),
                e.map(|a| dt(a.vals.ty())),
                "get_var_attr_data_type({:?},{:?})",
                vn,
                an
            );
            let ga = match ds.get_var_attr(vn, an) {
                None => None,
                Some(a) => {
                    ensure_eq!(a.name(), *an, "get_var_attr name");
                    Some(attr_vals(a)?)
                }
            };
            ensure_eq!(ga.as_ref(), e.map(|a| &a.vals), "get_var_attr({:?},{:?})", vn, an);
            let t = Typed {
                i8: ds.get_var_attr_i8(vn, an).map(|x| x.to_vec()),
                u8: ds.get_var_attr_u8(vn, an).map(|x| x.to_vec()),
                i16: ds.get_var_attr_i16(vn, an).map(|x| x.to_vec()),
                i32: ds.get_var_attr_i32(vn, an).map(|x| x.to_vec()),
                f32: ds.get_var_attr_f32(vn, an).map(b32),
                f64: ds.get_var_attr_f64(vn, an).map(b64),
                st: ds.get_var_attr_as_string(vn, an),
            };
            ensure_eq!(t, Typed::of(e.map(|a| &a.vals)), "typed attribute {:?} of {:?}", an, vn);
            if let Some(g) = gv {
                ensure_eq!(g.has_attr(an), e.is_some(), "Variable::has_attr({:?})", an);
                let ga = match g.get_attr(an) {
                    None => None,
                    Some(a) => Some(attr_vals(a)?),
                };
                ensure_eq!(ga.as_ref(), e.map(|a| &a.vals), "Variable::get_attr({:?})", an);
                let t = Typed {
                    i8: g.get_attr_i8(an).map(|x| x.to_vec()),
                    u8: g.get_attr_u8(an).map(|x| x.to_vec()),
                    i16: g.get_attr_i16(an).map(|x| x.to_vec()),
                    i32: g.get_attr_i32(an).map(|x| x.to_vec()),
                    f32: g.get_attr_f32(an).map(b32),
                    f64: g.get_attr_f64(an).map(b64),
                    st: g.get_attr_as_string(an),
                };
                ensure_eq!(t, Typed::of(e.map(|a| &a.vals)), "Variable typed attribute {:?} of {:?}", an, vn);
            }
        }
    }
    ensure_eq!(ds.num_vars(), m.vars.len(), "num_vars");
    ensure_eq!(ds.get_var_names(), m.vars.iter().map(|d| d.name.clone()).collect::<Vec<_>>(), "get_var_names");
    ensure_eq!(ds.num_global_attrs(), m.gattrs.len(), "num_global_attrs");
    ensure_eq!(
        ds.get_global_attr_names(),
        m.gattrs.iter().map(|d| d.name.clone()).collect::<Vec<_>>(),
        "get_global_attr_names"
    );
    Ok(())
}

#[derive(Debug, PartialEq, Default)]
pub struct Typed {
    pub i8: Option<Vec<i8>>,
    pub u8: Option<Vec<u8>>,
    pub i16: Option<Vec<i16>>,
    pub i32: Option<Vec<i32>>,
    pub f32: Option<Vec<u32>>,
    pub f64: Option<Vec<u64>>,
    pub st: Option<String>,
}

impl Typed {
    pub fn of(v: Option<&Vals>) -> Typed {
        let mut t = Typed::default();
        match v {
            None => {}
            Some(Vals::I8(x)) => t.i8 = Some(x.clone()),
            Some(Vals::U8(x)) => {
                t.u8 = Some(x.clone());
                t.st = String::from_utf8(x.clone()).ok();
            }
            Some(Vals::I16(x)) => t.i16 = Some(x.clone()),
            Some(Vals::I32(x)) => t.i32 = Some(x.clone()),
            Some(Vals::F32(x)) => t.f32 = Some(x.clone()),
            Some(Vals::F64(x)) => t.f64 = Some(x.clone()),
        }
        t
    }
}

pub fn write_var(w: &mut FileWriter, name: &str, v: &Vals) -> Result<(), WriteError> {
    match v {
        Vals::I8(x) => w.write_var_i8(name, x),
        Vals::U8(x) => w.write_var_u8(name, x),
        Vals::I16(x) => w.write_var_i16(name, x),
        Vals::I32(x) => w.write_var_i32(name, x),
        Vals::F32(x) => w.write_var_f32(name, &f32s(x)),
        Vals::F64(x) => w.write_var_f64(name, &f64s(x)),
    }
}

pub fn write_record(w: &mut FileWriter, name: &str, idx: usize, v: &Vals) -> Result<(), WriteError> {
    match v {
        Vals::I8(x) => w.write_record_i8(name, idx, x),
        Vals::U8(x) => w.write_record_u8(name, idx, x),
        Vals::I16(x) => w.write_record_i16(name, idx, x),
        Vals::I32(x) => w.write_record_i32(name, idx, x),
        Vals::F32(x) => w.write_record_f32(name, idx, &f32s(x)),
        Vals::F64(x) => w.write_record_f64(name, idx, &f64s(x)),
    }
}

pub fn read_var(r: &mut FileReader, name: &str) -> Result<Vals, ReadError> {
    r.read_var(name).map(|v| from_dv(&v))
}

pub fn read_var_typed(r: &mut FileReader, name: &str, ty: Ty) -> Result<Vals, ReadError> {
    match ty {
        Ty::I8 => r.read_var_i8(name).map(Vals::I8),
        Ty::U8 => r.read_var_u8(name).map(Vals::U8),
        Ty::I16 => r.read_var_i16(name).map(Vals::I16),
        Ty::I32 => r.read_var_i32(name).map(Vals::I32),
        Ty::F32 => r.read_var_f32(name).map(|x| Vals::F32(b32(&x))),
        Ty::F64 => r.read_var_f64(name).map(|x| Vals::F64(b64(&x))),
    }
}

pub fn read_record(r: &mut FileReader, name: &str, i: usize) -> Result<Vals, ReadError> {
    r.read_record(name, i).map(|v| from_dv(&v))
}

pub fn read_record_typed(r: &mut FileReader, name: &str, i: usize, ty: Ty) -> Result<Vals, ReadError> {
    match ty {
        Ty::I8 => r.read_record_i8(name, i).map(Vals::I8),
        Ty::U8 => r.read_record_u8(name, i).map(Vals::U8),
        Ty::I16 => r.read_record_i16(name, i).map(Vals::I16),
        Ty::I32 => r.read_record_i32(name, i).map(Vals::I32),
        Ty::F32 => r.read_record_f32(name, i).map(|x| Vals::F32(b32(&x))),
        Ty::F64 => r.read_record_f64(name, i).map(|x| Vals::F64(b64(&x))),
    }
}

/// The slice of a variable's values that forms record `i`.
pub fn slice_rec(all: &Vals, chunk_len: usize, i: usize) -> Vals {
    let r = i * chunk_len..(i + 1) * chunk_len;
    match all {
        Vals::I8(v) => Vals::I8(v[r].to_vec()),
        Vals::U8(v) => Vals::U8(v[r].to_vec()),
        Vals::I16(v) => Vals::I16(v[r].to_vec()),
        Vals::I32(v) => Vals::I32(v[r].to_vec()),
        Vals::F32(v) => Vals::F32(v[r].to_vec()),
        Vals::F64(v) => Vals::F64(v[r].to_vec()),
    }
}

/// Opens the file and compares version, definition and all data (all entry points once).
pub fn check_read_back(path: &std::path::Path, version: u8, m: &MDs, data: &[Vals]) -> Chk {
    let mut r = FileReader::open(path).map_err(|e| format!("open failed: {:?}", e))?;
    ensure_eq!(ver_num(&r.version()), version, "version");
    ensure_eq!(r.file_path(), path, "file_path");
    same(r.data_set(), m)?;
    for (i, v) in m.vars.iter().enumerate() {
        let g = read_var(&mut r, &v.name).map_err(|e| format!("read_var({:?}) failed: {:?}", v.name, e))?;
        ensure!(
            g == data[i],
            "data of {:?} differ: got {} expected {}",
            v.name,
            short(&g),
            short(&data[i])
        );
    }
    let (ds, v2) = r.close();
    ensure_eq!(ver_num(&v2), version, "version after close");
    same(&ds, m)?;
    Ok(())
}

pub fn short_pub<T: std::fmt::Debug>(t: &T) -> String {
    short(t)
}

/// First difference between two byte strings, for messages.
pub fn bytes_same(got: &[u8], exp: &[u8]) -> Chk {
    if got == exp {
        return Ok(());
    }
    let k = got.iter().zip(exp.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
    let w = |x: &[u8]| -> String {
        x[k.min(x.len())..(k + 12).min(x.len())].iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(" ")
    };
    Err(format!(
        "bytes differ at offset {} (lengths {} and {} expected): got [{}] expected [{}]",
        k,
        got.len(),
        exp.len(),
        w(got),
        w(exp)
    ))
}
