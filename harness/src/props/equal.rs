//! C25: equality is equality of content; copies and removed parts are independent of the data set.
use crate::api::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::defs::{any_dop, conditions, model_apply, names, real_apply, DOp, Names};
use crate::{ensure, ensure_eq};
use netcdf3::{Attribute, DataSet, DataVector, Dimension, FileReader, FileWriter, Variable};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C25 {
    /// two data sets, the second with one small change (or none), each built in its own way
    Pair { m: MDs, edit: u8, at: u16, by: u16, way: u8, seed: u64 },
    /// copies taken along a history, then changed
    Copies { names: Vec<String>, ops: Vec<DOp>, take: Vec<(u8, u8)>, more: Vec<(u8, Vals)> },
}

/// Equality of values: Some(..) where it is settled; None when it depends on how NaNs and zeros compare.
fn vals_eq(a: &Vals, b: &Vals) -> Option<bool> {
    if a.ty() != b.ty() || a.len() != b.len() {
        return Some(false);
    }
    let pairs: Vec<(f64, f64, bool)> = match (a, b) {
        (Vals::F32(x), Vals::F32(y)) => x
            .iter()
            .zip(y)
            .map(|(p, q)| (f32::from_bits(*p) as f64, f32::from_bits(*q) as f64, p == q))
            .collect(),
        (Vals::F64(x), Vals::F64(y)) => {
            x.iter().zip(y).map(|(p, q)| (f64::from_bits(*p), f64::from_bits(*q), p == q)).collect()
        }
        _ => return Some(a == b),
    };
    let mut open = false;
    for (x, y, bits) in pairs {
        if x.is_nan() && y.is_nan() || x == y && !bits {
            open = true;
        } else if !bits {
            return Some(false);
        }
    }
    if open {
        None
    } else {
        Some(true)
    }
}

fn and(a: Option<bool>, b: impl FnOnce() -> Option<bool>) -> Option<bool> {
    match a {
        Some(false) => Some(false),
        Some(true) => b(),
        None => match b() {
            Some(false) => Some(false),
            _ => None,
        },
    }
}

fn attr_eq(a: &MAttr, b: &MAttr) -> Option<bool> {
    and(Some(a.name == b.name), || vals_eq(&a.vals, &b.vals))
}

fn attrs_eq(a: &[MAttr], b: &[MAttr]) -> Option<bool> {
    if a.len() != b.len() {
        return Some(false);
    }
    a.iter().zip(b).fold(Some(true), |e, (x, y)| and(e, || attr_eq(x, y)))
}

fn var_eq(m1: &MDs, a: &MVar, m2: &MDs, b: &MVar) -> Option<bool> {
    let d1: Vec<&MDim> = a.dims.iter().map(|i| &m1.dims[*i]).collect();
    let d2: Vec<&MDim> = b.dims.iter().map(|i| &m2.dims[*i]).collect();
    and(Some(a.name == b.name && a.ty == b.ty && d1 == d2), || attrs_eq(&a.attrs, &b.attrs))
}

fn ds_eq(a: &MDs, b: &MDs) -> Option<bool> {
    let e = and(Some(a.dims == b.dims && a.vars.len() == b.vars.len()), || attrs_eq(&a.gattrs, &b.gattrs));
    if e == Some(false) {
        return e;
    }
    a.vars.iter().zip(&b.vars).fold(e, |e, (x, y)| and(e, || var_eq(a, x, b, y)))
}

fn fresh(n: &str, taken: &dyn Fn(&str) -> bool) -> String {
    let mut s = if n.len() < 250 { format!("{}x", n) } else { "x".to_string() };
    while taken(&s) {
        s = format!("x{}", &s[..s.char_indices().nth(3).map_or(s.len(), |c| c.0)]);
        if taken(&s) {
            s = format!("x{}", s.len() * 31 + s.bytes().map(|b| b as usize).sum::<usize>());
        }
    }
    s
}

fn pick<T>(l: &mut Vec<T>, at: u16) -> Option<&mut T> {
    let n = l.len();
    if n == 0 {
        None
    } else {
        l.get_mut(at as usize % n)
    }
}

fn edit_vals(v: &mut Vals, by: u16) {
    let n = v.len();
    let i = if n == 0 { 0 } else { (by as usize / 8) % n };
    match by % 6 {
        0 if n > 0 => match v {
            Vals::I8(x) => x[i] = x[i].wrapping_add(1),
            Vals::U8(x) => x[i] = x[i].wrapping_add(1),
            Vals::I16(x) => x[i] = x[i].wrapping_add(0x100),
            Vals::I32(x) => x[i] = x[i].wrapping_add(0x10000),
            Vals::F32(x) => x[i] ^= 1,
            Vals::F64(x) => x[i] ^= 1,
        },
        1 if n > 0 => match v {
            Vals::F32(x) => x[i] ^= 1 << 31,
            Vals::F64(x) => x[i] ^= 1 << 63,
            _ => {}
        },
        2 => match v {
            Vals::I8(x) => x.push(0),
            Vals::U8(x) => x.push(0),
            Vals::I16(x) => x.push(0),
            Vals::I32(x) => x.push(0),
            Vals::F32(x) => x.push(0),
            Vals::F64(x) => x.push(0),
        },
        3 => {
            let b = v.be_bytes();
            *v = match v {
                Vals::I8(_) => Vals::U8(b),
                Vals::U8(_) => Vals::from_be(Ty::I8, &b),
                Vals::I16(_) => Vals::from_be(Ty::I8, &b),
                Vals::I32(_) => Vals::from_be(Ty::F32, &b),
                Vals::F32(_) => Vals::from_be(Ty::I32, &b),
                Vals::F64(_) => Vals::from_be(Ty::F32, &b),
            }
        }
        4 if n > 1 => match v {
            Vals::I8(x) => x.swap(0, i),
            Vals::U8(x) => x.swap(0, i),
            Vals::I16(x) => x.swap(0, i),
            Vals::I32(x) => x.swap(0, i),
            Vals::F32(x) => x.swap(0, i),
            Vals::F64(x) => x.swap(0, i),
        },
        _ => match v {
            Vals::I8(x) => drop(x.pop()),
            Vals::U8(x) => drop(x.pop()),
            Vals::I16(x) => drop(x.pop()),
            Vals::I32(x) => drop(x.pop()),
            Vals::F32(x) => drop(x.pop()),
            Vals::F64(x) => drop(x.pop()),
        },
    }
}

/// One small change; the result is again a valid definition.
fn edited(m: &MDs, edit: u8, at: u16, by: u16) -> MDs {
    let mut n = m.clone();
    let at2 = at.wrapping_mul(31).wrapping_add(by);
    match edit % 20 {
        0 | 1 | 2 => {}
        3 => {
            if let Some(d) = pick(&mut n.dims, at) {
                d.size = if by % 2 == 0 || d.size < 2 { d.size + 1 } else { d.size - 1 };
            }
        }
        4 => {
            let ns: Vec<String> = m.dims.iter().map(|d| d.name.clone()).collect();
            if let Some(d) = pick(&mut n.dims, at) {
                d.name = fresh(&d.name, &|s| ns.iter().any(|x| x == s));
            }
        }
        5 => {
            let ns: Vec<String> = m.vars.iter().map(|d| d.name.clone()).collect();
            if let Some(d) = pick(&mut n.vars, at) {
                d.name = fresh(&d.name, &|s| ns.iter().any(|x| x == s));
            }
        }
        6 => {
            let ns: Vec<String> = m.gattrs.iter().map(|d| d.name.clone()).collect();
            if let Some(d) = pick(&mut n.gattrs, at) {
                d.name = fresh(&d.name, &|s| ns.iter().any(|x| x == s));
            }
        }
        7 => {
            if let Some(v) = pick(&mut n.vars, at) {
                let ns: Vec<String> = v.attrs.iter().map(|d| d.name.clone()).collect();
                if let Some(d) = pick(&mut v.attrs, by) {
                    d.name = fresh(&d.name, &|s| ns.iter().any(|x| x == s));
                }
            }
        }
        8 => {
            if let Some(a) = pick(&mut n.gattrs, at) {
                edit_vals(&mut a.vals, by);
            }
        }
        9 | 10 => {
            if let Some(v) = pick(&mut n.vars, at) {
                if let Some(a) = pick(&mut v.attrs, by / 64) {
                    edit_vals(&mut a.vals, by);
                }
            }
        }
        11 => {
            if let Some(v) = pick(&mut n.vars, at) {
                v.ty = ALL_TY[(v.ty as usize + 1 + by as usize % 5) % 6];
            }
        }
        12 => {
            // two dimensions change places in the list
            let k = n.dims.len();
            if k > 1 {
                let (i, j) = (at as usize % k, at2 as usize % k);
                n.dims.swap(i, j);
                for v in n.vars.iter_mut() {
                    for d in v.dims.iter_mut() {
                        if *d == i {
                            *d = j
                        } else if *d == j {
                            *d = i
                        }
                    }
                }
            }
        }
        13 => {
            let k = n.vars.len();
            if k > 1 {
                n.vars.swap(at as usize % k, at2 as usize % k);
            }
        }
        14 => {
            let k = n.gattrs.len();
            if k > 1 {
                n.gattrs.swap(at as usize % k, at2 as usize % k);
            }
            if let Some(v) = pick(&mut n.vars, at) {
                let k = v.attrs.len();
                if k > 1 {
                    v.attrs.swap(by as usize % k, at2 as usize % k);
                }
            }
        }
        15 => {
            // the dimensions of one variable in another order
            let un = n.unlim();
            if let Some(v) = pick(&mut n.vars, at) {
                let f = if v.dims.first().copied() == un && un.is_some() { 1 } else { 0 };
                let k = v.dims.len() - f;
                if k > 1 {
                    v.dims.swap(f + by as usize % k, f + at2 as usize % k);
                }
            }
        }
        16 => {
            // a variable loses its last dimension, or the last variable or attribute is left out
            match by % 3 {
                0 => {
                    if let Some(v) = pick(&mut n.vars, at) {
                        v.dims.pop();
                    }
                }
                1 => drop(n.vars.pop()),
                _ => drop(n.gattrs.pop()),
            }
        }
        17 => {
            // an attribute moves to another owner
            let k = n.vars.len();
            if k > 0 {
                let i = at as usize % k;
                if let Some(a) = n.vars[i].attrs.pop() {
                    if by % 2 == 0 {
                        if !n.gattrs.iter().any(|x| x.name == a.name) {
                            n.gattrs.push(a);
                        }
                    } else {
                        let j = (i + 1) % k;
                        if !n.vars[j].attrs.iter().any(|x| x.name == a.name) {
                            n.vars[j].attrs.push(a);
                        }
                    }
                }
            }
        }
        18 => {
            // the unlimited dimension becomes a fixed one
            if let Some(u) = n.unlim() {
                if n.dims[u].size > 0 {
                    n.dims[u].unlim = false;
                }
            }
        }
        _ => {
            let ns: Vec<String> = m.dims.iter().map(|d| d.name.clone()).collect();
            n.dims.push(MDim { name: fresh("q", &|s| ns.iter().any(|x| x == s)), size: 1 + by as usize % 3, unlim: false });
        }
    }
    n
}

/// Builds the same data set with detours: temporary names, things added and removed again.
fn build_detour(m: &MDs, seed: u64) -> Result<DataSet, String> {
    let mut s = seed;
    let mut ds = DataSet::new();
    fn e<T, E: std::fmt::Debug>(r: Result<T, E>, what: &str) -> Result<T, String> {
        r.map_err(|x| format!("building by a detour: {}: {:?}", what, x))
    }
    let dn: Vec<String> = m.dims.iter().map(|d| d.name.clone()).collect();
    let taken_d = |x: &str| dn.iter().any(|y| y == x);
    let mut junk: Vec<String> = vec![];
    for (i, d) in m.dims.iter().enumerate() {
        if splitmix(&mut s) % 4 == 0 {
            let j = fresh(&format!("junk{}", i), &taken_d);
            e(if d.unlim { ds.set_unlimited_dim(&j, 3) } else { ds.add_fixed_dim(&j, 7) }, "junk dimension")?;
            if d.unlim || splitmix(&mut s) % 2 == 0 {
                e(ds.remove_dim(&j), "remove_dim")?;
            } else {
                junk.push(j);
            }
        }
        let tmp = if splitmix(&mut s) % 3 == 0 { fresh(&format!("tmp{}", i), &taken_d) } else { d.name.clone() };
        e(if d.unlim { ds.set_unlimited_dim(&tmp, d.size) } else { ds.add_fixed_dim(&tmp, d.size) }, "dimension")?;
        if tmp != d.name {
            e(ds.rename_dim(&tmp, &d.name), "rename_dim")?;
        }
    }
    let vn: Vec<String> = m.vars.iter().map(|d| d.name.clone()).collect();
    let taken_v = |x: &str| vn.iter().any(|y| y == x);
    let mut jv: Vec<String> = vec![];
    for (i, v) in m.vars.iter().enumerate() {
        let dims: Vec<String> = v.dims.iter().map(|d| m.dims[*d].name.clone()).collect();
        if splitmix(&mut s) % 4 == 0 {
            let j = fresh(&format!("junk{}", i), &taken_v);
            e(add_var_typed(&mut ds, &j, &dims, ALL_TY[i % 6], true), "junk variable")?;
            e(ds.add_var_attr_i8(&j, "a", vec![1]), "junk variable attribute")?;
            jv.push(j);
        }
        let tmp = if splitmix(&mut s) % 3 == 0 { fresh(&format!("tmp{}", i), &taken_v) } else { v.name.clone() };
        e(add_var_typed(&mut ds, &tmp, &dims, v.ty, i % 2 == 1), "variable")?;
        let an: Vec<String> = v.attrs.iter().map(|d| d.name.clone()).collect();
        let taken_a = |x: &str| an.iter().any(|y| y == x);
        for (k, a) in v.attrs.iter().enumerate() {
            match splitmix(&mut s) % 4 {
                0 => {
                    let t = fresh(&format!("t{}", k), &taken_a);
                    e(add_vattr_ds(&mut ds, &tmp, &t, &a.vals), "attribute")?;
                    e(ds.rename_var_attr(&tmp, &t, &a.name), "rename_var_attr")?;
                }
                1 => {
                    let t = fresh(&format!("j{}", k), &taken_a);
                    e(ds.add_var_attr_i32(&tmp, &t, vec![1, 2]), "junk attribute")?;
                    e(add_vattr_ds(&mut ds, &tmp, &a.name, &a.vals), "attribute")?;
                    e(ds.remove_var_attr(&tmp, &t), "remove_var_attr")?;
                }
                _ => e(add_vattr_ds(&mut ds, &tmp, &a.name, &a.vals), "attribute")?,
            }
        }
        if tmp != v.name {
            e(ds.rename_var(&tmp, &v.name), "rename_var")?;
        }
    }
    let gn: Vec<String> = m.gattrs.iter().map(|d| d.name.clone()).collect();
    let taken_g = |x: &str| gn.iter().any(|y| y == x);
    for (k, a) in m.gattrs.iter().enumerate() {
        match splitmix(&mut s) % 4 {
            0 => {
                let t = fresh(&format!("t{}", k), &taken_g);
                e(add_gattr(&mut ds, &t, &a.vals), "global attribute")?;
                e(ds.rename_global_attr(&t, &a.name), "rename_global_attr")?;
            }
            1 => {
                let t = fresh(&format!("j{}", k), &taken_g);
                e(ds.add_global_attr_i16(&t, vec![1, 2]), "junk global attribute")?;
                e(add_gattr(&mut ds, &a.name, &a.vals), "global attribute")?;
                e(ds.remove_global_attr(&t), "remove_global_attr")?;
            }
            _ => e(add_gattr(&mut ds, &a.name, &a.vals), "global attribute")?,
        }
    }
    for j in jv {
        e(ds.remove_var(&j), "remove_var")?;
    }
    for j in junk {
        e(ds.remove_dim(&j), "remove_dim")?;
    }
    Ok(ds)
}

/// Writes the data set to a file and takes it back from a reader.
pub fn through_file(ds: &DataSet, m: &MDs, version: u8, cx: &mut Cx) -> Result<DataSet, String> {
    let p = cx.path();
    let mut w = FileWriter::create_new(&p).map_err(|e| format!("create_new: {:?}", e))?;
    w.set_def(ds, ver(version), 0).map_err(|e| format!("set_def: {:?}", e))?;
    for v in &m.vars {
        // the data do not matter here, but close() must not have to fill much
        if m.len(v) < 64 {
            write_var(&mut w, &v.name, &Vals::fill(v.ty, m.len(v))).map_err(|e| format!("write_var: {:?}", e))?;
        }
    }
    w.close().map_err(|e| format!("close: {:?}", e))?;
    let r = FileReader::open(&p).map_err(|e| format!("open: {:?}", e))?;
    let (d, _) = r.close();
    let _ = std::fs::remove_file(&p);
    Ok(d)
}

fn eq_is<T: PartialEq + ?Sized>(a: &T, b: &T, exp: Option<bool>, what: &dyn Fn() -> String, cx: &mut Cx) -> Chk {
    let e = a == b;
    ensure_eq!(b == a, e, "{}: == is not symmetric", what());
    ensure_eq!(a != b, !e, "{}: != is not the negation of ==", what());
    cx.evals(1);
    if let Some(x) = exp {
        ensure_eq!(e, x, "{}: equality", what());
    }
    Ok(())
}

fn pair(m: &MDs, edit: u8, at: u16, by: u16, way: u8, seed: u64, cx: &mut Cx) -> Chk {
    let n = edited(m, edit, at, by);
    let mut d1 = build(m)?;
    let mut d2 = if way & 1 == 0 { build(&n)? } else { build_detour(&n, seed)? };
    if way & 6 == 2 {
        d1 = through_file(&d1, m, 1 + (way >> 4 & 1), cx)?;
        cx.label("first from a file");
    }
    if way & 12 == 4 {
        d2 = through_file(&d2, &n, 1 + (way >> 5 & 1), cx)?;
        cx.label("second from a file");
    }
    cx.label_if(way & 1 == 1, "built by a detour");
    same(&d1, m)?;
    same(&d2, &n).map_err(|e| format!("second data set: {}", e))?;
    let e = ds_eq(m, &n);
    cx.label(match e {
        Some(true) => "same content",
        Some(false) => "different content",
        None => "NaN or signed zeros decide",
    });
    cx.nontrivial(e.is_some() && m.dims.len() + m.vars.len() + m.gattrs.len() >= 3);
    eq_is(&d1, &d2, e, &|| format!("data sets (edit {})", edit % 20), cx)?;
    for (i, a) in d1.get_vars().into_iter().enumerate() {
        for (j, b) in d2.get_vars().into_iter().enumerate() {
            eq_is(a, b, var_eq(m, &m.vars[i], &n, &n.vars[j]), &|| format!("variables {} and {}", i, j), cx)?;
            for (p, x) in a.get_attrs().into_iter().enumerate().take(4) {
                for (q, y) in b.get_attrs().into_iter().enumerate().take(4) {
                    let exp = attr_eq(&m.vars[i].attrs[p], &n.vars[j].attrs[q]);
                    eq_is(x, y, exp, &|| format!("attributes {:?} and {:?}", x.name(), y.name()), cx)?;
                    let (u, v) = (&m.vars[i].attrs[p].vals, &n.vars[j].attrs[q].vals);
                    eq_is(&to_dv(u), &to_dv(v), vals_eq(u, v), &|| "data vectors".into(), cx)?;
                }
            }
        }
    }
    for (i, a) in d1.get_global_attrs().into_iter().enumerate().take(6) {
        for (j, b) in d2.get_global_attrs().into_iter().enumerate().take(6) {
            let exp = attr_eq(&m.gattrs[i], &n.gattrs[j]);
            eq_is(a, b, exp, &|| format!("global attributes {:?} and {:?}", a.name(), b.name()), cx)?;
        }
    }
    for (i, a) in d1.get_dims().iter().enumerate() {
        for (j, b) in d2.get_dims().iter().enumerate() {
            eq_is::<Dimension>(a, b, Some(m.dims[i] == n.dims[j]), &|| format!("dimensions {} and {}", i, j), cx)?;
        }
    }
    Ok(())
}

struct KeptVar {
    v: Variable,
    name: String,
    ty: Ty,
    dims: Vec<MDim>,
    attrs: Vec<MAttr>,
    from: String,
}

impl KeptVar {
    fn new(v: Variable, m: &MDs, i: usize, from: String) -> KeptVar {
        let x = &m.vars[i];
        KeptVar {
            v,
            name: x.name.clone(),
            ty: x.ty,
            dims: x.dims.iter().map(|d| m.dims[*d].clone()).collect(),
            attrs: x.attrs.clone(),
            from,
        }
    }
    /// Everything but the names of the dimensions, which may follow later renames.
    fn check(&self) -> Chk {
        let f = || format!("{}, kept variable {:?}", self.from, self.name);
        let v = &self.v;
        ensure_eq!(v.name(), &self.name[..], "{}: name", f());
        ensure_eq!(ty_of(&v.data_type()), self.ty, "{}: type", f());
        ensure_eq!(v.num_dims(), self.dims.len(), "{}: num_dims", f());
        let got: Vec<(usize, bool)> = v.get_dims().iter().map(|d| (d.size(), d.is_unlimited())).collect();
        let exp: Vec<(usize, bool)> = self.dims.iter().map(|d| (d.size, d.unlim)).collect();
        ensure_eq!(got, exp, "{}: sizes and types of the dimensions", f());
        let dn: Vec<String> = v.get_dims().iter().map(|d| d.name()).collect();
        ensure_eq!(v.dim_names(), dn, "{}: dim_names", f());
        let mut attrs = vec![];
        for a in v.get_attrs() {
            attrs.push(MAttr { name: a.name().to_string(), vals: attr_vals(a)? });
        }
        ensure_eq!(attrs, self.attrs, "{}: attributes", f());
        ensure_eq!(v.num_attrs(), self.attrs.len(), "{}: num_attrs", f());
        let rec = self.dims.first().map_or(false, |d| d.unlim);
        ensure_eq!(v.is_record_var(), rec, "{}: is_record_var", f());
        let prod: u128 = self.dims.iter().fold(1u128, |p, d| p.saturating_mul(d.size as u128));
        if prod < 1 << 60 {
            ensure_eq!(v.len() as u128, prod, "{}: len", f());
        }
        Ok(())
    }
}

fn copies(names: &[String], ops: &[DOp], take: &[(u8, u8)], more: &[(u8, Vals)], cx: &mut Cx) -> Chk {
    let nm = Names(names.to_vec());
    let mut ds = DataSet::new();
    let mut m = MDs::default();
    let mut vars: Vec<KeptVar> = vec![];
    let mut attrs: Vec<(Attribute, MAttr, String)> = vec![];
    let mut dims: Vec<(Rc<Dimension>, MDim, bool)> = vec![];
    for (k, op) in ops.iter().enumerate() {
        for (at, i) in take {
            if *at as usize % ops.len() != k {
                continue;
            }
            if !m.vars.is_empty() {
                let i = *i as usize % m.vars.len();
                let v = ds.get_var(&m.vars[i].name).ok_or("get_var lost a variable")?.clone();
                vars.push(KeptVar::new(v, &m, i, format!("cloned before step {}", k)));
                if let Some(a) = m.vars[i].attrs.last() {
                    let x = ds.get_var_attr(&m.vars[i].name, &a.name).ok_or("get_var_attr lost an attribute")?.clone();
                    attrs.push((x, a.clone(), format!("cloned before step {}", k)));
                }
            }
            if !m.gattrs.is_empty() {
                let a = &m.gattrs[*i as usize % m.gattrs.len()];
                let x = ds.get_global_attr(&a.name).ok_or("get_global_attr lost an attribute")?.clone();
                attrs.push((x, a.clone(), format!("cloned before step {}", k)));
            }
            if !m.dims.is_empty() {
                let d = &m.dims[*i as usize % m.dims.len()];
                dims.push((ds.get_dim(&d.name).ok_or("get_dim lost a dimension")?, d.clone(), false));
                let own: Dimension = (*ds.get_dim(&d.name).ok_or("get_dim lost a dimension")?).clone();
                dims.push((Rc::new(own), d.clone(), true));
            }
        }
        // removals: keep what comes back
        let ok = conditions(&m, op, &nm).is_empty();
        match op {
            DOp::RmVar(n) if ok => {
                let i = m.vars.iter().position(|v| v.name == nm.get(*n)).ok_or("model")?;
                let v = ds.remove_var(nm.get(*n)).map_err(|e| format!("remove_var: {:?}", e))?;
                vars.push(KeptVar::new(v, &m, i, format!("removed in step {}", k)));
                model_apply(&mut m, op, &nm);
                cx.label("removed variable kept");
            }
            DOp::RmG(n) if ok => {
                let a = m.gattrs.iter().find(|a| a.name == nm.get(*n)).ok_or("model")?.clone();
                let x = ds.remove_global_attr(nm.get(*n)).map_err(|e| format!("remove_global_attr: {:?}", e))?;
                attrs.push((x, a, format!("removed in step {}", k)));
                model_apply(&mut m, op, &nm);
            }
            DOp::RmDim(n) if ok => {
                let a = m.dims.iter().find(|a| a.name == nm.get(*n)).ok_or("model")?.clone();
                let x = ds.remove_dim(nm.get(*n)).map_err(|e| format!("remove_dim: {:?}", e))?;
                dims.push((x, a, true));
                model_apply(&mut m, op, &nm);
            }
            _ => {
                if real_apply(&mut ds, op, &nm)?.is_ok() {
                    model_apply(&mut m, op, &nm);
                }
            }
        }
    }
    check_getters(&ds, &m, names)?;
    let checks = |vars: &[KeptVar], attrs: &[(Attribute, MAttr, String)]| -> Chk {
        for v in vars {
            v.check()?;
        }
        for (x, a, w) in attrs {
            ensure_eq!(x.name(), &a.name[..], "{}: kept attribute", w);
            ensure_eq!(attr_vals(x)?, a.vals, "{}: kept attribute {:?}", w, a.name);
        }
        Ok(())
    };
    checks(&vars, &attrs)?;
    for (x, d, own) in &dims {
        let g = dim_m(x)?;
        ensure_eq!((g.size, g.unlim), (d.size, d.unlim), "kept dimension {:?}", d.name);
        if *own {
            ensure_eq!(g.name, d.name, "name of a copied or removed dimension");
        }
    }
    // now change the copies: the data set, and the other copies, keep their content
    let n = vars.len();
    let mut changed = 0;
    for (k, (i, vals)) in more.iter().enumerate() {
        if n == 0 {
            break;
        }
        let i = *i as usize % n;
        let c = vars[i].v.clone();
        if k % 3 == 2 && !vars[i].attrs.is_empty() {
            let a = vars[i].attrs.remove(0);
            let x = vars[i].v.remove_attr(&a.name).map_err(|e| format!("remove_attr on a copy: {:?}", e))?;
            ensure_eq!(attr_vals(&x)?, a.vals, "attribute removed from a copy");
        } else {
            let mut name = format!("n{}", k);
            while vars[i].attrs.iter().any(|a| a.name == name) {
                name.push('_');
            }
            add_vattr_var(&mut vars[i].v, &name, vals).map_err(|e| format!("add_attr on a copy: {:?}", e))?;
            vars[i].attrs.push(MAttr { name, vals: vals.clone() });
        }
        changed += 1;
        checks(&vars, &attrs)?;
        ensure!(c != vars[i].v, "a changed copy equals the original");
        check_getters(&ds, &m, names).map_err(|e| format!("changing a copy changed the data set: {}", e))?;
    }
    cx.label_if(changed > 0, "copies changed");
    cx.label_if(!attrs.is_empty(), "attributes kept");
    cx.label_if(!dims.is_empty(), "dimensions kept");
    cx.nontrivial(n > 0);
    // copies outlive the data set
    drop(ds);
    checks(&vars, &attrs)?;
    for (x, v) in vars.iter().zip(vars.iter().map(|k| k.v.clone()).collect::<Vec<_>>()) {
        let nan = x.attrs.iter().any(|a| vals_eq(&a.vals, &a.vals) != Some(true));
        if !nan {
            ensure!(x.v == v, "a copy differs from its original: {:?}", x.name);
        }
    }
    for (_, vals) in more {
        let a: DataVector = to_dv(vals);
        let b = a.clone();
        ensure_eq!(from_dv(&b), *vals, "cloned data vector");
        drop(a);
        ensure_eq!(from_dv(&b), *vals, "cloned data vector");
    }
    Ok(())
}

fn check(c: &C25, cx: &mut Cx) -> Chk {
    match c {
        C25::Pair { m, edit, at, by, way, seed } => pair(m, *edit, *at, *by, *way, *seed, cx),
        C25::Copies { names, ops, take, more } => copies(names, ops, take, more, cx),
    }
}

fn strategy(_: bool) -> BoxedStrategy<C25> {
    let o = DsOpts { max_dims: 4, max_vars: 4, max_rec: 3, max_chunk: 60, min_vars: 0, rich: true, unlim_w: 7, special: 0 };
    let pair = (mds(o), any::<u8>(), any::<u16>(), any::<u16>(), any::<u8>(), any::<u64>())
        .prop_map(|(m, edit, at, by, way, seed)| C25::Pair { m, edit, at, by, way, seed });
    let more = vec((any::<u8>(), vals()), 0..5);
    let cp = (names(false), vec(any_dop(), 2..30), vec((any::<u8>(), any::<u8>()), 1..5), more)
        .prop_map(|(names, ops, take, more)| C25::Copies { names, ops, take, more });
    prop_oneof![1 => pair, 1 => cp].boxed()
}

pub fn c25() -> Prop<C25> {
    Prop {
        id: "C25",
        rule: "pairs of data sets with the same content or one small change, built directly, by detours, or read from files: == against equality of the models, also for all pairs of parts; and histories during which variables, attributes and dimensions are copied or removed and kept, checked after later operations and after changing the copies; non-trivial: at least three parts and a settled answer, or a kept variable",
        strategy,
        check,
        fixed: |_| vec![],
        quick: 160000,
        thorough: 2500000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}
