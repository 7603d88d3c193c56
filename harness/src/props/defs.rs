//! C06 dimensions and variables, C07 attributes, C22 rejected definition changes,
//! C08 names, C09 sizes, C17 typed access.
use crate::api::*;
use crate::enc;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use netcdf3::{DataSet, DataType, DataVector, Dimension, FileReader, InvalidDataSet, Version};

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

// The limits of the format (`NC_MAX_DIM_SIZE`, `NC_MAX_VAR_DIMS`), written down here.
const NC_MAX_DIM_SIZE: usize = 2147483644;
const NC_MAX_VAR_DIMS: usize = 1024;

/// One public operation on a data set. Names are indices into the name table of the case.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum DOp {
    AddFixed(u8, usize),
    SetUnlim(u8, usize),
    RenDim(u8, u8),
    RmDim(u8),
    AddVar(u8, Vec<u8>, Ty, bool),
    RenVar(u8, u8),
    RmVar(u8),
    AddG(u8, Vals, bool),
    RenG(u8, u8),
    RmG(u8),
    /// variable, attribute, values, entry point
    AddV(u8, u8, Vals, u8),
    RenV(u8, u8, u8),
    RmV(u8, u8, bool),
}

pub struct Names(pub Vec<String>);

impl Names {
    pub fn get(&self, i: u8) -> &str {
        &self.0[i as usize % self.0.len()]
    }
}

fn dim_ix(m: &MDs, n: &str) -> Option<usize> {
    m.dims.iter().position(|d| d.name == n)
}
fn var_ix(m: &MDs, n: &str) -> Option<usize> {
    m.vars.iter().position(|d| d.name == n)
}
fn g_ix(m: &MDs, n: &str) -> Option<usize> {
    m.gattrs.iter().position(|d| d.name == n)
}

/// Result of an operation: the error, if any, and what a removal returned.
#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    None,
    Dim(MDim),
    Var { name: String, ty: Ty, attrs: Vec<MAttr>, ndims: usize },
    Attr(MAttr),
}

/// The error conditions that hold for this operation on this model.
pub fn conditions(m: &MDs, op: &DOp, nm: &Names) -> Vec<InvalidDataSet> {
    use InvalidDataSet as E;
    let mut e = vec![];
    let s = |x: &str| x.to_string();
    match op {
        DOp::AddFixed(n, size) => {
            let n = nm.get(*n);
            if dim_ix(m, n).is_some() {
                e.push(E::DimensionAlreadyExists(s(n)));
            }
            if !name_ok(n) {
                e.push(E::DimensionNameNotValid(s(n)));
            }
            if *size == 0 {
                e.push(E::FixedDimensionWithZeroSize(s(n)));
            }
            if *size > NC_MAX_DIM_SIZE {
                e.push(E::MaximumFixedDimensionSizeExceeded { dim_name: s(n), get: *size });
            }
        }
        DOp::SetUnlim(n, _) => {
            let n = nm.get(*n);
            if let Some(u) = m.unlim() {
                e.push(E::UnlimitedDimensionAlreadyExists(m.dims[u].name.clone()));
            }
            if dim_ix(m, n).is_some() {
                e.push(E::DimensionAlreadyExists(s(n)));
            }
            if !name_ok(n) {
                e.push(E::DimensionNameNotValid(s(n)));
            }
        }
        DOp::RenDim(o, n) => {
            let (o, n) = (nm.get(*o), nm.get(*n));
            if dim_ix(m, o).is_none() {
                e.push(E::DimensionNotDefined(s(o)));
            }
            if o != n {
                if dim_ix(m, n).is_some() {
                    e.push(E::DimensionAlreadyExists(s(n)));
                }
                if !name_ok(n) {
                    e.push(E::DimensionNameNotValid(s(n)));
                }
            }
        }
        DOp::RmDim(n) => {
            let n = nm.get(*n);
            match dim_ix(m, n) {
                None => e.push(E::DimensionNotDefined(s(n))),
                Some(i) => {
                    let users: Vec<String> =
                        m.vars.iter().filter(|v| v.dims.contains(&i)).map(|v| v.name.clone()).collect();
                    if !users.is_empty() {
                        e.push(E::DimensionYetUsed { var_names: users, dim_name: s(n) });
                    }
                }
            }
        }
        DOp::AddVar(n, dims, _, _) => {
            let n = nm.get(*n);
            let names: Vec<String> = dims.iter().map(|d| s(nm.get(*d))).collect();
            let undef: Vec<String> = names.iter().filter(|d| dim_ix(m, d).is_none()).cloned().collect();
            if !undef.is_empty() {
                e.push(E::DimensionsNotDefined { var_name: s(n), undef_dim_names: undef });
            }
            if var_ix(m, n).is_some() {
                e.push(E::VariableAlreadyExists(s(n)));
            }
            if !name_ok(n) {
                e.push(E::VariableNameNotValid(s(n)));
            }
            if let Some(u) = m.unlim() {
                if names.iter().skip(1).any(|d| *d == m.dims[u].name) {
                    e.push(E::UnlimitedDimensionMustBeDefinedFirst {
                        var_name: s(n),
                        unlim_dim_name: m.dims[u].name.clone(),
                        get_dim_names: names.clone(),
                    });
                }
            }
            let mut t = names.clone();
            t.sort();
            t.dedup();
            if t.len() != names.len() {
                e.push(E::DimensionsUsedMultipleTimes { var_name: s(n), get_dim_names: names.clone() });
            }
            if names.len() > NC_MAX_VAR_DIMS {
                e.push(E::MaximumDimensionsPerVariableExceeded { var_name: s(n), num_dims: names.len() });
            }
        }
        DOp::RenVar(o, n) => {
            let (o, n) = (nm.get(*o), nm.get(*n));
            if var_ix(m, o).is_none() {
                e.push(E::VariableNotDefined(s(o)));
            }
            if o != n {
                if var_ix(m, n).is_some() {
                    e.push(E::VariableAlreadyExists(s(n)));
                }
                if !name_ok(n) {
                    e.push(E::VariableNameNotValid(s(n)));
                }
            }
        }
        DOp::RmVar(n) => {
            let n = nm.get(*n);
            if var_ix(m, n).is_none() {
                e.push(E::VariableNotDefined(s(n)));
            }
        }
        DOp::AddG(n, _, _) => {
            let n = nm.get(*n);
            if g_ix(m, n).is_some() {
                e.push(E::GlobalAttributeAlreadyExists(s(n)));
            }
            if !name_ok(n) {
                e.push(E::GlobalAttributeNameNotValid(s(n)));
            }
        }
        DOp::RenG(o, n) => {
            let (o, n) = (nm.get(*o), nm.get(*n));
            if g_ix(m, o).is_none() {
                e.push(E::GlobalAttributeNotDefined(s(o)));
            }
            if o != n {
                if g_ix(m, n).is_some() {
                    e.push(E::GlobalAttributeAlreadyExists(s(n)));
                }
                if !name_ok(n) {
                    e.push(E::GlobalAttributeNameNotValid(s(n)));
                }
            }
        }
        DOp::RmG(n) => {
            let n = nm.get(*n);
            if g_ix(m, n).is_none() {
                e.push(E::GlobalAttributeNotDefined(s(n)));
            }
        }
        DOp::AddV(v, n, _, _) => {
            let (v, n) = (nm.get(*v), nm.get(*n));
            match var_ix(m, v) {
                None => e.push(E::VariableNotDefined(s(v))),
                Some(i) => {
                    if m.vars[i].attrs.iter().any(|a| a.name == n) {
                        e.push(E::VariableAttributeAlreadyExists { var_name: s(v), attr_name: s(n) });
                    }
                }
            }
            if !name_ok(n) {
                e.push(E::VariableAttributeNameNotValid { var_name: s(v), attr_name: s(n) });
            }
        }
        DOp::RenV(v, o, n) => {
            let (v, o, n) = (nm.get(*v), nm.get(*o), nm.get(*n));
            match var_ix(m, v) {
                None => e.push(E::VariableNotDefined(s(v))),
                Some(i) => {
                    if !m.vars[i].attrs.iter().any(|a| a.name == o) {
                        e.push(E::VariableAttributeNotDefined { var_name: s(v), attr_name: s(o) });
                    }
                    if o != n && m.vars[i].attrs.iter().any(|a| a.name == n) {
                        e.push(E::VariableAttributeAlreadyExists { var_name: s(v), attr_name: s(n) });
                    }
                }
            }
            if o != n && !name_ok(n) {
                e.push(E::VariableAttributeNameNotValid { var_name: s(v), attr_name: s(n) });
            }
        }
        DOp::RmV(v, n, _) => {
            let (v, n) = (nm.get(*v), nm.get(*n));
            match var_ix(m, v) {
                None => e.push(E::VariableNotDefined(s(v))),
                Some(i) => {
                    if !m.vars[i].attrs.iter().any(|a| a.name == n) {
                        e.push(E::VariableAttributeNotDefined { var_name: s(v), attr_name: s(n) });
                    }
                }
            }
        }
    }
    e
}

/// Renaming something undefined to its own name: success and an error are both right.
pub fn rename_to_itself(op: &DOp, nm: &Names) -> bool {
    match op {
        DOp::RenDim(o, n) | DOp::RenVar(o, n) | DOp::RenG(o, n) | DOp::RenV(_, o, n) => nm.get(*o) == nm.get(*n),
        _ => false,
    }
}

/// Lists of names in errors are compared as sets.
fn norm(e: &InvalidDataSet) -> InvalidDataSet {
    let mut e = e.clone();
    match &mut e {
        InvalidDataSet::DimensionsNotDefined { undef_dim_names, .. } => {
            undef_dim_names.sort();
            undef_dim_names.dedup();
        }
        InvalidDataSet::DimensionYetUsed { var_names, .. } => var_names.sort(),
        _ => {}
    }
    e
}

pub fn admissible(adm: &[InvalidDataSet], e: &InvalidDataSet) -> bool {
    let e = norm(e);
    adm.iter().any(|a| norm(a) == e)
}

/// The effect of a successful operation.
pub fn model_apply(m: &mut MDs, op: &DOp, nm: &Names) -> Out {
    let s = |i: &u8| nm.get(*i).to_string();
    match op {
        DOp::AddFixed(n, size) => m.dims.push(MDim { name: s(n), size: *size, unlim: false }),
        DOp::SetUnlim(n, size) => m.dims.push(MDim { name: s(n), size: *size, unlim: true }),
        DOp::RenDim(o, n) => {
            if let Some(i) = dim_ix(m, &s(o)) {
                m.dims[i].name = s(n);
            }
        }
        DOp::RmDim(n) => {
            let i = dim_ix(m, &s(n)).unwrap();
            for v in m.vars.iter_mut() {
                for d in v.dims.iter_mut() {
                    if *d > i {
                        *d -= 1;
                    }
                }
            }
            return Out::Dim(m.dims.remove(i));
        }
        DOp::AddVar(n, dims, t, _) => {
            let d = dims.iter().map(|d| dim_ix(m, &s(d)).unwrap()).collect();
            m.vars.push(MVar { name: s(n), ty: *t, dims: d, attrs: vec![] });
        }
        DOp::RenVar(o, n) => {
            if let Some(i) = var_ix(m, &s(o)) {
                m.vars[i].name = s(n);
            }
        }
        DOp::RmVar(n) => {
            let i = var_ix(m, &s(n)).unwrap();
            let v = m.vars.remove(i);
            return Out::Var { name: v.name, ty: v.ty, attrs: v.attrs, ndims: v.dims.len() };
        }
        DOp::AddG(n, v, _) => m.gattrs.push(MAttr { name: s(n), vals: v.clone() }),
        DOp::RenG(o, n) => {
            if let Some(i) = g_ix(m, &s(o)) {
                m.gattrs[i].name = s(n);
            }
        }
        DOp::RmG(n) => {
            let i = g_ix(m, &s(n)).unwrap();
            return Out::Attr(m.gattrs.remove(i));
        }
        DOp::AddV(v, n, x, _) => {
            let i = var_ix(m, &s(v)).unwrap();
            m.vars[i].attrs.push(MAttr { name: s(n), vals: x.clone() });
        }
        DOp::RenV(v, o, n) => {
            if let Some(i) = var_ix(m, &s(v)) {
                if let Some(a) = m.vars[i].attrs.iter_mut().find(|a| a.name == s(o)) {
                    a.name = s(n);
                }
            }
        }
        DOp::RmV(v, n, _) => {
            let i = var_ix(m, &s(v)).unwrap();
            let k = m.vars[i].attrs.iter().position(|a| a.name == s(n)).unwrap();
            return Out::Attr(m.vars[i].attrs.remove(k));
        }
    }
    Out::None
}

/// Runs the operation on the real data set.
pub fn real_apply(ds: &mut DataSet, op: &DOp, nm: &Names) -> Result<Result<Out, InvalidDataSet>, String> {
    let r: Result<Out, InvalidDataSet> = match op {
        DOp::AddFixed(n, size) => ds.add_fixed_dim(nm.get(*n), *size).map(|_| Out::None),
        DOp::SetUnlim(n, size) => ds.set_unlimited_dim(nm.get(*n), *size).map(|_| Out::None),
        DOp::RenDim(o, n) => ds.rename_dim(nm.get(*o), nm.get(*n)).map(|_| Out::None),
        DOp::RmDim(n) => match ds.remove_dim(nm.get(*n)) {
            Ok(d) => Ok(Out::Dim(dim_m(&d)?)),
            Err(e) => Err(e),
        },
        DOp::AddVar(n, dims, t, typed) => {
            let names: Vec<String> = dims.iter().map(|d| nm.get(*d).to_string()).collect();
            add_var_typed(ds, nm.get(*n), &names, *t, *typed).map(|_| Out::None)
        }
        DOp::RenVar(o, n) => ds.rename_var(nm.get(*o), nm.get(*n)).map(|_| Out::None),
        DOp::RmVar(n) => match ds.remove_var(nm.get(*n)) {
            Ok(v) => {
                let mut attrs = vec![];
                for a in v.get_attrs() {
                    attrs.push(MAttr { name: a.name().to_string(), vals: attr_vals(a)? });
                }
                Ok(Out::Var { name: v.name().to_string(), ty: ty_of(&v.data_type()), attrs, ndims: v.num_dims() })
            }
            Err(e) => Err(e),
        },
        DOp::AddG(n, v, st) => {
            (if *st { add_gattr_str(ds, nm.get(*n), v) } else { add_gattr(ds, nm.get(*n), v) }).map(|_| Out::None)
        }
        DOp::RenG(o, n) => ds.rename_global_attr(nm.get(*o), nm.get(*n)).map(|_| Out::None),
        DOp::RmG(n) => match ds.remove_global_attr(nm.get(*n)) {
            Ok(a) => Ok(Out::Attr(MAttr { name: a.name().to_string(), vals: attr_vals(&a)? })),
            Err(e) => Err(e),
        },
        DOp::AddV(v, n, x, via) => {
            let (v, n) = (nm.get(*v), nm.get(*n));
            match via % 4 {
                0 => add_vattr_ds(ds, v, n, x),
                1 => match ds.get_var_mut(v) {
                    Some(var) => add_vattr_var(var, n, x),
                    None => Err(InvalidDataSet::VariableNotDefined(v.to_string())),
                },
                k => add_vattr_str(ds, v, n, x, k == 3),
            }
            .map(|_| Out::None)
        }
        DOp::RenV(v, o, n) => ds.rename_var_attr(nm.get(*v), nm.get(*o), nm.get(*n)).map(|_| Out::None),
        DOp::RmV(v, n, via) => {
            let (v, n) = (nm.get(*v), nm.get(*n));
            let r = if *via {
                match ds.get_var_mut(v) {
                    Some(var) => var.remove_attr(n),
                    None => Err(InvalidDataSet::VariableNotDefined(v.to_string())),
                }
            } else {
                ds.remove_var_attr(v, n)
            };
            match r {
                Ok(a) => Ok(Out::Attr(MAttr { name: a.name().to_string(), vals: attr_vals(&a)? })),
                Err(e) => Err(e),
            }
        }
    };
    Ok(r)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hist {
    pub names: Vec<String>,
    pub ops: Vec<DOp>,
    /// check every query after every step (or only at the end)
    pub every: bool,
    /// first defines so many dimensions (and maybe the unlimited one) and a variable with all of them
    #[serde(default)]
    pub wide: Option<(u16, bool)>,
    /// starts with very many dimensions, variables or attributes
    #[serde(default)]
    pub bulk: Option<Crowd>,
    /// steps before which the data set is written to a file and taken back from a reader
    #[serde(default)]
    pub reload: Vec<u8>,
}

/// Replaces the data set by one that was read from a file, if its data are small.
fn reload(h: &Hist, k: usize, ds: &mut DataSet, m: &MDs, cx: &mut Cx) -> Chk {
    if !h.reload.iter().any(|r| *r as usize % h.ops.len() == k) {
        return Ok(());
    }
    let bytes = m
        .vars
        .iter()
        .fold(0u128, |s, v| s.saturating_add(m.vsize_big(v).saturating_mul(m.num_records().unwrap_or(1).max(1) as u128)));
    if bytes > 1 << 16 || m.num_records().unwrap_or(0) > i32::MAX as usize {
        return Ok(());
    }
    *ds = crate::props::equal::through_file(ds, m, 1 + h.reload[0] % 2, cx).map_err(|e| format!("reload before step {}: {}", k, e))?;
    cx.label("reloaded from a file");
    check_getters(ds, m, &h.names).map_err(|e| format!("reload before step {}: {}", k, e))
}

/// The wide variable is accepted exactly up to NC_MAX_VAR_DIMS dimensions.
fn wide_prelude(h: &Hist, ds: &mut DataSet, m: &mut MDs) -> Chk {
    let (n, un) = match h.wide {
        None => return Ok(()),
        Some(x) => x,
    };
    let mut names: Vec<String> = vec![];
    if un {
        ds.set_unlimited_dim("wu", 2).map_err(|e| format!("set_unlimited_dim: {:?}", e))?;
        m.dims.push(MDim { name: "wu".into(), size: 2, unlim: true });
        names.push("wu".into());
    }
    for i in names.len()..n as usize {
        let d = format!("w{}", i);
        let size = if i == 9 { 5 } else { 1 };
        ds.add_fixed_dim(&d, size).map_err(|e| format!("add_fixed_dim({:?}): {:?}", d, e))?;
        m.dims.push(MDim { name: d.clone(), size, unlim: false });
        names.push(d);
    }
    let before = m.clone();
    let r = add_var_typed(ds, "wv", &names, Ty::I16, n % 2 == 0);
    if n as usize <= NC_MAX_VAR_DIMS {
        r.map_err(|e| format!("a variable with {} dimensions was refused: {:?}", n, e))?;
        m.vars.push(MVar { name: "wv".into(), ty: Ty::I16, dims: (0..n as usize).collect(), attrs: vec![] });
        same(ds, m)
    } else {
        match r {
            Err(InvalidDataSet::MaximumDimensionsPerVariableExceeded { var_name, num_dims }) => {
                ensure_eq!(var_name, "wv", "var_name");
                ensure_eq!(num_dims, n as usize, "num_dims");
            }
            r => return Err(format!("a variable with {} dimensions: {:?}", n, r)),
        }
        same(ds, &before)
    }
}

pub fn names(bad: bool) -> BoxedStrategy<Vec<String>> {
    let good = vec(name(), 3..7).prop_map(|mut v| {
        uniq(&mut v);
        v
    });
    let invalid = select(vec![
        "".to_string(),
        "a/b".into(),
        " lead".into(),
        "x\u{7f}".into(),
        "n\n".into(),
        "-m".into(),
        "z".repeat(257),
        "é".repeat(129),
        "/".into(),
    ]);
    let pairs = select(vec![
        vec!["a".to_string(), "A".into(), "ab".into(), "abc".into(), "b".into()],
        vec!["x".to_string(), "x ".into(), "x1".into(), "x_".into(), "xé".into()],
        vec!["é".to_string(), "e\u{301}".into(), "e".into(), "É".into()],
        vec!["time".to_string(), "lat".into(), "lon".into(), "temp".into(), "units".into(), "times".into()],
    ]);
    let base = prop_oneof![2 => good, 3 => pairs];
    if bad {
        (base, vec(invalid, 0..3))
            .prop_map(|(mut v, w)| {
                v.extend(w);
                v
            })
            .boxed()
    } else {
        base.boxed()
    }
}

fn small_vals() -> BoxedStrategy<Vals> {
    prop_oneof![
        3 => (ty(), 0usize..4, dspec()).prop_map(|(t, n, d)| d.expand(t, n)),
        2 => "[a-zé]{0,4}".prop_map(|s| Vals::U8(s.into_bytes())),
    ]
    .boxed()
}

fn fixed_size() -> BoxedStrategy<usize> {
    prop_oneof![
        6 => 1usize..20,
        1 => Just(0usize),
        1 => select(vec![NC_MAX_DIM_SIZE, NC_MAX_DIM_SIZE - 1, NC_MAX_DIM_SIZE + 1, i32::MAX as usize, u32::MAX as usize, usize::MAX]),
    ]
    .boxed()
}

fn unlim_size() -> BoxedStrategy<usize> {
    prop_oneof![6 => 0usize..20, 1 => select(vec![i32::MAX as usize, i32::MAX as usize + 1, u32::MAX as usize, usize::MAX])].boxed()
}

fn dimvar_op() -> BoxedStrategy<DOp> {
    let n = || any::<u8>();
    let dl = prop_oneof![8 => vec(any::<u8>(), 0..4), 1 => vec(any::<u8>(), 4..8)];
    prop_oneof![
        5 => (n(), fixed_size()).prop_map(|(a, b)| DOp::AddFixed(a, b)),
        2 => (n(), unlim_size()).prop_map(|(a, b)| DOp::SetUnlim(a, b)),
        3 => (n(), n()).prop_map(|(a, b)| DOp::RenDim(a, b)),
        3 => n().prop_map(DOp::RmDim),
        6 => (n(), dl, ty(), any::<bool>()).prop_map(|(a, b, t, c)| DOp::AddVar(a, b, t, c)),
        3 => (n(), n()).prop_map(|(a, b)| DOp::RenVar(a, b)),
        2 => n().prop_map(DOp::RmVar),
    ]
    .boxed()
}

fn attr_op() -> BoxedStrategy<DOp> {
    let n = || any::<u8>();
    prop_oneof![
        4 => (n(), small_vals(), any::<bool>()).prop_map(|(a, v, s)| DOp::AddG(a, v, s)),
        3 => (n(), n()).prop_map(|(a, b)| DOp::RenG(a, b)),
        2 => n().prop_map(DOp::RmG),
        6 => (n(), n(), small_vals(), any::<u8>()).prop_map(|(a, b, v, s)| DOp::AddV(a, b, v, s)),
        4 => (n(), n(), n()).prop_map(|(a, b, c)| DOp::RenV(a, b, c)),
        3 => (n(), n(), any::<bool>()).prop_map(|(a, b, c)| DOp::RmV(a, b, c)),
        3 => (n(), ty(), any::<bool>()).prop_map(|(a, t, c)| DOp::AddVar(a, vec![], t, c)),
        1 => (n(), n()).prop_map(|(a, b)| DOp::RenVar(a, b)),
        1 => n().prop_map(DOp::RmVar),
    ]
    .boxed()
}

/// Operations that define several dimensions, variables and attributes, most of them successfully.
fn populated() -> BoxedStrategy<Vec<DOp>> {
    let at = |k: u8, un: u8| if k == un { None } else { Some(k) };
    (0u8..6, 1u8..5, vec((vec(0u8..5, 0..4), ty(), any::<bool>()), 0..4), vec((0u8..6, 0u8..5, small_vals(), any::<u8>()), 0..5))
        .prop_map(move |(un, nd, vars, attrs)| {
            let mut l = vec![];
            for k in 0..nd {
                l.push(match at(k, un) {
                    Some(_) => DOp::AddFixed(k, k as usize + 1),
                    None => DOp::SetUnlim(k, 2),
                });
            }
            for (i, (mut d, t, typed)) in vars.into_iter().enumerate() {
                for x in d.iter_mut() {
                    *x %= nd;
                }
                d.sort();
                d.dedup();
                let r = i % d.len().max(1);
                d.rotate_left(r);
                if let Some(p) = d.iter().position(|x| *x == un) {
                    d.swap(0, p);
                }
                l.push(DOp::AddVar(i as u8, d, t, typed));
            }
            for (o, n, v, via) in attrs {
                l.push(if o > 3 { DOp::AddG(n, v, via % 2 == 0) } else { DOp::AddV(o, n, v, via) });
            }
            l
        })
        .boxed()
}

/// Definitions with dozens of dimensions, variables and attributes, in a generated order.
fn crowd() -> BoxedStrategy<(Vec<String>, Vec<DOp>)> {
    (1u8..=80, 0u8..=120, 0u8..=120, any::<u64>())
        .prop_map(|(nd, nv, na, seed)| {
            let n = nd.max(nv).max(na.min(40)) as usize + 4;
            let names: Vec<String> = (0..n).map(|i| format!("w{}", i)).collect();
            let mut s = seed;
            let mut below = |m: usize| (splitmix(&mut s) % m.max(1) as u64) as usize;
            let mut l = vec![];
            let un = below(nd as usize + 1);
            for k in 0..nd {
                l.push(if k as usize == un { DOp::SetUnlim(k, 3) } else { DOp::AddFixed(k, below(5) + 1) });
            }
            for k in 0..nv {
                let mut d: Vec<u8> = vec![];
                for _ in 0..below(4) {
                    let x = below(nd as usize) as u8;
                    if x as usize == un {
                        if !d.contains(&x) {
                            d.insert(0, x);
                        }
                    } else {
                        d.push(x);
                    }
                }
                let t = ALL_TY[below(6)];
                l.push(DOp::AddVar(k, d, t, below(2) == 0));
            }
            // one owner gets most of them
            let fav = below(nv as usize + 1) as u8;
            for k in 0..na {
                let o = if below(3) > 0 { fav } else { below(nv as usize + 1) as u8 };
                let a = if below(3) > 0 { k % 40 } else { below(n) as u8 };
                let v = DataSpec { mode: 1, seed: below(1000) as u32 }.expand(ALL_TY[below(6)], below(4));
                l.push(if o >= nv { DOp::AddG(a, v, below(2) == 0) } else { DOp::AddV(o, a, v, below(256) as u8) });
            }
            (names, l)
        })
        .boxed()
}

pub fn any_dop() -> BoxedStrategy<DOp> {
    prop_oneof![1 => dimvar_op(), 1 => attr_op()].boxed()
}

pub fn hist(op: BoxedStrategy<DOp>, bad: bool) -> BoxedStrategy<Hist> {
    let rl = prop_oneof![7 => Just(vec![]), 1 => vec(any::<u8>(), 1..4)];
    let start = prop_oneof![2 => Just(vec![]), 3 => populated()];
    let few = (
        names(bad),
        start,
        prop_oneof![6 => vec(op.clone(), 1..25), 1 => vec(op.clone(), 1..60)],
        proptest::bool::weighted(0.8),
        rl.clone(),
    )
        .prop_map(|(names, mut start, ops, every, reload)| {
            start.extend(ops);
            Hist { names, ops: start, every, wide: None, bulk: None, reload }
        });
    let many = (crowd(), vec(op, 1..60), rl).prop_map(|((names, mut start), ops, reload)| {
        start.extend(ops);
        Hist { names, ops: start, every: false, wide: None, bulk: None, reload }
    });
    prop_oneof![120 => few, 1 => many].boxed()
}

/// As `hist`, now and then on top of a variable with about as many dimensions as are allowed.
fn hist_wide(op: fn() -> BoxedStrategy<DOp>) -> BoxedStrategy<Hist> {
    let n = prop_oneof![4 => select(vec![1022u16, 1023, 1024, 1025, 1026, 1030, 2048]), 1 => 2u16..1100];
    let wide = (hist(op(), true), n, any::<bool>()).prop_map(|(mut h, n, un)| {
        for x in ["wv", "wu", "w9", "w1021", "w1023"] {
            if !h.names.iter().any(|y| y == x) {
                h.names.push(x.to_string());
            }
        }
        h.every = false;
        h.wide = Some((n, un));
        h
    });
    prop_oneof![1500 => hist(op(), true), 1 => wide].boxed()
}

/// Histories on data sets with very many entries.
fn bulky(attrs: bool, n: usize) -> Vec<Hist> {
    let names = ["d0", "d8199", "v0", "v8199", "a0", "a8199", "v4000", "new"];
    let v = || Vals::I16(vec![1]);
    let ops = if attrs {
        vec![DOp::AddV(2, 7, v(), 0), DOp::RenG(4, 7), DOp::RenG(5, 4), DOp::RmG(7), DOp::AddG(7, v(), true), DOp::RmV(2, 4, true)]
    } else {
        vec![DOp::RenDim(1, 7), DOp::RmDim(7), DOp::AddFixed(7, 3), DOp::AddVar(7, vec![7, 0], Ty::F32, false), DOp::RmVar(3), DOp::RmVar(2), DOp::RenVar(7, 3)]
    };
    let l = if attrs { vec![Crowd::Gattrs(n), Crowd::Vattrs(n)] } else { vec![Crowd::Dims(n), Crowd::Vars(n)] };
    l.into_iter()
        .map(|c| Hist { names: names.iter().map(|s| s.to_string()).collect(), ops: ops.clone(), every: false, wide: None, bulk: Some(c), reload: vec![] })
        .collect()
}

/// Runs a history and compares everything with the model after each step.
fn run_hist(h: &Hist, cx: &mut Cx) -> Chk {
    let nm = Names(h.names.clone());
    let mut ds = DataSet::new();
    let mut m = MDs::default();
    let mut okc = 0;
    let mut kept: Vec<Rc<Dimension>> = vec![];
    if let Some(c) = h.bulk {
        m = crowded(c, Ty::I16);
        ds = build(&m)?;
        check_getters(&ds, &m, &h.names).map_err(|e| format!("{:?}: {}", c, e))?;
    }
    wide_prelude(h, &mut ds, &mut m)?;
    for (k, op) in h.ops.iter().enumerate() {
        reload(h, k, &mut ds, &m, cx)?;
        let adm = conditions(&m, op, &nm);
        let real = real_apply(&mut ds, op, &nm).map_err(|e| format!("step {}: {}", k, e))?;
        match real {
            Ok(out) => {
                if !adm.is_empty() && !rename_to_itself(op, &nm) {
                    return Err(format!("step {}: {:?} succeeded although {:?}", k, op, adm));
                }
                okc += 1;
                cx.label(match op {
                    DOp::AddFixed(..) => "ok: add_fixed_dim",
                    DOp::SetUnlim(..) => "ok: set_unlimited_dim",
                    DOp::RenDim(..) => "ok: rename_dim",
                    DOp::RmDim(..) => "ok: remove_dim",
                    DOp::AddVar(..) => "ok: add_var",
                    DOp::RenVar(..) => "ok: rename_var",
                    DOp::RmVar(..) => "ok: remove_var",
                    DOp::AddG(..) => "ok: add_global_attr",
                    DOp::RenG(..) => "ok: rename_global_attr",
                    DOp::RmG(..) => "ok: remove_global_attr",
                    DOp::AddV(..) => "ok: add_var_attr",
                    DOp::RenV(..) => "ok: rename_var_attr",
                    DOp::RmV(..) => "ok: remove_var_attr",
                });
                let e = model_apply(&mut m, op, &nm);
                ensure_eq!(out, e, "step {}: value returned by {:?}", k, op);
                if let DOp::AddFixed(n, _) | DOp::SetUnlim(n, _) = op {
                    kept.push(ds.get_dim(nm.get(*n)).ok_or("get_dim lost a dimension")?);
                }
            }
            Err(e) => {
                ensure!(!adm.is_empty(), "step {}: {:?} failed with {:?}", k, op, e);
                cx.label("rejected");
            }
        }
        if h.every || k + 1 == h.ops.len() {
            check_getters(&ds, &m, &h.names).map_err(|e| format!("after step {} ({:?}): {}", k, op, e))?;
        }
    }
    cx.nontrivial(okc >= 3);
    Ok(())
}

pub fn c06() -> Prop<Hist> {
    Prop {
        id: "C06",
        rule: "histories of dimension and variable operations over few names (collisions, prefixes, case, invalid names), every query compared with a model after each step; non-trivial: at least three successful operations",
        strategy: |_| hist_wide(dimvar_op),
        check: run_hist,
        fixed: |t| bulky(false, if t { 66000 } else { 8200 }),
        quick: 96000,
        thorough: 6000000,
        workers: 8,
        case_timeout: 300,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

pub fn c07() -> Prop<Hist> {
    Prop {
        id: "C07",
        rule: "histories of attribute operations on the data set and on several variables (plus adding, renaming and removing variables), every query compared with a model after each step; non-trivial: at least three successful operations",
        strategy: |_| hist(attr_op(), true),
        check: run_hist,
        fixed: |t| bulky(true, if t { 66000 } else { 8200 }),
        quick: 96000,
        thorough: 6000000,
        workers: 8,
        case_timeout: 300,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

fn c22_check(h: &Hist, cx: &mut Cx) -> Chk {
    let nm = Names(h.names.clone());
    let mut ds = DataSet::new();
    let mut rejected = 0;
    wide_prelude(h, &mut ds, &mut MDs::default())?;
    for (k, op) in h.ops.iter().enumerate() {
        let before = snapshot(&ds)?;
        reload(h, k, &mut ds, &before, cx)?;
        let dims = ds.get_dims();
        let adm = conditions(&before, op, &nm);
        let itself = rename_to_itself(op, &nm);
        match real_apply(&mut ds, op, &nm)? {
            Ok(_) => {
                if itself {
                    cx.label("renamed to itself");
                    check_getters(&ds, &before, &h.names)
                        .map_err(|e| format!("step {}: {:?} changed the data set: {}", k, op, e))?;
                }
            }
            Err(e) => {
                rejected += 1;
                ensure!(
                    admissible(&adm, &e),
                    "step {}: {:?} failed with {:?}, conditions that hold: {:?}",
                    k,
                    op,
                    e,
                    adm
                );
                cx.label(match e {
                    InvalidDataSet::DimensionAlreadyExists(_) => "DimensionAlreadyExists",
                    InvalidDataSet::DimensionNotDefined(_) => "DimensionNotDefined",
                    InvalidDataSet::DimensionsNotDefined { .. } => "DimensionsNotDefined",
                    InvalidDataSet::DimensionsUsedMultipleTimes { .. } => "DimensionsUsedMultipleTimes",
                    InvalidDataSet::UnlimitedDimensionAlreadyExists(_) => "UnlimitedDimensionAlreadyExists",
                    InvalidDataSet::DimensionYetUsed { .. } => "DimensionYetUsed",
                    InvalidDataSet::DimensionNameNotValid(_) => "DimensionNameNotValid",
                    InvalidDataSet::FixedDimensionWithZeroSize(_) => "FixedDimensionWithZeroSize",
                    InvalidDataSet::MaximumFixedDimensionSizeExceeded { .. } => "MaximumFixedDimensionSizeExceeded",
                    InvalidDataSet::VariableAttributeAlreadyExists { .. } => "VariableAttributeAlreadyExists",
                    InvalidDataSet::VariableAttributeNotDefined { .. } => "VariableAttributeNotDefined",
                    InvalidDataSet::VariableAttributeNameNotValid { .. } => "VariableAttributeNameNotValid",
                    InvalidDataSet::VariableNotDefined(_) => "VariableNotDefined",
                    InvalidDataSet::VariableNameNotValid(_) => "VariableNameNotValid",
                    InvalidDataSet::VariableAlreadyExists(_) => "VariableAlreadyExists",
                    InvalidDataSet::UnlimitedDimensionMustBeDefinedFirst { .. } => "UnlimitedDimensionMustBeDefinedFirst",
                    InvalidDataSet::MaximumDimensionsPerVariableExceeded { .. } => "MaximumDimensionsPerVariableExceeded",
                    InvalidDataSet::GlobalAttributeAlreadyExists(_) => "GlobalAttributeAlreadyExists",
                    InvalidDataSet::GlobalAttributeNotDefined(_) => "GlobalAttributeNotDefined",
                    InvalidDataSet::GlobalAttributeNameNotValid(_) => "GlobalAttributeNameNotValid",
                    _ => "other error",
                });
                check_getters(&ds, &before, &h.names)
                    .map_err(|e2| format!("step {}: {:?} failed with {:?} and changed the data set: {}", k, op, e, e2))?;
                let now = ds.get_dims();
                ensure!(
                    now.len() == dims.len() && now.iter().zip(&dims).all(|(a, b)| Rc::ptr_eq(a, b)),
                    "step {}: {:?} failed and replaced a dimension",
                    k,
                    op
                );
            }
        }
    }
    // more dimensions than a variable may have
    cx.nontrivial(rejected >= 2);
    Ok(())
}

/// A variable with n dimensions, then one operation on it.
fn many_dims(n: usize) -> Hist {
    let mut names: Vec<String> = (0..n).map(|i| format!("d{}", i)).collect();
    names.truncate(255);
    let ops: Vec<DOp> = (0..names.len()).map(|i| DOp::AddFixed(i as u8, 1)).collect();
    let mut ops = ops;
    // 255 distinct names only: repeat to exceed the limit
    let l: Vec<u8> = (0..n).map(|i| (i % 255) as u8).collect();
    ops.push(DOp::AddVar(0, l, Ty::I8, false));
    Hist { names, ops, every: false, wide: None, bulk: None, reload: vec![] }
}

pub fn c22() -> Prop<Hist> {
    Prop {
        id: "C22",
        rule: "histories of all definition operations biased to rejections; every rejected call must name a condition that holds (computed from the observed state) and leave all queries unchanged; non-trivial: at least two rejected calls",
        strategy: |_| hist_wide(any_dop),
        check: c22_check,
        fixed: |_| vec![many_dims(200), many_dims(1025), many_dims(1300)],
        quick: 96000,
        thorough: 6000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C08

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum C08 {
    One { names: Vec<String>, file: bool },
    /// all strings prefix + c for c in a code point range
    Range { prefix: String, from: u32, to: u32, suffix: String, file: bool },
}

fn accepts(r: Result<(), InvalidDataSet>, ok: bool, what: &str, n: &str, exp: InvalidDataSet) -> Chk {
    match r {
        Ok(()) => ensure!(ok, "{} accepted the invalid name {:?}", what, n),
        Err(e) => {
            ensure!(!ok, "{} refused the valid name {:?} with {:?}", what, n, e);
            ensure!(e == exp, "{} refused {:?} with {:?} instead of {:?}", what, n, e, exp);
        }
    }
    Ok(())
}

fn c08_name(n: &str, file: bool, cx: &mut Cx) -> Chk {
    use InvalidDataSet as E;
    let ok = name_ok(n);
    let s = || n.to_string();
    ensure_eq!(netcdf3::is_valid_name(n), ok, "is_valid_name({:?})", n);
    let base = || -> DataSet {
        let mut d = DataSet::new();
        d.add_fixed_dim("zz_dim", 2).unwrap();
        d.add_var_i8("zz_var", &["zz_dim"]).unwrap();
        d.add_global_attr_i8("zz_g", vec![1]).unwrap();
        d.add_var_attr_i8("zz_var", "zz_a", vec![1]).unwrap();
        d
    };
    let va = || E::VariableAttributeNameNotValid { var_name: "zz_var".into(), attr_name: s() };
    let mut d = base();
    accepts(d.rename_dim("zz_dim", n), ok, "rename_dim", n, E::DimensionNameNotValid(s()))?;
    accepts(d.rename_var_attr("zz_var", "zz_a", n), ok, "rename_var_attr", n, va())?;
    accepts(d.rename_var("zz_var", n), ok, "rename_var", n, E::VariableNameNotValid(s()))?;
    accepts(d.rename_global_attr("zz_g", n), ok, "rename_global_attr", n, E::GlobalAttributeNameNotValid(s()))?;
    let mut d = base();
    accepts(d.add_fixed_dim(n, 1), ok, "add_fixed_dim", n, E::DimensionNameNotValid(s()))?;
    let mut d = base();
    accepts(d.set_unlimited_dim(n, 1), ok, "set_unlimited_dim", n, E::DimensionNameNotValid(s()))?;
    for (i, t) in ALL_TY.iter().enumerate() {
        let mut d = base();
        accepts(add_var_typed(&mut d, n, &["zz_dim".to_string()], *t, i % 2 == 0), ok, "add_var", n, E::VariableNameNotValid(s()))?;
        let v = Vals::fill(*t, 1);
        accepts(add_gattr(&mut d, n, &v), ok, "add_global_attr", n, E::GlobalAttributeNameNotValid(s()))?;
        accepts(add_vattr_ds(&mut d, "zz_var", n, &v), ok, "add_var_attr", n, va())?;
        let mut d = base();
        accepts(add_vattr_var(d.get_var_mut("zz_var").unwrap(), n, &v), ok, "Variable::add_attr", n, va())?;
    }
    let mut d = base();
    accepts(d.add_global_attr_string(n, "x"), ok, "add_global_attr_string", n, E::GlobalAttributeNameNotValid(s()))?;
    accepts(d.add_var_attr_string("zz_var", n, "x"), ok, "add_var_attr_string", n, va())?;
    cx.evals(25);
    if file {
        for k in 0..4 {
            let mut m = MDs {
                dims: vec![MDim { name: "zz_dim".into(), size: 2, unlim: false }],
                gattrs: vec![MAttr { name: "zz_g".into(), vals: Vals::I8(vec![1]) }],
                vars: vec![MVar {
                    name: "zz_var".into(),
                    ty: Ty::I8,
                    dims: vec![0],
                    attrs: vec![MAttr { name: "zz_a".into(), vals: Vals::I8(vec![1]) }],
                }],
            };
            let what = match k {
                0 => {
                    m.dims[0].name = s();
                    "reading a dimension name"
                }
                1 => {
                    m.gattrs[0].name = s();
                    "reading a global attribute name"
                }
                2 => {
                    m.vars[0].name = s();
                    "reading a variable name"
                }
                _ => {
                    m.vars[0].attrs[0].name = s();
                    "reading a variable attribute name"
                }
            };
            let b = enc::canonical_file(&m, 1 + (k as u8 % 2), 0, &[Vals::I8(vec![1, 2])]);
            let p = cx.path();
            std::fs::write(&p, &b).map_err(|e| e.to_string())?;
            match FileReader::open(&p) {
                Ok(r) => {
                    ensure!(ok, "{} accepted the invalid name {:?}", what, n);
                    same(r.data_set(), &m)?;
                }
                Err(e) => {
                    ensure!(!ok, "{} refused the valid name {:?}: {:?}", what, n, e);
                }
            }
            let _ = std::fs::remove_file(&p);
        }
        cx.evals(4);
    }
    Ok(())
}

fn c08_check(c: &C08, cx: &mut Cx) -> Chk {
    cx.nontrivial(true);
    match c {
        C08::One { names, file } => {
            for n in names {
                cx.label(if name_ok(n) { "valid" } else { "invalid" });
                c08_name(n, *file, cx)?;
            }
        }
        C08::Range { prefix, from, to, suffix, file } => {
            for u in *from..*to {
                if let Some(ch) = char::from_u32(u) {
                    c08_name(&format!("{}{}{}", prefix, ch, suffix), *file, cx)?;
                }
            }
        }
    }
    Ok(())
}

fn c08_fixed(thorough: bool) -> Vec<C08> {
    let mut v = vec![];
    // every code point below 0x500 as first, second and last character
    for k in 0..20u32 {
        for (p, s) in [("", ""), ("a", ""), ("", "b"), ("a", "b"), ("é", "")] {
            v.push(C08::Range { prefix: p.into(), from: k * 64, to: k * 64 + 64, suffix: s.into(), file: k < 4 });
        }
    }
    // all two character ASCII strings
    for a in 0..128u8 {
        v.push(C08::Range { prefix: (a as char).to_string(), from: 0, to: 128, suffix: "".into(), file: thorough });
    }
    // lengths around the limit with characters of every width
    for (c, w) in [("a", 1usize), ("é", 2), ("中", 3), ("😀", 4)] {
        let mut names = vec![];
        for n in 0..=(300 / w) {
            names.push(c.repeat(n));
            names.push(format!("a{}", c.repeat(n)));
            names.push(format!("ab{}", c.repeat(n)));
            names.push(format!("abc{}", c.repeat(n)));
        }
        for ch in names.chunks(80) {
            v.push(C08::One { names: ch.to_vec(), file: true });
        }
    }
    if thorough {
        for k in 0..(0x110000u32 / 0x400) {
            for (p, s) in [("", ""), ("a", "")] {
                v.push(C08::Range { prefix: p.into(), from: k * 0x400, to: (k + 1) * 0x400, suffix: s.into(), file: false });
            }
        }
        for a in 0..128u8 {
            for b in 0..128u8 {
                v.push(C08::Range {
                    prefix: format!("{}{}", a as char, b as char),
                    from: 0,
                    to: 128,
                    suffix: "".into(),
                    file: false,
                });
            }
        }
    } else {
        // characters that Unicode classifies in unusual ways
        for from in [0x2000u32, 0x2028, 0xD7F0, 0xE000, 0xFDD0, 0xFEFF, 0xFFF0, 0x1F600, 0x10FFF0] {
            for (p, s) in [("", ""), ("a", "")] {
                v.push(C08::Range { prefix: p.into(), from, to: from + 16, suffix: s.into(), file: true });
            }
        }
    }
    v
}

pub fn c08() -> Prop<C08> {
    Prop {
        id: "C08",
        rule: "names at 25 definition entry points and 4 places of a file, compared with an independent rule; inner executions = entry point calls",
        strategy: |_| {
            (vec(any_name(), 1..6), proptest::bool::weighted(0.5)).prop_map(|(names, file)| C08::One { names, file }).boxed()
        },
        check: c08_check,
        fixed: c08_fixed,
        quick: 60000,
        thorough: 4000000,
        workers: 8,
        case_timeout: 120,
        level: "exploration",
        raw: None,
        exhaustive_note: "all 1 and 2 character ASCII strings, all code points below 0x500 in five positions, all lengths up to 300 bytes for characters of 1..4 bytes (thorough: all code points, all 3 character ASCII strings)",
    }
}

// ------------------------------------------------------------------ C09

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum SOp {
    Dim(usize),
    /// many small dimensions: how many, seed of the sizes
    Dims(u8, u16),
    Var(Vec<u8>, bool, Ty),
    RmVar(u8),
    RmDim(u8),
    Ren(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C09 {
    unlim: Option<usize>,
    ops: Vec<SOp>,
}

fn fits(x: u128) -> Option<usize> {
    if x <= usize::MAX as u128 {
        Some(x as usize)
    } else {
        None
    }
}

/// `got` must equal the exact value whenever that value is representable.
fn exact(got: usize, exp: u128, what: &str) -> Chk {
    match fits(exp) {
        Some(e) => ensure!(got == e, "{}: got {}, expected {}", what, got, e),
        None => {}
    }
    Ok(())
}

fn c09_sizes(ds: &DataSet, m: &MDs, cx: &mut Cx) -> Chk {
    ensure_eq!(ds.num_records(), m.num_records(), "num_records");
    for v in &m.vars {
        let g = ds.get_var(&v.name).ok_or("get_var lost a variable")?;
        let cl = m.chunk_len_big(v);
        let n = if m.is_rec(v) { m.num_records().unwrap() as u128 } else { 1 };
        ensure_eq!(g.num_chunks() as u128, n, "num_chunks of {:?}", v.name);
        exact(g.chunk_len(), cl, "chunk_len")?;
        let (len, size) = (cl.saturating_mul(n), m.vsize_big(v));
        exact(g.len(), len, "len")?;
        exact(ds.var_len(&v.name).ok_or("var_len")?, len, "var_len")?;
        exact(g.chunk_size(), size, "chunk_size")?;
        cx.label_if(fits(cl).is_none(), "chunk length beyond usize");
        cx.label_if(fits(len).is_none(), "length beyond usize");
        cx.label_if(fits(size).is_none(), "chunk size beyond usize");
        cx.label_if(size > u32::MAX as u128 && fits(size).is_some(), "chunk size beyond 2^32");
        cx.label_if(v.dims.len() > 20, "many dimensions");
    }
    match (ds.record_size(), m.unlim()) {
        (None, None) => {}
        (Some(g), Some(_)) => exact(g, m.record_size_sum_big(), "record_size")?,
        (g, u) => return Err(format!("record_size: got {:?}, unlimited dimension {:?}", g, u)),
    }
    Ok(())
}

fn c09_check(c: &C09, cx: &mut Cx) -> Chk {
    let mut ds = DataSet::new();
    let mut m = MDs::default();
    if let Some(n) = c.unlim {
        ds.set_unlimited_dim("u", n).map_err(|e| format!("{:?}", e))?;
        m.dims.push(MDim { name: "u".into(), size: n, unlim: true });
    }
    c09_sizes(&ds, &m, cx)?;
    let mut k = 0;
    for op in &c.ops {
        k += 1;
        match op {
            SOp::Dim(s) => {
                let s = (*s).clamp(1, NC_MAX_DIM_SIZE);
                let name = format!("d{}", k);
                ds.add_fixed_dim(&name, s).map_err(|e| format!("{:?}", e))?;
                m.dims.push(MDim { name, size: s, unlim: false });
            }
            SOp::Dims(n, seed) => {
                // many dimensions, most of size 1, sizes up to 4
                let mut st = *seed as u64;
                for i in 0..*n {
                    let s = [1, 1, 1, 2, 3, 4][(splitmix(&mut st) % 6) as usize];
                    let name = format!("d{}_{}", k, i);
                    ds.add_fixed_dim(&name, s).map_err(|e| format!("{:?}", e))?;
                    m.dims.push(MDim { name, size: s, unlim: false });
                }
            }
            SOp::Var(l, rec, t) => {
                let un = m.unlim();
                let fixed: Vec<usize> = (0..m.dims.len()).filter(|i| Some(*i) != un).collect();
                let mut d = vec![];
                if *rec {
                    d.extend(un);
                }
                for x in l {
                    if !fixed.is_empty() {
                        let i = fixed[*x as usize % fixed.len()];
                        if !d.contains(&i) {
                            d.push(i);
                        }
                    }
                }
                let names: Vec<String> = d.iter().map(|i| m.dims[*i].name.clone()).collect();
                let name = format!("v{}", k);
                add_var_typed(&mut ds, &name, &names, *t, true).map_err(|e| format!("{:?}", e))?;
                m.vars.push(MVar { name, ty: *t, dims: d, attrs: vec![] });
            }
            SOp::RmVar(i) => {
                if !m.vars.is_empty() {
                    let v = m.vars.remove(*i as usize % m.vars.len());
                    ds.remove_var(&v.name).map_err(|e| format!("{:?}", e))?;
                }
            }
            SOp::RmDim(i) => {
                if !m.dims.is_empty() {
                    let i = *i as usize % m.dims.len();
                    if !m.vars.iter().any(|v| v.dims.contains(&i)) {
                        let name = m.dims[i].name.clone();
                        ds.remove_dim(&name).map_err(|e| format!("{:?}", e))?;
                        m.dims.remove(i);
                        for v in m.vars.iter_mut() {
                            for d in v.dims.iter_mut() {
                                if *d > i {
                                    *d -= 1;
                                }
                            }
                        }
                    }
                }
            }
            SOp::Ren(i) => {
                if !m.dims.is_empty() {
                    let i = *i as usize % m.dims.len();
                    let n = format!("r{}", k);
                    ds.rename_dim(&m.dims[i].name, &n).map_err(|e| format!("{:?}", e))?;
                    m.dims[i].name = n;
                }
            }
        }
        c09_sizes(&ds, &m, cx)?;
    }
    cx.nontrivial(m.vars.iter().any(|v| v.dims.len() > 1));
    Ok(())
}

pub fn c09() -> Prop<C09> {
    Prop {
        id: "C09",
        rule: "definition histories with dimension sizes from 1 to the maximum; all reported sizes compared with 128-bit arithmetic whenever the exact value fits in usize; non-trivial: a variable with two or more dimensions",
        strategy: |_| {
            let size = || prop_oneof![
                4 => 1usize..9,
                2 => 9usize..3000,
                2 => select(vec![NC_MAX_DIM_SIZE, NC_MAX_DIM_SIZE - 1, 1 << 16, 1 << 20, 1 << 30, 46341, 65537, (1 << 31) - 5]),
            ];
            let un = prop_oneof![3 => Just(None), 5 => (0usize..20).prop_map(Some), 2 => select(vec![i32::MAX as usize, u32::MAX as usize, 1 << 33, 1 << 40, usize::MAX / 2, usize::MAX]).prop_map(Some)];
            let op = prop_oneof![
                5 => size().prop_map(SOp::Dim),
                5 => (vec(any::<u8>(), 0..5), any::<bool>(), ty()).prop_map(|(a, b, t)| SOp::Var(a, b, t)),
                1 => (vec(any::<u8>(), 5..60), any::<bool>(), ty()).prop_map(|(a, b, t)| SOp::Var(a, b, t)),
                1 => (4u8..70, any::<u16>()).prop_map(|(n, s)| SOp::Dims(n, s)),
                1 => any::<u8>().prop_map(SOp::RmVar),
                1 => any::<u8>().prop_map(SOp::RmDim),
                1 => any::<u8>().prop_map(SOp::Ren),
            ];
            (un, vec(op, 1..30)).prop_map(|(unlim, ops)| C09 { unlim, ops }).boxed()
        },
        check: c09_check,
        fixed: no_fixed,
        quick: 360000,
        thorough: 30000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "",
    }
}

// ------------------------------------------------------------------ C17

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct C17 {
    vals: Vals,
    name: String,
    /// make the value come from a file read
    file: bool,
    /// texts with each of these code points (from, to)
    #[serde(default)]
    sweep: Option<(u32, u32)>,
}

/// Every character of a range, alone, first, last and inside, is in the string form of a
/// global attribute and of a variable's; every pair of bytes is one exactly if it is UTF-8.
fn c17_sweep(from: u32, to: u32, cx: &mut Cx) -> Chk {
    let mut d = DataSet::new();
    d.add_var_i8::<&str>("v", &[]).map_err(|e| format!("{:?}", e))?;
    let mut n = 0;
    let mut one = |b: &[u8]| -> Chk {
        n += 1;
        let s = std::str::from_utf8(b).ok();
        let e = |e: InvalidDataSet| format!("{:?}", e);
        match s {
            Some(s) if n % 2 == 0 => {
                d.add_global_attr_string("a", s).map_err(e)?;
                d.add_var_attr_string("v", "a", s).map_err(e)?;
            }
            _ => {
                d.add_global_attr_u8("a", b.to_vec()).map_err(e)?;
                d.add_var_attr_u8("v", "a", b.to_vec()).map_err(e)?;
            }
        }
        ensure_eq!(d.get_global_attr_u8("a"), Some(b), "bytes of the global attribute");
        ensure_eq!(d.get_var_attr_u8("v", "a"), Some(b), "bytes of the attribute of a variable");
        ensure_eq!(d.get_global_attr_as_string("a"), s.map(String::from), "string form of the bytes {:02x?} in a global attribute", b);
        ensure_eq!(d.get_var_attr_as_string("v", "a"), s.map(String::from), "string form of the bytes {:02x?} in an attribute of a variable", b);
        let x = d.remove_global_attr("a").map_err(e)?;
        ensure_eq!(x.get_as_string(), s.map(String::from), "string form of the bytes {:02x?} of an attribute", b);
        d.remove_var_attr("v", "a").map_err(e)?;
        Ok(())
    };
    for c in from..to {
        if let Some(c) = char::from_u32(c) {
            for s in [format!("{}", c), format!("{}x", c), format!("x{}", c), format!("x{}y", c)] {
                one(s.as_bytes())?;
            }
        }
        if c < 0x10000 {
            one(&[(c >> 8) as u8, c as u8])?;
            one(&[(c >> 8) as u8, 0x80 | (c >> 4) as u8 & 0xf, 0x80 | (c & 0xf) as u8])?;
        }
    }
    cx.evals(n);
    cx.label("every code point");
    cx.nontrivial(true);
    Ok(())
}

fn c17_dv(d: &DataVector, v: &Vals) -> Chk {
    ensure_eq!(d.data_type(), dt(v.ty()), "DataVector::data_type");
    ensure_eq!(d.len(), v.len(), "DataVector::len");
    ensure_eq!(d.data_type().size_of(), v.ty().size(), "size_of");
    let t = Typed {
        i8: d.get_i8().map(|x| x.to_vec()),
        u8: d.get_u8().map(|x| x.to_vec()),
        i16: d.get_i16().map(|x| x.to_vec()),
        i32: d.get_i32().map(|x| x.to_vec()),
        f32: d.get_f32().map(b32),
        f64: d.get_f64().map(b64),
        st: None,
    };
    let mut e = Typed::of(Some(v));
    e.st = None;
    ensure_eq!(t, e, "typed accessors of a data vector");
    macro_rules! into {
        ($f:ident, $var:ident, $conv:expr) => {
            match (d.clone().$f(), v) {
                (Ok(x), Vals::$var(e)) => ensure_eq!(&$conv(x), e, concat!(stringify!($f))),
                (Err(back), w) => {
                    ensure!(w.ty() != Ty::$var, concat!(stringify!($f), " refused its own type"));
                    ensure_eq!(&from_dv(&back), w, concat!(stringify!($f), " gave back another vector"));
                }
                (Ok(_), w) => return Err(format!(concat!(stringify!($f), " converted {:?}"), w.ty())),
            }
        };
    }
    into!(get_i8_into, I8, |x| x);
    into!(get_u8_into, U8, |x| x);
    into!(get_i16_into, I16, |x| x);
    into!(get_i32_into, I32, |x| x);
    into!(get_f32_into, F32, |x: Vec<f32>| b32(&x));
    into!(get_f64_into, F64, |x: Vec<f64>| b64(&x));
    Ok(())
}

/// The codes of types and versions are those of the format, all others are refused.
fn codes(seed: u64) -> Chk {
    let mut s = seed;
    for k in 0..24u32 {
        let x = splitmix(&mut s);
        let n = if k < 8 { k } else { (x >> 32) as u32 >> (x % 32) };
        let want = Ty::from_code(n).map(dt);
        ensure_eq!(DataType::try_from(n).ok(), want, "type code {}", n);
        if let Some(t) = want {
            ensure_eq!(t.clone() as u32, n, "code of a type");
            let names = ["NC_BYTE", "NC_CHAR", "NC_SHORT", "NC_INT", "NC_FLOAT", "NC_DOUBLE"];
            ensure_eq!(t.c_api_name(), names[n as usize - 1], "c_api_name");
        }
        let m = (n & 0xff) as u8;
        let want = if m == 1 || m == 2 { Some(ver(m)) } else { None };
        ensure_eq!(Version::try_from(m).ok(), want, "version number {}", m);
        if let Some(v) = want {
            ensure_eq!(v as u8, m, "number of a version");
        }
    }
    Ok(())
}

fn c17_check(c: &C17, cx: &mut Cx) -> Chk {
    let v = &c.vals;
    if let Some((from, to)) = c.sweep {
        return c17_sweep(from, to, cx);
    }
    codes(v.len() as u64 * 977 + c.name.bytes().map(|b| b as u64).sum::<u64>())?;
    cx.nontrivial(v.len() > 0);
    if let Vals::U8(b) = v {
        cx.label(if std::str::from_utf8(b).is_ok() { "valid UTF-8" } else { "invalid UTF-8" });
    } else {
        cx.label("not bytes");
    }
    c17_dv(&to_dv(v), v)?;
    let m = MDs {
        dims: vec![],
        gattrs: vec![MAttr { name: c.name.clone(), vals: v.clone() }],
        vars: vec![MVar { name: "x".into(), ty: Ty::I8, dims: vec![], attrs: vec![MAttr { name: c.name.clone(), vals: v.clone() }] }],
    };
    let ds = build(&m)?;
    check_getters(&ds, &m, &["other".to_string()])?;
    // all the entry points that set it
    for via in 0..4u8 {
        let mut d = DataSet::new();
        d.add_var_i8::<&str>("x", &[]).map_err(|e| format!("{:?}", e))?;
        let nm = Names(vec!["x".into(), c.name.clone()]);
        real_apply(&mut d, &DOp::AddV(0, 1, v.clone(), via), &nm)?.map_err(|e| format!("{:?}", e))?;
        real_apply(&mut d, &DOp::AddG(1, v.clone(), via % 2 == 1), &nm)?.map_err(|e| format!("{:?}", e))?;
        same(&d, &m)?;
        let out = real_apply(&mut d, &DOp::RmV(0, 1, via % 2 == 0), &nm)?.map_err(|e| format!("{:?}", e))?;
        ensure_eq!(out, Out::Attr(MAttr { name: c.name.clone(), vals: v.clone() }), "removed attribute");
    }
    if c.file && v.len() > 0 {
        // the same values as data of a variable
        let m = MDs {
            dims: vec![MDim { name: "n".into(), size: v.len(), unlim: false }],
            gattrs: m.gattrs.clone(),
            vars: vec![MVar { name: "x".into(), ty: v.ty(), dims: vec![0], attrs: m.vars[0].attrs.clone() }],
        };
        let b = enc::canonical_file(&m, 1, 0, &[v.clone()]);
        let p = cx.path();
        std::fs::write(&p, b).map_err(|e| e.to_string())?;
        let mut r = FileReader::open(&p).map_err(|e| format!("{:?}", e))?;
        check_getters(r.data_set(), &m, &["other".to_string()])?;
        c17_dv(&r.read_var("x").map_err(|e| format!("{:?}", e))?, v)?;
        c17_dv(&r.read_record("x", 0).map_err(|e| format!("{:?}", e))?, v)?;
        cx.label("through a file");
    }
    Ok(())
}

pub fn c17() -> Prop<C17> {
    Prop {
        id: "C17",
        rule: "values of every type (bit patterns, UTF-8 and not, empty) as data vectors and attributes, all accessors; non-trivial: at least one value",
        strategy: |_| {
            let bytes = vec(prop_oneof![4 => 0x20u8..0x7f, 2 => any::<u8>(), 1 => select(vec![0u8, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xff, 0xf0, 0x9d, 0xed, 0xa0])], 0..9).prop_map(Vals::U8);
            // characters that are easily taken away or changed
            let special = select(vec![
                "\u{feff}", "\0", " ", "\t", "\n", "\r\n", "\u{a0}", "\u{85}", "\u{200b}", "\u{2028}", "\u{fffd}", "\u{ffff}", "\u{e9}", "e\u{301}", "\u{10ffff}", "\"", "\\n",
                "a", "Z", "\u{1b}", "\u{7f}", "\u{80}", "\u{131}", "\u{df}",
            ]);
            let text = vec(special, 0..7).prop_map(|l| Vals::U8(l.concat().into_bytes()));
            (prop_oneof![6 => vals(), 3 => bytes, 1 => text], name(), any::<bool>())
                .prop_map(|(vals, name, file)| C17 { vals, name, file, sweep: None })
                .boxed()
        },
        check: c17_check,
        fixed: |_| {
            let mut v = vec![];
            for t in ALL_TY {
                for n in 0..3 {
                    v.push(C17 { vals: Vals::fill(t, n), name: "a".into(), file: true, sweep: None });
                }
            }
            v.extend((0..0x110000 / 0x4000).map(|k| C17 { vals: Vals::fill(Ty::U8, 0), name: "a".into(), file: false, sweep: Some((k * 0x4000, (k + 1) * 0x4000)) }));
            v
        },
        quick: 360000,
        thorough: 20000000,
        workers: 8,
        case_timeout: 60,
        level: "exploration",
        raw: None,
        exhaustive_note: "the string form of every Unicode code point alone, first, last and inside, and of every pair of bytes",
    }
}

