//! Calls: dispatch, driver primitives, library transfer functions.
use crate::interp::*;
use crate::ir::*;
use crate::lin::*;
use crate::state::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Cx<'a> {
    pub bi: &'a Rc<BodyInfo>,
    pub span: Span,
    pub def: FnDef,
    pub ga: GenericArgs,
    pub ty: Vec<Ty>,
    pub dt: Ty,
}

thread_local! {
    static NAMES: RefCell<HashMap<FnDef, Rc<str>>> = RefCell::default();
}
/// normalised name of a function definition
pub fn fname(d: FnDef) -> Rc<str> {
    if let Some(n) = NAMES.with(|n| n.borrow().get(&d).cloned()) {
        return n;
    }
    let s = norm(&d.name());
    let s = s.replace("core::", "std::").replace("alloc::", "std::");
    let r: Rc<str> = s.into();
    NAMES.with(|n| n.borrow_mut().insert(d, r.clone()));
    r
}
pub fn last_seg(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}
pub const VLEN: i128 = (1 << 31) - 1;

/// the elements behind a pointer to a vector, array or slice
pub fn seq(st: &mut State, v: &V) -> R<(PtrV, Lin, Lin)> {
    match v {
        V::Ptr(p) => {
            let mut q = (**p).clone();
            if let Meta::Slice(o, n) = &p.meta {
                q.meta = Meta::None;
                // a boxed slice
                if let Ok(V::Bx(..)) = st.read(&q) {
                    q.proj.push(Pj::Boxed);
                }
                return Ok((q, o.clone(), n.clone()));
            }
            q.meta = Meta::None;
            loop {
                match st.read(&q)? {
                    V::Arr(a) => return Ok((q, Lin::c(0), a.len.clone())),
                    V::Bx(..) => q.proj.push(Pj::Boxed),
                    V::Ptr(p2) => {
                        let v2 = V::Ptr(p2);
                        return seq(st, &v2);
                    }
                    V::Agg(a) if a.len() == 1 => q.proj.push(Pj::Field(0)),
                    o => return fail(format!("not a sequence: {}", kind_of(&o))),
                }
            }
        }
        V::Unk => fail("unknown sequence"),
        o => fail(format!("sequence pointer is {}", kind_of(o))),
    }
}
pub fn kind_of(v: &V) -> String {
    match v {
        V::Undef => "undefined".into(),
        V::Unk => "unknown".into(),
        V::Int(_) => "int".into(),
        V::Bool(_) => "bool".into(),
        V::F(_) => "float".into(),
        V::Str(_) => "str".into(),
        V::Ptr(_) => "pointer".into(),
        V::Agg(a) => format!("aggregate/{}", a.len()),
        V::Enum(k, a) => format!("variant {k}/{}", a.len()),
        V::Bx(..) => "box".into(),
        V::Arr(_) => "array".into(),
        V::Opq(o) => format!("opaque {}", o.0),
        V::FnP(_) => "fn".into(),
    }
}
pub fn as_int(v: &V) -> R<Lin> {
    match v {
        V::Int(l) => Ok(l.clone()),
        o => fail(format!("integer expected, got {}", kind_of(o))),
    }
}
pub fn as_f(v: &V) -> R<FT> {
    match v {
        V::F(x) => Ok(*x),
        o => fail(format!("float expected, got {}", kind_of(o))),
    }
}
pub fn deref(st: &mut State, v: &V) -> R<V> {
    match v {
        V::Ptr(p) => st.read(p),
        V::Str(_) => Ok(v.clone()),
        o => fail(format!("pointer expected, got {}", kind_of(o))),
    }
}
pub fn as_ptr(v: &V) -> R<PtrV> {
    match v {
        V::Ptr(p) => Ok((**p).clone()),
        o => fail(format!("pointer expected, got {}", kind_of(o))),
    }
}
pub fn str_of(st: &mut State, v: &V) -> R<S> {
    match v {
        V::Str(s) => Ok(s.clone()),
        V::Ptr(p) => {
            let x = st.read(p)?;
            str_of(st, &x)
        }
        V::Enum(_, a) if a.len() == 1 => str_of(st, &a[0].clone()),
        V::Bx(b, _) => str_of(st, &(**b).clone()),
        o => fail(format!("string expected, got {}", kind_of(o))),
    }
}
pub fn slice_ptr(base: &PtrV, off: Lin, len: Lin) -> V {
    let mut q = base.clone();
    q.meta = Meta::Slice(off, len);
    vptr(q)
}
pub fn elem_ptr(base: &PtrV, i: Lin) -> V {
    vptr(ptr_push(base, Pj::Elem(i)))
}
fn peel_refs(mut t: Ty) -> Ty {
    while let RigidTy::Ref(_, x, _) = rigid(t) {
        t = x;
    }
    t
}
pub fn strish(t: Ty) -> bool {
    let t = peel_refs(t);
    match head(t).as_str() {
        "str" | "String" => true,
        "Cow" => match rigid(t) {
            RigidTy::Adt(_, a) => ty_args(&a).first().map(|x| head(*x) == "str").unwrap_or(false),
            _ => false,
        },
        _ => false,
    }
}
fn b(x: bool) -> V {
    V::Bool(B::C(x))
}
fn okv(v: V) -> V {
    en(0, vec![v])
}
fn errv(v: V) -> V {
    en(1, vec![v])
}
/// a fresh value of a type, all leaves unconstrained
pub fn fresh_of(t: Ty, tag: &str) -> R<V> {
    Ok(match rigid(t) {
        RigidTy::Bool => V::Bool(B::Pred(format!("any:{tag}:{}", uniq()).into())),
        RigidTy::Float(_) => V::F(fresh_f(tag, false)),
        RigidTy::Uint(_) | RigidTy::Int(_) | RigidTy::Char => {
            let (lo, hi) = int_range(t).unwrap();
            V::Int(fresh(tag, lo, hi))
        }
        RigidTy::Tuple(ts) => agg(ts.iter().map(|x| fresh_of(*x, tag)).collect::<R<Vec<_>>>()?),
        RigidTy::Adt(d, _) if d.kind() == AdtKind::Struct && head(t) != "Vec" && head(t) != "String" => agg(fields_of(t, 0).iter().map(|x| fresh_of(*x, tag)).collect::<R<Vec<_>>>()?),
        _ => return fail(format!("fresh value of {}", head(t))),
    })
}
/// array template over J for an element type: every leaf is a fresh function of the index
fn template_of(t: Ty, tag: &str) -> R<V> {
    let j = Lin::a(atom(AK::BoundJ));
    Ok(match rigid(t) {
        RigidTy::Float(_) => {
            let f = new_fun(FunInfo { tag: tag.to_string(), ..Default::default() });
            V::F(ft(FN::App { f, arg: j }))
        }
        RigidTy::Uint(_) | RigidTy::Int(_) | RigidTy::Char => {
            let (lo, hi) = int_range(t).unwrap();
            let f = new_fun(FunInfo { tag: tag.to_string(), lo, hi, ..Default::default() });
            V::Int(Lin::a(atom(AK::App { f, arg: j })))
        }
        RigidTy::Tuple(ts) => agg(ts.iter().enumerate().map(|(i, x)| template_of(*x, &format!("{tag}.{i}"))).collect::<R<Vec<_>>>()?),
        RigidTy::Adt(d, _) if d.kind() == AdtKind::Struct => {
            let names: Vec<String> = d.variants()[0].fields().iter().map(|f| f.name.clone()).collect();
            agg(fields_of(t, 0).iter().zip(names).map(|(x, n)| template_of(*x, &format!("{tag}.{n}"))).collect::<R<Vec<_>>>()?)
        }
        _ => return fail(format!("template of {}", head(t))),
    })
}

fn inst_is_closure_shim(def: FnDef, ga: &GenericArgs) -> bool {
    fname(def).ends_with("FnOnce::call_once") && matches!(ty_args(ga).first().map(|c| rigid(*c)), Some(RigidTy::Closure(..)))
}

impl Interp {
    // ------------------------------------------------------------ dispatch
    pub fn call_inst(&mut self, st: State, bi: &Rc<BodyInfo>, span: Span, inst: Instance, av: Vec<V>, dt: Ty) -> R<Outs> {
        match rigid(inst.ty()) {
            RigidTy::FnDef(def, ga) if inst_is_closure_shim(def, &ga) => {
                // a closure without captures turned into a function pointer
                let c = ty_args(&ga)[0];
                let cx = Cx { bi, span, def, ga, ty: vec![], dt };
                self.call_value(st, &cx, c, agg(vec![]), false, av, vec![])
            }
            RigidTy::FnDef(def, ga) => self.call_def(st, bi, span, def, ga, av, vec![], dt),
            _ => Ok(self.run(st, inst, av)),
        }
    }

    pub fn call_def(&mut self, st: State, bi: &Rc<BodyInfo>, span: Span, def: FnDef, ga: GenericArgs, av: Vec<V>, _at: Vec<Ty>, dt: Ty) -> R<Outs> {
        let mut st = st;
        let nm = fname(def);
        let ty = ty_args(&ga);
        if matches!(rigid(dt), RigidTy::Never) {
            let k = never_kind(&nm);
            self.panic(&mut st, bi, &k, span);
            return Ok(vec![]);
        }
        let cx = Cx { bi, span, def, ga, ty, dt };
        if let Some(p) = nm.strip_prefix("vmodels::vm::") {
            return self.vm(st, &cx, p, av);
        }
        match &*nm {
            "std::ops::Fn::call" | "std::ops::FnMut::call_mut" | "std::ops::FnOnce::call_once" => {
                let by_ref = !nm.ends_with("call_once");
                let args = match &av[1] {
                    V::Agg(a) => (**a).clone(),
                    _ => return fail("closure arguments"),
                };
                let aty = match cx.ty.get(1).map(|t| rigid(*t)) {
                    Some(RigidTy::Tuple(t)) => t,
                    _ => vec![],
                };
                return self.call_value(st, &cx, cx.ty[0], av[0].clone(), by_ref, args, aty);
            }
            _ => {}
        }
        // driver-level replacements for library loops
        if let Some(m) = self.model_for(&mut st, &nm, &cx, &av)? {
            self.model_used.insert(nm.to_string());
            return match Instance::resolve(m, &cx.ga) {
                Ok(i) => Ok(self.run(st, i, av)),
                Err(_) => fail(format!("model for {nm}")),
            };
        }
        if let Some(o) = self.prim_multi(&st, &cx, &nm, &av)? {
            self.prims_used.insert(nm.to_string());
            return Ok(o);
        }
        if let Some(v) = self.prim(&mut st, &cx, &nm, &av)? {
            self.prims_used.insert(nm.to_string());
            return Ok(vec![(st, v)]);
        }
        self.resolve_call(st, &cx, &nm, av)
    }

    fn resolve_call(&mut self, mut st: State, cx: &Cx, nm: &str, av: Vec<V>) -> R<Outs> {
        // dynamic dispatch on the concrete type behind the receiver
        let mut ga = cx.ga.clone();
        if let Some(t0) = cx.ty.first() {
            if let RigidTy::Dynamic(..) = rigid(*t0) {
                if let Some(V::Ptr(p)) = av.first() {
                    if let Meta::Dyn(t) = &p.meta {
                        let t = *t;
                        if matches!(rigid(t), RigidTy::Dynamic(..)) {
                            return fail("unresolved dynamic type");
                        }
                        ga.0[0] = GenericArgKind::Type(t);
                        let mut q = (**p).clone();
                        let mut av = av;
                        q.meta = Meta::None;
                        av[0] = vptr(q);
                        return self.call_def(st, cx.bi, cx.span, cx.def, ga, av, vec![], cx.dt);
                    }
                }
                return self.unknown(st, cx, nm, &av);
            }
        }
        let inst = match Instance::resolve(cx.def, &ga) {
            Ok(i) => i,
            Err(_) => return self.unknown(st, cx, nm, &av),
        };
        match inst.kind {
            InstanceKind::Intrinsic => {
                let n = inst.intrinsic_name().unwrap_or_default();
                if let Some(v) = self.intrinsic(&mut st, cx, &n, &av)? {
                    return Ok(vec![(st, v)]);
                }
                if inst.has_body() {
                    return Ok(self.run(st, inst, av));
                }
                self.unknown(st, cx, &n, &av)
            }
            InstanceKind::Virtual { .. } => self.unknown(st, cx, nm, &av),
            _ => {
                // a trait method resolved to an implementation with its own transfer function
                if let RigidTy::FnDef(d2, ga2) = rigid(inst.ty()) {
                    if d2 != cx.def {
                        let n2 = fname(d2);
                        let cx2 = Cx { bi: cx.bi, span: cx.span, def: d2, ty: ty_args(&ga2), ga: ga2, dt: cx.dt };
                        if let Some(m) = self.model_for(&mut st, &n2, &cx2, &av)? {
                            self.model_used.insert(n2.to_string());
                            return match Instance::resolve(m, &cx2.ga) {
                                Ok(i) => Ok(self.run(st, i, av)),
                                Err(_) => fail(format!("model for {n2}")),
                            };
                        }
                        if let Some(o) = self.prim_multi(&st, &cx2, &n2, &av)? {
                            self.prims_used.insert(n2.to_string());
                            return Ok(o);
                        }
                        if let Some(v) = self.prim(&mut st, &cx2, &n2, &av)? {
                            self.prims_used.insert(n2.to_string());
                            return Ok(vec![(st, v)]);
                        }
                    }
                }
                if matches!(inst.kind, InstanceKind::Shim) && nm == "std::clone::Clone::clone" {
                    let v = deref(&mut st, &av[0])?;
                    return Ok(vec![(st, v)]);
                }
                if opaque_name(nm) || !inst.has_body() && body_of(inst).is_none() {
                    if let Some(v) = ctor(&cx.dt, nm, &av) {
                        return Ok(vec![(st, v)]);
                    }
                    return self.unknown(st, cx, nm, &av);
                }
                Ok(self.run(st, inst, av))
            }
        }
    }

    fn unknown(&mut self, mut st: State, cx: &Cx, nm: &str, _av: &[V]) -> R<Outs> {
        let m = format!("call of {nm} is not modelled");
        if self.verbose {
            eprintln!("  TAINT {m} in {}", cx.bi.name);
        }
        st.taint(&m);
        self.taints.insert(format!("{m} (in {})", short(&cx.bi.name)));
        Ok(vec![(st, V::Unk)])
    }

    /// call a closure, function item, function pointer, reference or box of one
    pub fn call_value(&mut self, st: State, cx: &Cx, ty: Ty, f: V, by_ref: bool, args: Vec<V>, aty: Vec<Ty>) -> R<Outs> {
        let mut st = st;
        match rigid(ty) {
            RigidTy::Closure(def, cargs) => {
                let inst = match Instance::resolve_closure(def, &cargs, ClosureKind::Fn) {
                    Ok(i) => i,
                    Err(_) => return fail("closure"),
                };
                let Some(cb) = body_of(inst) else { return fail("closure body") };
                let want_ref = matches!(cb.body.arg_locals().first().map(|l| rigid(l.ty)), Some(RigidTy::Ref(..)));
                // closure captured environment
                let (env, tmp) = if want_ref && !by_ref {
                    let d = st.frames.len() as u32;
                    st.frames.push(Frame { name: "<temporary>".into(), locals: Rc::new(vec![f]) });
                    (vptr(PtrV { root: Root::Local(d, 0), proj: vec![], meta: Meta::None }), Some(d))
                } else if !want_ref && by_ref {
                    (deref(&mut st, &f)?, None)
                } else {
                    let f = match f {
                        V::Ptr(p) if !matches!(p.meta, Meta::None) => {
                            let mut q = (*p).clone();
                            q.meta = Meta::None;
                            vptr(q)
                        }
                        o => o,
                    };
                    (f, None)
                };
                let mut av = vec![env];
                av.extend(args);
                let mut outs = self.run(st, inst, av);
                if let Some(d) = tmp {
                    for (s, _) in outs.iter_mut() {
                        s.frames.truncate(d as usize);
                    }
                }
                Ok(outs)
            }
            RigidTy::FnDef(def, ga) => self.call_def(st, cx.bi, cx.span, def, ga, args, aty, cx.dt),
            RigidTy::FnPtr(_) => {
                let v = if by_ref { deref(&mut st, &f)? } else { f };
                match v {
                    V::FnP(i) => self.call_inst(st, cx.bi, cx.span, i, args, cx.dt),
                    _ => self.unknown(st, cx, "function pointer", &args),
                }
            }
            RigidTy::Ref(_, t, _) => {
                let v = if by_ref { deref(&mut st, &f)? } else { f };
                self.call_value(st, cx, t, v, true, args, aty)
            }
            RigidTy::Adt(..) if head(ty) == "Box" => {
                let RigidTy::Adt(_, a) = rigid(ty) else { unreachable!() };
                let inner = ty_args(&a)[0];
                if by_ref {
                    let p = as_ptr(&f)?;
                    let V::Bx(_, t) = st.read(&p)? else { return fail("boxed closure") };
                    let q = ptr_push(&p, Pj::Boxed);
                    self.call_value(st, cx, t.unwrap_or(inner), vptr(q), true, args, aty)
                } else {
                    let V::Bx(c, t) = f else { return fail("boxed closure") };
                    self.call_value(st, cx, t.unwrap_or(inner), (*c).clone(), false, args, aty)
                }
            }
            RigidTy::Dynamic(..) => {
                let p = as_ptr(&f)?;
                if let Meta::Dyn(t) = &p.meta {
                    let t = *t;
                    let mut q = p.clone();
                    q.meta = Meta::None;
                    return self.call_value(st, cx, t, vptr(q), by_ref, args, aty);
                }
                self.unknown(st, cx, "dyn Fn", &args)
            }
            _ => fail(format!("call of a {}", head(ty))),
        }
    }

    // ------------------------------------------------------------ models
    fn model_for(&mut self, st: &mut State, nm: &str, cx: &Cx, av: &[V]) -> R<Option<FnDef>> {
        let self_head = || cx.ty.first().map(|t| head(peel_refs(*t))).unwrap_or_default();
        let models = self.models.clone();
        let m = |s: &str| models.get(s).copied();
        if let Some(r) = nm.strip_prefix("std::iter::Iterator::") {
            let h = cx.ty.first().map(|t| head(*t)).unwrap_or_default();
            if h == "GenericShunt" {
                // its own try_fold delegates to the iterator inside
                return Ok(None);
            }
            return Ok(match r {
                "fold" | "for_each" | "try_fold" | "try_for_each" | "find" | "find_map" | "any" | "all" | "position" | "count" | "last" => m(&format!("iter_{r}")),
                "zip" => m("iter_zip"),
                "nth" if !matches!(h.as_str(), "Iter" | "IterMut" | "IntoIter" | "Range" | "Skip" | "Enumerate" | "Take") => m("iter_nth"),
                "partition" => m("iter_partition"),
                _ => None,
            });
        }
        if nm == "std::iter::DoubleEndedIterator::rfold" || nm == "std::iter::DoubleEndedIterator::rfind" || nm == "std::iter::DoubleEndedIterator::try_rfold" || nm == "std::iter::Iterator::rposition" {
            return Ok(m(&format!("iter_{}", last_seg(nm))));
        }
        match nm {
            "std::iter::FromIterator::from_iter" => {
                let h = self_head();
                return Ok(match h.as_str() {
                    "Vec" => m("vec_from_iter"),
                    "Box" => m("boxed_from_iter"),
                    "HashMap" => m("map_from_iter"),
                    "HashSet" => m("set_from_iter"),
                    _ => None,
                });
            }
            "std::iter::Extend::extend" => {
                let h = self_head();
                return Ok(match h.as_str() {
                    "Vec" => match cx.ty.get(1).map(|t| rigid(*t)) {
                        Some(RigidTy::Ref(..)) => m("vec_extend_ref"),
                        _ => m("vec_extend"),
                    },
                    "HashMap" => m("map_extend"),
                    "HashSet" => m("set_extend"),
                    _ => None,
                });
            }
            "std::vec::Vec::retain" => return Ok(m("vec_retain")),
            "std::vec::Vec::retain_mut" => return Ok(m("vec_retain_mut")),
            "std::vec::Vec::extend_from_slice" => return Ok(m("vec_extend_from_slice")),
            "std::slice::<impl [T]>::partition_point" => return Ok(m("slice_partition_point")),
            "std::slice::<impl [T]>::contains" => return Ok(m("slice_contains")),
            "std::slice::<impl [T]>::starts_with" => return Ok(m("slice_starts_with")),
            "std::slice::<impl [T]>::ends_with" => return Ok(m("slice_ends_with")),
            "std::cmp::PartialEq::eq" | "std::cmp::PartialEq::ne" => {
                let s = |i: usize| cx.ty.get(i).map(|t| head(*t)).unwrap_or_default();
                let q = |x: &str| matches!(x, "slice" | "Vec" | "array");
                if q(&s(0)) && q(&s(1)) {
                    return Ok(m(if nm.ends_with("eq") { "slice_eq" } else { "slice_ne" }));
                }
                return Ok(None);
            }
            _ => {}
        }
        if let Some(r) = nm.strip_prefix("std::slice::<impl [T]>::") {
            if matches!(r, "sort_by" | "sort_unstable_by" | "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" | "sort" | "sort_unstable") {
                let (p, _, n) = seq(st, &av[0])?;
                let a = st.read(&p)?;
                let mut lst = matches!(&a, V::Arr(a) if matches!(a.body, AB::List(_)));
                if !lst && self.exact {
                    self.materialize(st, &p)?;
                    lst = true;
                }
                if lst && n.is_const().is_some() {
                    return Ok(m(match r {
                        "sort_by" | "sort_unstable_by" => "list_sort_by",
                        "sort" | "sort_unstable" => "list_sort",
                        _ => "list_sort_by_key",
                    }));
                }
            }
        }
        if nm == "std::vec::Vec::insert" || nm == "std::vec::Vec::remove" {
            return Ok(None);
        }
        if nm.starts_with("rand::") {
            if nm == "rand::distributions::WeightedIndex::new" || nm == "rand::distributions::weighted_index::WeightedIndex::new" || nm == "rand::distributions::WeightedIndex::<X>::new" {
                return Ok(m("wi_new"));
            }
            let h = self_head();
            if nm == "rand::distributions::Distribution::sample" && h == "WeightedIndex" {
                return Ok(m("wi_sample"));
            }
            if nm == "rand::Rng::gen_range" {
                return Ok(m("rng_gen_range"));
            }
        }
        Ok(None)
    }

    /// in refinement mode, give a vector of unknown length each small length in turn
    pub fn materialize(&mut self, st: &mut State, p: &PtrV) -> R<()> {
        let V::Arr(a) = st.read(p)? else { return fail("materialize") };
        if let AB::List(_) = a.body {
            return Ok(());
        }
        if !self.exact {
            return fail("sequence operation on a summarised vector");
        }
        for k in 0..=(self.peel as i128) {
            if st.test_eq(&a.len, &Lin::c(k))? {
                let mut v = vec![];
                for i in 0..k {
                    v.push(st.arr_get(&a, &Lin::c(i))?);
                }
                st.write(p, list(v))?;
                return Ok(());
            }
        }
        Err(Stop::Infeasible)
    }

    fn cond(&mut self, st: &mut State, cx: &Cx, c: &B, kind: &str) -> R<()> {
        if st.test(c)? {
            self.panic_ok(cx.bi, kind);
            Ok(())
        } else {
            self.panic(st, cx.bi, kind, cx.span);
            Err(Stop::Infeasible)
        }
    }

    // ------------------------------------------------------------ driver primitives
    fn vm(&mut self, mut st: State, cx: &Cx, p: &str, av: Vec<V>) -> R<Outs> {
        let one = |st: State, v: V| Ok(vec![(st, v)]);
        let konst = |v: &V, st: &mut State| -> R<String> {
            match str_of(st, v)? {
                S::C(c) => Ok(c.to_string()),
                _ => fail("constant string expected"),
            }
        };
        match p {
            "any_usize" | "any_u32" | "any_u64" | "any_i32" => {
                let (lo, hi) = int_range(cx.dt).unwrap();
                let n = st.uid();
                let a = atom(AK::Sym { tag: format!("{}_{}", p, n), lo, hi, phi: false });
                one(st, V::Int(Lin::a(a)))
            }
            "any_f32" | "any_f64" => {
                let n = st.uid();
                let tag = if p == "any_f64" { format!("f64_{n}") } else { format!("{p}_{n}") };
                one(st, V::F(ft(FN::Sym { tag, nan: false, phi: false })))
            }
            "any_f32_nan" => {
                let n = st.uid();
                one(st, V::F(ft(FN::Sym { tag: format!("{p}_{n}"), nan: true, phi: false })))
            }
            "any_bool" | "choose" => {
                let n = st.uid();
                one(st, V::Bool(B::Pred(format!("{p}_{n}").into())))
            }
            "any_str" => {
                let n = st.uid();
                one(st, V::Str(S::Sym(format!("str_{n}").into())))
            }
            "any_text" | "any_word" => {
                let n = st.uid();
                one(st, V::Str(S::Sym(format!("{}_{n}", &p[4..]).into())))
            }
            "assume" => {
                let V::Bool(c) = &av[0] else { return fail("assume") };
                if st.test(c)? {
                    one(st, unit())
                } else {
                    Ok(vec![])
                }
            }
            "prove" => {
                let id = konst(&av[1], &mut st)?;
                let id = match &self.ob_prefix {
                    Some(p) => format!("{p}{id}"),
                    None => id,
                };
                match &av[0] {
                    V::Bool(c) => {
                        if st.taint.is_some() {
                            self.open(&mut st, &id, "imprecise state".into());
                            return one(st, unit());
                        }
                        match st.decide(c) {
                            Dec::True => {
                                self.discharge(&id);
                                one(st, unit())
                            }
                            Dec::False if !self.exact && st.infeasible() => Ok(vec![]),
                            Dec::False => {
                                if self.verbose && !self.exact {
                                    eprintln!("   OPEN {id}: does not hold: le={:?} ne={:?} fl={:?} preds={:?}", st.facts.le, st.facts.ne, show_fl(&st), st.facts.preds);
                                }
                                self.open(&mut st, &id, format!("{} does not hold", id));
                                Ok(vec![])
                            }
                            _ => {
                                if self.exact {
                                    if st.test(c)? {
                                        self.discharge(&id);
                                        one(st, unit())
                                    } else {
                                        self.open(&mut st, &id, format!("{} can fail", id));
                                        Ok(vec![])
                                    }
                                } else {
                                    if self.verbose {
                                        eprintln!("   OPEN {id}: {} le={:?} ne={:?} fl={:?} preds={:?}", c.show(), st.facts.le, st.facts.ne, show_fl(&st), st.facts.preds);
                                    }
                                    if std::env::var("SAMPLINT_FACTS").is_ok() {
                                        for f in &st.facts.fl {
                                            eprintln!("FACT {:?} neg={} {} , {}", f.rel, f.neg, show_ft(f.a), show_ft(f.b));
                                        }
                                        for f in &st.facts.le {
                                            eprintln!("FACT {f:?} <= 0");
                                        }
                                    }
                                    self.open(&mut st, &id, format!("cannot show {}", c.show()));
                                    st.assume(c, true);
                                    one(st, unit())
                                }
                            }
                        }
                    }
                    o => {
                        let why = format!("value is {}", kind_of(o));
                        st.taint("obligation on unknown value");
                        self.open(&mut st, &id, why);
                        one(st, unit())
                    }
                }
            }
            "reached" => {
                let id = konst(&av[0], &mut st)?;
                let id = match &self.ob_prefix {
                    Some(p) => format!("{p}{id}"),
                    None => id,
                };
                self.discharge(&id);
                one(st, unit())
            }
            "any_vec" | "any_vec_nan" | "any_vec_nonneg" => {
                let et = cx.ty[0];
                let n = st.uid();
                let key = format!("vec{n}:{p}");
                let t = match self.templates.get(&key) {
                    Some(t) => t.clone(),
                    None => {
                        let t = template_of(et, &format!("v{n}"))?;
                        if p == "any_vec_nan" {
                            mark_nan(&t);
                        }
                        self.templates.insert(key, t.clone());
                        t
                    }
                };
                if self.exact && self.lists {
                    for k in 0..=(self.peel as i128) {
                        if k == self.peel as i128 || st.choose("len")? {
                            let v = (0..k).map(|i| inst_v(&t, &Lin::c(i))).collect();
                            return one(st, list(v));
                        }
                    }
                }
                let len = Lin::a(atom(AK::Sym { tag: format!("len{n}"), lo: 0, hi: VLEN, phi: false }));
                one(st, V::Arr(Rc::new(Arr { len, body: AB::Tm { t, facts: vec![], ovl: vec![] } })))
            }
            // an arbitrary index below the bound, tracked individually through loops
            "skolem" => {
                let n = as_int(&av[0])?;
                if let (true, Some(k)) = (self.exact, n.is_const()) {
                    for i in 0..k {
                        if i + 1 == k || st.choose("index")? {
                            return one(st, int(i));
                        }
                    }
                    return Ok(vec![]);
                }
                let u = st.uid();
                let a = Lin::a(atom(AK::Sym { tag: format!("sk{u}"), lo: 0, hi: VLEN, phi: false }));
                if st.le0(&n) {
                    return Ok(vec![]);
                }
                st.assume_le(a.sub(&n).addk(1));
                one(st, V::Int(a))
            }
            "pick" => {
                let n = as_int(&av[0])?;
                if let (true, Some(k)) = (self.exact, n.is_const()) {
                    for i in 0..k {
                        if i + 1 == k || st.choose("pick")? {
                            return one(st, int(i));
                        }
                    }
                    return Ok(vec![]);
                }
                let u = st.uid();
                let a = Lin::a(atom(AK::Sym { tag: format!("sk_k{u}"), lo: 0, hi: VLEN, phi: false }));
                if st.le0(&n) {
                    return Ok(vec![]);
                }
                st.assume_le(a.sub(&n).addk(1));
                one(st, V::Int(a))
            }
            "assign" => {
                let p = as_ptr(&av[0])?;
                st.write(&p, av[1].clone())?;
                one(st, unit())
            }
            // attach an overlay for the tracked index to the vector
            "track" => {
                let (q, o, _) = seq(&mut st, &av[0])?;
                let i = as_int(&av[1])?.add(&o);
                let V::Arr(a) = st.read(&q)? else { return fail("track") };
                if let AB::Tm { t, facts, ovl } = &a.body {
                    let v = st.arr_get(&a, &i)?;
                    if !ovl.iter().any(|x| x.0 == i) {
                        let mut ov = ovl.clone();
                        ov.push((i, v));
                        st.write(&q, V::Arr(Rc::new(Arr { len: a.len.clone(), body: AB::Tm { t: t.clone(), facts: facts.clone(), ovl: ov } })))?;
                    }
                }
                one(st, unit())
            }
            // index of the original element an integer leaf was copied from
            "origin" | "origin_u32" => {
                let x = deref(&mut st, &av[0])?;
                let (q, _, _) = seq(&mut st, &av[1])?;
                let V::Arr(a) = st.read(&q)? else { return fail("origin") };
                let l = as_int(&x)?;
                one(st, match origin(&l, &a) {
                    Some(i) => some(V::Int(i)),
                    None => none(),
                })
            }
            // assumption: the value does not occur in v[lo..hi]
            "absent" => {
                let x = as_int(&deref(&mut st, &av[0])?)?;
                let (q, _, _) = seq(&mut st, &av[1])?;
                let V::Arr(a) = st.read(&q)? else { return fail("absent") };
                let (lo, hi) = (as_int(&av[2])?, as_int(&av[3])?);
                match &a.body {
                    AB::List(v) => {
                        for (i, e) in v.iter().enumerate() {
                            let i = Lin::c(i as i128);
                            if st.test(&B::Le(lo.sub(&i)))? && st.test(&B::Le(i.sub(&hi).addk(1)))? {
                                let Some(e) = int_leaf(e) else { return fail("absent") };
                                st.assume(&B::Eq(e.sub(&x)), false);
                            }
                        }
                    }
                    AB::Tm { t, .. } => {
                        let Some(t) = int_leaf(t) else { return fail("absent") };
                        let f = match (t.k, &t.t[..]) {
                            (0, [(a, 1)]) => match ak(*a) {
                                AK::App { f, arg } if arg == Lin::a(atom(AK::BoundJ)) => f,
                                _ => return fail("absent"),
                            },
                            _ => return fail("absent"),
                        };
                        Rc::make_mut(&mut st.facts).absent.push((x, f, lo, hi));
                    }
                }
                one(st, unit())
            }
            // a snapshot of a value, and whether two values are alike in every part
            "copy" => {
                let v = deref(&mut st, &av[0])?;
                one(st, v)
            }
            "same" => {
                let (x, y) = (deref(&mut st, &av[0])?, deref(&mut st, &av[1])?);
                let n = st.uid();
                one(st, V::Bool(if v_eq(&x, &y) { B::C(true) } else { B::Pred(format!("same{n}").into()) }))
            }
            "same_f32" => {
                let (x, y) = (as_f(&av[0])?, as_f(&av[1])?);
                one(st, V::Bool(if f_same(x, y) { B::C(true) } else { B::F(FR::Eq, x, y) }))
            }
            // the value is literally the earlier one (not recomputed)
            "stale" => {
                let (x, y) = (as_f(&av[0])?, as_f(&av[1])?);
                let n = st.uid();
                let phi = matches!(fnode(x), FN::Sym { phi: true, .. });
                one(st, V::Bool(if f_same(x, y) { B::C(true) } else if phi { B::Pred(format!("stale{n}").into()) } else { B::C(false) }))
            }
            "read" => {
                let (q, o, _) = seq(&mut st, &av[0])?;
                let i = as_int(&av[1])?.add(&o);
                let V::Arr(a) = st.read(&q)? else { return fail("read") };
                let v = st.arr_get(&a, &i)?;
                one(st, v)
            }
            "write" => {
                let (q, o, _) = seq(&mut st, &av[0])?;
                let i = as_int(&av[1])?.add(&o);
                st.write(&ptr_push(&q, Pj::Elem(i)), av[2].clone())?;
                one(st, unit())
            }
            "set_len" => {
                let (q, _, _) = seq(&mut st, &av[0])?;
                let V::Arr(a) = st.read(&q)? else { return fail("set_len") };
                let n = as_int(&av[1])?;
                let mut a2 = (*a).clone();
                if let AB::List(v) = &mut a2.body {
                    let Some(k) = n.is_const() else { return fail("set_len") };
                    v.truncate(k as usize);
                }
                a2.len = n;
                st.write(&q, V::Arr(Rc::new(a2)))?;
                one(st, unit())
            }
            "mkzip" => one(st, agg(vec![av[0].clone(), av[1].clone(), int(0), int(0)])),
            "mkbox" => one(st, V::Bx(Rc::new(av[0].clone()), None)),
            "is_dyn" => one(st, b(false)),
            "exact" => one(st, b(self.exact)),
            "watch" => {
                Rc::make_mut(&mut st.ghost).insert(u32::MAX, av[0].clone());
                one(st, unit())
            }
            "watched" => {
                let on = st.ghost.contains_key(&u32::MAX);
                one(st, b(on))
            }
            "watcher" => match st.ghost.get(&u32::MAX).cloned() {
                Some(p) => one(st, p),
                None => fail("no watcher"),
            },
            // phase 2 follows the loops of this driver that far from the start
            "depth" => {
                if let Some(k) = as_int(&av[0])?.is_const() {
                    self.peel = k as u32;
                    self.deep = true;
                    self.beam = 40_000;
                    self.deadline += std::time::Duration::from_secs(240);
                }
                one(st, unit())
            }
            "note" => {
                let s = konst(&av[0], &mut st)?;
                st.note(s);
                one(st, unit())
            }
            "show" => {
                let v = deref(&mut st, &av[0])?;
                if let V::F(x) = &v {
                    eprintln!("SHOW elements {}", show_ft(*x));
                }
                if let V::Arr(a) = &v {
                    if let AB::Tm { t, .. } = &a.body {
                        if let V::F(x) = t {
                            eprintln!("SHOW elements {}", show_ft(*x));
                        }
                        if let V::Agg(l) = t {
                            eprintln!("SHOW elements {:?}", l.iter().map(|x| if let V::F(x) = x { show_ft(*x) } else { String::new() }).collect::<Vec<_>>());
                        }
                    }
                }
                eprintln!("SHOW {v:?}\n   le={:?} ne={:?} fl={:?} preds={:?}", st.facts.le, st.facts.ne, show_fl(&st), st.facts.preds);
                one(st, unit())
            }
            // all elements satisfy a fact given on a leaf: leaf of J >= 0
            "nonneg" => {
                let (q, _, _) = seq(&mut st, &av[0])?;
                let V::Arr(a) = st.read(&q)? else { return fail("nonneg") };
                let k = as_int(&av[1])?.is_const().unwrap_or(0) as usize;
                match &a.body {
                    AB::List(v) => {
                        for e in v {
                            if let V::Agg(x) = e {
                                if let V::F(f) = x[k] {
                                    st.assume(&B::F(FR::Le, fc(0.0), f), true);
                                }
                            }
                        }
                    }
                    AB::Tm { t: V::Agg(x), .. } => {
                        if let V::F(f) = x[k] {
                            if let FN::App { f, .. } = fnode(f) {
                                INT.with(|i| i.borrow_mut().funs[f as usize].nonneg = true);
                            }
                        }
                    }
                    _ => {}
                }
                one(st, unit())
            }
            _ => fail(format!("vm::{p}")),
        }
    }

    // ------------------------------------------------------------ transfer functions with calls inside
    fn prim_multi(&mut self, st0: &State, cx: &Cx, nm: &str, av: &[V]) -> R<Option<Outs>> {
        // Zip::next: both sides in turn
        if nm == "std::iter::Iterator::next" {
            if let Some(RigidTy::Adt(_, za)) = cx.ty.first().map(|t| rigid(*t)) {
                if head(cx.ty[0]) == "Zip" {
                    let za = ty_args(&za);
                    let p = as_ptr(&av[0])?;
                    let mut outs = vec![];
                    let l = self.next_on(st0.clone(), cx, za[0], vptr(ptr_push(&p, Pj::Field(0))))?;
                    for (s, v) in l {
                        match v {
                            V::Enum(0, _) => outs.push((s, none())),
                            V::Enum(1, x) => {
                                for (s2, w) in self.next_on(s, cx, za[1], vptr(ptr_push(&p, Pj::Field(1))))? {
                                    match w {
                                        V::Enum(0, _) => outs.push((s2, none())),
                                        V::Enum(1, y) => outs.push((s2, some(agg(vec![x[0].clone(), y[0].clone()])))),
                                        _ => return fail("zip item"),
                                    }
                                }
                            }
                            _ => return fail("zip item"),
                        }
                    }
                    return Ok(Some(outs));
                }
            }
        }
        if let Some(r) = nm.strip_prefix("std::slice::<impl [T]>::") {
            if matches!(r, "sort_by" | "sort_unstable_by") {
                return self.sort_summary(st0, cx, av).map(Some);
            }
            if matches!(r, "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key") {
                return fail("sort_by_key on a summarised vector");
            }
        }
        // HashMap entry helpers that call closures
        if nm.contains("::Entry::and_modify") || nm.contains("Entry::<'a, K, V>::and_modify") {
            let V::Opq(o) = &av[0] else { return Ok(None) };
            let (o0, o1) = (o.0.clone(), o.1.clone());
            if o0 != "Entry" {
                return Ok(None);
            }
            let mut st = st0.clone();
            match entry_slot(&o1[2]) {
                Some(slot) => {
                    let fty = *cx.ty.last().unwrap();
                    let r = self.call_value(st, cx, fty, av[1].clone(), false, vec![slot], vec![])?;
                    return Ok(Some(r.into_iter().map(|(s, _)| (s, av[0].clone())).collect()));
                }
                None => return Ok(Some(vec![(st, av[0].clone())])),
            }
        }
        if nm.contains("::Entry::or_insert_with") && !nm.ends_with("_key") {
            let V::Opq(o) = &av[0] else { return Ok(None) };
            if o.0 != "Entry" {
                return Ok(None);
            }
            let mut st = st0.clone();
            let (mp, key) = (o.1[0].clone(), o.1[1].clone());
            if let Some(slot) = entry_slot(&o.1[2]) {
                return Ok(Some(vec![(st, slot)]));
            }
            let fty = *cx.ty.last().unwrap();
            let mut outs = vec![];
            for (mut s, v) in self.call_value(st, cx, fty, av[1].clone(), false, vec![], vec![])? {
                let slot = self.map_append(&mut s, &mp, &key, v)?;
                outs.push((s, slot));
            }
            return Ok(Some(outs));
        }
        Ok(None)
    }
    fn next_on(&mut self, st: State, cx: &Cx, t: Ty, p: V) -> R<Outs> {
        let ga = GenericArgs(vec![GenericArgKind::Type(t)]);
        // nested forks are resolved here, since the outer step must not be retried
        let mut outs = vec![];
        let mut work = vec![st];
        let mut n = 0;
        while let Some(s) = work.pop() {
            n += 1;
            if n > 64 {
                return fail("zip forks");
            }
            match self.call_def(s.clone(), cx.bi, cx.span, cx.def, ga.clone(), vec![p.clone()], vec![], cx.dt) {
                Ok(o) => outs.extend(o),
                Err(Stop::Fork(b)) => {
                    for v in [false, true] {
                        let mut s2 = s.clone();
                        s2.assume(&b, v);
                        if matches!(b, B::Le(_) | B::Eq(_)) {
                            s2.iforks += 1;
                            if s2.infeasible() {
                                continue;
                            }
                        }
                        work.push(s2);
                    }
                }
                Err(Stop::Infeasible) => {}
                Err(e) => return Err(e),
            }
        }
        Ok(outs)
    }

    /// sorting a summarised vector: a fresh permutation, with the order the comparator establishes
    fn sort_summary(&mut self, st0: &State, cx: &Cx, av: &[V]) -> R<Outs> {
        let mut st = st0.clone();
        let (q, off, len) = seq(&mut st, &av[0])?;
        let V::Arr(a) = st.read(&q)? else { return fail("sort") };
        if off != Lin::c(0) || len != a.len {
            return fail("sort of a sub-slice");
        }
        let AB::Tm { t, facts, ovl } = &a.body else { return fail("sort of a list") };
        let j = atom(AK::BoundJ);
        // comparator on two arbitrary elements
        let d = st.frames.len() as u32;
        let sym = |n: &str| Lin::a(atom(AK::Sym { tag: n.into(), lo: 0, hi: VLEN, phi: false }));
        let (ia, ib) = (sym("cmpa"), sym("cmpb"));
        let mut probe = st.clone();
        probe.assume_le(ia.sub(&len).addk(1));
        probe.assume_le(ib.sub(&len).addk(1));
        let ea = probe.inst_t(t, facts, &ia);
        let eb = probe.inst_t(t, facts, &ib);
        probe.frames.push(Frame { name: "<elements>".into(), locals: Rc::new(vec![ea.clone(), eb.clone()]) });
        let p0 = vptr(PtrV { root: Root::Local(d, 0), proj: vec![], meta: Meta::None });
        let p1 = vptr(PtrV { root: Root::Local(d, 1), proj: vec![], meta: Meta::None });
        let fty = *cx.ty.last().unwrap();
        let outs = self.call_value(probe.clone(), cx, fty, av[1].clone(), false, vec![p0, p1], vec![])?;
        if outs.is_empty() {
            return fail("comparator never returns");
        }
        // candidate keys
        let mut leaves = vec![];
        float_leaves(t, &mut leaves);
        let mut asc_ok: Vec<bool> = vec![true; leaves.len()];
        let mut desc_ok: Vec<bool> = vec![true; leaves.len()];
        let mut effect: Option<State> = None;
        for (s, v) in &outs {
            let V::Enum(k, _) = v else { return fail("comparator result") };
            let mut s2 = s.clone();
            s2.frames.truncate(d as usize);
            let same = s2.frames.iter().zip(st.frames.iter()).all(|(x, y)| Rc::ptr_eq(&x.locals, &y.locals) || x.locals.iter().zip(y.locals.iter()).all(|(p, q)| v_eq(p, q)));
            if !same {
                effect = Some(s2);
                continue;
            }
            for (i, x) in leaves.iter().enumerate() {
                let (xa, xb) = (inst_f(*x, &ia), inst_f(*x, &ib));
                // Less/Equal: a may precede b; Greater: b must precede a
                let ge = matches!(s.fdecide(FR::Le, xb, xa), Dec::True);
                let le = matches!(s.fdecide(FR::Le, xa, xb), Dec::True);
                if *k == 2 {
                    // Greater
                    desc_ok[i] &= le;
                    asc_ok[i] &= ge;
                } else {
                    desc_ok[i] &= ge;
                    asc_ok[i] &= le;
                }
            }
        }
        // sorting the same contents by the same comparator gives the same order
        let u = uniq();
        let mut key = None;
        if ovl.is_empty() && !crate::join::v_phi(t) && !crate::join::v_phi(&V::Int(len.clone())) && effect.is_none() {
            let mut o: Vec<String> = outs
                .iter()
                .map(|(s, v)| {
                    let le: Vec<String> = s.facts.le.iter().filter(|x| !st.facts.le.contains(x)).map(|x| format!("{x:?}")).collect();
                    let ne: Vec<String> = s.facts.ne.iter().filter(|x| !st.facts.ne.contains(x)).map(|x| format!("{x:?}")).collect();
                    let fl: Vec<String> = s.facts.fl.iter().filter(|x| !st.facts.fl.iter().any(|y| format!("{y:?}") == format!("{x:?}"))).map(|x| format!("{x:?}")).collect();
                    format!("{v:?} {le:?} {ne:?} {fl:?}")
                })
                .collect();
            o.sort();
            key = Some(format!("{} {t:?} {facts:?} {len:?} {o:?}", fname(cx.def)));
        }
        let known = key.as_ref().and_then(|k| self.sorts.get(k).copied());
        let pf = match known {
            Some(p) => p,
            None => new_fun(FunInfo { tag: format!("perm{u}"), lo: 0, hi: VLEN, perm: true, dom: Some(len.clone()), ..Default::default() }),
        };
        if let Some(k) = key {
            self.sorts.insert(k, pf);
        }
        let pj = Lin::a(atom(AK::App { f: pf, arg: Lin::a(j) }));
        let t2 = inst_v(t, &pj);
        let mut f2: Vec<Lin> = facts.iter().map(|f| lin_subst_deep(f, &|x| if x == j { Some(pj.clone()) } else { None })).collect();
        f2.push(pj.sub(&len).addk(1));
        for (i, x) in leaves.iter().enumerate() {
            if desc_ok[i] {
                add_sorted(pf, inst_f(*x, &pj), true);
            }
            if asc_ok[i] {
                add_sorted(pf, inst_f(*x, &pj), false);
            }
        }
        let mut o2 = vec![];
        for (i, v) in ovl {
            // position of the tracked element after sorting
            let s = Lin::a(atom(AK::Sym { tag: format!("sk_s{}_{}", u, o2.len()), lo: 0, hi: VLEN, phi: true }));
            // an overlay may lie beyond the end
            if !st.test(&B::Le(i.sub(&len).addk(1)))? {
                continue;
            }
            st.assume_le(s.sub(&len).addk(1));
            let ps = Lin::a(atom(AK::App { f: pf, arg: s.clone() }));
            st.assume_eq(ps.sub(i));
            if v_eq(v, &inst_v(t, i)) {
                let x = inst_v(&t2, &s);
                o2.push((s, x));
            } else {
                o2.push((s, v.clone()));
            }
        }
        if ovl.iter().any(|(i, v)| !v_eq(v, &inst_v(t, i))) {
            // an element differs from the summary: the order facts need not cover it
            clear_sorted(pf);
            for (i, x) in leaves.iter().enumerate() {
                let _ = (i, x);
            }
        }
        st.write(&q, V::Arr(Rc::new(Arr { len: len.clone(), body: AB::Tm { t: t2, facts: f2, ovl: o2 } })))?;
        let mut r = vec![(st.clone(), unit())];
        if let Some(e) = effect {
            // the comparator changed captured memory on some comparison
            let mut s = st;
            for (k, f) in e.frames.iter().enumerate() {
                for (l, v) in f.locals.iter().enumerate() {
                    if !v_eq(v, &st0.frames[k].locals[l]) {
                        s.set_local(k as u32, l as u32, v.clone());
                    }
                }
            }
            s.taint("comparator side effect");
            r.push((s, unit()));
        }
        Ok(r)
    }

    // ------------------------------------------------------------ maps
    /// entries of a map: an array of (key, value) pairs in order of insertion
    fn map_ents(&mut self, st: &mut State, mp: &V) -> R<(PtrV, Rc<Arr>)> {
        let p = as_ptr(mp)?;
        let q = ptr_push(&p, Pj::MapVal(0));
        match st.read(&p)? {
            V::Opq(o) if o.0 == "Map" => match &o.1[0] {
                V::Arr(a) => Ok((q, a.clone())),
                _ => fail("map entries"),
            },
            V::Unk => fail("unknown map"),
            _ => fail("map expected"),
        }
    }
    /// pointer to the value slot of a key that is present
    fn map_slot(&mut self, st: &mut State, mp: &V, key: &V) -> R<Option<V>> {
        let (q, a) = self.map_ents(st, mp)?;
        let slot = |i: &Lin| Some(vptr(ptr_push(&ptr_push(&q, Pj::Elem(i.clone())), Pj::Field(1))));
        let kv = |v: &V| -> R<V> {
            match v {
                V::Agg(x) if x.len() == 2 => Ok(x[0].clone()),
                _ => fail("map entry"),
            }
        };
        match &a.body {
            AB::List(l) => {
                for (k, e) in l.iter().enumerate() {
                    if self.key_eq(st, &kv(e)?, key)? {
                        return Ok(slot(&Lin::c(k as i128)));
                    }
                }
                Ok(None)
            }
            AB::Tm { t, facts, ovl } => {
                for (i, e) in ovl.iter().rev() {
                    if self.key_eq(st, &kv(e)?, key)? {
                        return Ok(slot(i));
                    }
                }
                if matches!(t, V::Undef) || !st.choose("key present")? {
                    return Ok(None);
                }
                let sk = crate::join::mentions_sk(key);
                let u = st.uid();
                let e = Lin::a(atom(AK::Sym { tag: format!("{}{u}", if sk { "sk_m" } else { "hit" }), lo: 0, hi: VLEN, phi: true }));
                st.assume_le(e.sub(&a.len).addk(1));
                for (i, _) in ovl {
                    st.assume(&B::Eq(e.sub(i)), false);
                }
                let v = st.inst_t(t, facts, &e);
                let V::Agg(x) = &v else { return fail("map entry") };
                // the key of that entry is the one looked for
                match (&x[0], key) {
                    (V::Int(m), V::Int(n)) => {
                        if st.ne0(&m.sub(n)) {
                            return Err(Stop::Infeasible);
                        }
                        st.assume_eq(m.sub(n))
                    }
                    _ => {}
                }
                let v = agg(vec![key.clone(), x[1].clone()]);
                let mut o2 = ovl.clone();
                o2.push((e.clone(), v));
                st.write(&q, V::Arr(Rc::new(Arr { len: a.len.clone(), body: AB::Tm { t: t.clone(), facts: facts.clone(), ovl: o2 } })))?;
                Ok(slot(&e))
            }
        }
    }
    fn map_insert(&mut self, st: &mut State, mp: &V, key: &V, v: V) -> R<V> {
        if let Some(s) = self.map_slot(st, mp, key)? {
            let V::Ptr(sp) = &s else { return fail("map slot") };
            st.write(sp, v)?;
            return Ok(s);
        }
        self.map_append(st, mp, key, v)
    }
    /// a key known to be absent
    fn map_append(&mut self, st: &mut State, mp: &V, key: &V, v: V) -> R<V> {
        let (q, a) = self.map_ents(st, mp)?;
        let mut i = a.len.clone();
        self.vec_push(st, &q, agg(vec![key.clone(), v]))?;
        if let V::Arr(a2) = st.read(&q)? {
            if let AB::Tm { ovl, .. } = &a2.body {
                i = ovl.last().unwrap().0.clone();
            }
        }
        Ok(vptr(ptr_push(&ptr_push(&q, Pj::Elem(i)), Pj::Field(1))))
    }
    fn key_eq(&mut self, st: &mut State, a: &V, b: &V) -> R<bool> {
        match (a, b) {
            (V::Int(x), V::Int(y)) => st.test_eq(x, y),
            (V::Str(x), V::Str(y)) => {
                let q = str_eq(x, y);
                st.test(&q)
            }
            (V::Agg(x), V::Agg(y)) if x.len() == y.len() => {
                for (p, q) in x.iter().zip(y.iter()) {
                    if !self.key_eq(st, p, q)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            (V::Bool(x), V::Bool(y)) => Ok(st.test(x)? == st.test(y)?),
            _ => fail("map key"),
        }
    }

    // ------------------------------------------------------------ simple transfer functions
    fn prim(&mut self, st: &mut State, cx: &Cx, nm: &str, av: &[V]) -> R<Option<V>> {
        let h0 = || cx.ty.first().map(|t| head(*t)).unwrap_or_default();
        // ---- Vec
        if let Some(r) = nm.strip_prefix("std::vec::Vec::") {
            return self.vec_prim(st, cx, r, av);
        }
        if let Some(r) = nm.strip_prefix("std::slice::<impl [T]>::") {
            return self.slice_prim(st, cx, r, av);
        }
        if let Some(r) = nm.strip_prefix("std::str::<impl str>::") {
            return self.str_prim(st, cx, r, av);
        }
        if let Some(r) = nm.strip_prefix("std::f32::<impl f32>::").or_else(|| nm.strip_prefix("std::f64::<impl f64>::")).or_else(|| nm.strip_prefix("std::num::<impl f32>::")).or_else(|| nm.strip_prefix("std::num::<impl f64>::")) {
            return self.float_prim(st, r, av);
        }
        if nm.starts_with("std::f32::math::") || nm.starts_with("std::f64::math::") {
            return self.float_prim(st, last_seg(nm), av);
        }
        if let Some(r) = nm.strip_prefix("std::num::<impl ") {
            let r = last_seg(r);
            return self.int_prim(st, cx, r, av);
        }
        if nm.starts_with("std::collections::HashMap::") || nm.starts_with("std::collections::HashSet::") || nm.starts_with("std::collections::hash_map::") {
            return self.map_prim(st, cx, nm, av);
        }
        if nm.starts_with("anyhow::") {
            return self.anyhow_prim(st, cx, nm, av);
        }
        if nm.starts_with("std::fmt::") || nm.starts_with("std::io::") {
            return Ok(Some(match nm {
                "std::fmt::format" => V::Str(S::App("fmt", vec![])),
                _ if head(cx.dt) == "Result" => okv(unit()),
                _ if head(cx.dt) == "String" => V::Str(S::App("fmt", vec![])),
                _ => opq("fmt", vec![]),
            }));
        }
        Ok(Some(match nm {
            "std::boxed::box_assume_init_into_vec_unsafe" => {
                let V::Bx(c, _) = &av[0] else { return fail("vec! box") };
                match find_arr(c) {
                    Some(a) => a,
                    None => return fail("vec! box contents"),
                }
            }
            "std::slice::<impl [T]>::into_vec" | "std::slice::into_vec" => {
                let V::Bx(c, _) = &av[0] else { return fail("into_vec box") };
                (**c).clone()
            }
            "std::boxed::Box::new" | "std::sync::Arc::new" | "std::rc::Rc::new" | "std::boxed::Box::pin" => V::Bx(Rc::new(av[0].clone()), None),
            "std::boxed::Box::new_uninit" => V::Bx(Rc::new(V::Undef), None),
            "std::sync::Mutex::new" | "std::sync::RwLock::new" => agg(vec![av[0].clone()]),
            "std::sync::Mutex::lock" | "std::sync::Mutex::try_lock" | "std::sync::RwLock::write" | "std::sync::RwLock::read"
            | "std::sync::RwLock::try_read" | "std::sync::RwLock::try_write" => {
                if nm.contains("::try_") {
                    // another thread may hold the lock
                    let n = st.uid();
                    if st.test(&B::Pred(format!("contended_{n}").into()))? {
                        return Ok(Some(errv(opq("would block", vec![]))));
                    }
                }
                let p = as_ptr(&av[0])?;
                let mut q = ptr_push(&p, Pj::Field(0));
                if let Meta::Dyn(t) = &p.meta {
                    q.meta = match rigid(*t) {
                        RigidTy::Adt(_, a) => Meta::Dyn(ty_args(&a)[0]),
                        _ => return fail("lock of a dynamic mutex"),
                    };
                }
                okv(vptr(q))
            }
            "std::sync::Mutex::get_mut" => {
                let p = as_ptr(&av[0])?;
                okv(vptr(ptr_push(&p, Pj::Field(0))))
            }
            "std::sync::Mutex::into_inner" => {
                let V::Agg(a) = &av[0] else { return fail("mutex") };
                okv(a[0].clone())
            }
            "std::ops::Deref::deref" | "std::ops::DerefMut::deref_mut" => match h0().as_str() {
                "Vec" => {
                    let (q, o, n) = seq(st, &av[0])?;
                    slice_ptr(&q, o, n)
                }
                "String" => V::Str(str_of(st, &av[0])?),
                "Cow" if strish(cx.ty[0]) => V::Str(str_of(st, &av[0])?),
                "Arc" | "Rc" | "Box" => {
                    let p = as_ptr(&av[0])?;
                    let V::Bx(_, t) = st.read(&p)? else { return fail("deref of box") };
                    let mut q = ptr_push(&p, Pj::Boxed);
                    if let Some(t) = t {
                        q.meta = Meta::Dyn(t);
                    }
                    vptr(q)
                }
                "MutexGuard" | "RwLockReadGuard" | "RwLockWriteGuard" => deref(st, &av[0])?,
                _ => return Ok(None),
            },
            "std::convert::AsRef::as_ref" | "std::convert::AsMut::as_mut" | "std::borrow::Borrow::borrow" => match h0().as_str() {
                "Vec" | "array" | "slice" => {
                    let (q, o, n) = seq(st, &av[0])?;
                    if head(peel_refs(cx.dt)) == "Vec" {
                        return Ok(Some(av[0].clone()));
                    }
                    slice_ptr(&q, o, n)
                }
                "String" | "str" if strish(cx.dt) => V::Str(str_of(st, &av[0])?),
                "Box" | "Arc" => {
                    let p = as_ptr(&av[0])?;
                    let V::Bx(_, t) = st.read(&p)? else { return fail("as_ref of box") };
                    let mut q = ptr_push(&p, Pj::Boxed);
                    if let Some(t) = t {
                        q.meta = Meta::Dyn(t);
                    }
                    vptr(q)
                }
                _ => return Ok(None),
            },
            "std::clone::Clone::clone" => match h0().as_str() {
                "Vec" | "String" | "str" | "array" | "HashMap" | "HashSet" | "Range" | "RangeInclusive" => deref(st, &av[0])?,
                "Iter" | "IntoIter" => deref(st, &av[0])?,
                "Cow" => deref(st, &av[0])?,
                "Arc" | "Rc" => return fail("shared ownership"),
                "Box" => {
                    let v = deref(st, &av[0])?;
                    match &v {
                        V::Bx(_, None) => v,
                        _ => return fail("clone of box"),
                    }
                }
                _ => return Ok(None),
            },
            "std::borrow::ToOwned::to_owned" => match h0().as_str() {
                "str" => V::Str(str_of(st, &av[0])?),
                "slice" => return self.slice_prim(st, cx, "to_vec", av),
                _ => return Ok(None),
            },
            "std::string::ToString::to_string" => {
                if strish(cx.ty[0]) {
                    V::Str(str_of(st, &av[0])?)
                } else {
                    V::Str(S::App("tostring", vec![]))
                }
            }
            "std::convert::From::from" | "std::convert::Into::into" => {
                if cx.ty.len() >= 2 {
                    let (to, from) = if nm.ends_with("from") { (cx.ty[0], cx.ty[1]) } else { (cx.ty[1], cx.ty[0]) };
                    if strish(to) && head(to) == "String" && strish(from) {
                        return Ok(Some(V::Str(str_of(st, &av[0])?)));
                    }
                    if head(to) == "Cow" && strish(to) {
                        return Ok(Some(match head(from).as_str() {
                            "String" => en(1, vec![av[0].clone()]),
                            "ref" => en(0, vec![V::Str(str_of(st, &av[0])?)]),
                            _ => return Ok(None),
                        }));
                    }
                    if is_anyhow(to) && !is_anyhow(from) {
                        return Ok(Some(opq(&format!("anyhow:{}", head(from)), vec![av[0].clone()])));
                    }
                    if head(to) == "Box" && head(from) != "Box" && !matches!(head(from).as_str(), "Vec" | "String" | "ref" | "str") {
                        return Ok(Some(V::Bx(Rc::new(av[0].clone()), None)));
                    }
                    if head(to) == "Vec" && matches!(head(from).as_str(), "ref" | "array" | "Box") {
                        return Ok(Some(match &av[0] {
                            V::Arr(_) => av[0].clone(),
                            V::Ptr(_) => return self.slice_prim(st, cx, "to_vec", av),
                            V::Bx(x, _) => (**x).clone(),
                            _ => return Ok(None),
                        }));
                    }
                }
                return Ok(None);
            }
            "std::string::String::new" => V::Str(S::C("".into())),
            "std::string::String::as_str" | "std::string::String::as_mut_str" => V::Str(str_of(st, &av[0])?),
            "std::string::String::is_empty" => V::Bool(str_eq(&str_of(st, &av[0])?, &S::C("".into()))),
            "std::string::String::len" => V::Int(str_len(&str_of(st, &av[0])?)),
            "std::string::String::with_capacity" => V::Str(S::C("".into())),
            "std::string::String::push_str" => {
                let p = as_ptr(&av[0])?;
                let (a, c) = (str_of(st, &av[0])?, str_of(st, &av[1])?);
                let r = str_cat(&a, &c);
                st.write(&p, V::Str(r))?;
                unit()
            }
            "std::cmp::PartialEq::eq" | "std::cmp::PartialEq::ne" if cx.ty.len() >= 2 && strish(cx.ty[0]) && strish(cx.ty[1]) => {
                let (a, c) = (str_of(st, &av[0])?, str_of(st, &av[1])?);
                let q = str_eq(&a, &c);
                V::Bool(if nm.ends_with("eq") { q } else { q.not() })
            }
            "std::cmp::Ord::cmp" | "std::cmp::PartialOrd::partial_cmp" if cx.ty.first().map(|t| strish(*t)).unwrap_or(false) => {
                let (a, c) = (str_of(st, &av[0])?, str_of(st, &av[1])?);
                match (&a, &c) {
                    (S::C(x), S::C(y)) => {
                        let o = ord(x.cmp(y));
                        if nm.ends_with("partial_cmp") {
                            some(o)
                        } else {
                            o
                        }
                    }
                    _ => return fail("string comparison"),
                }
            }
            "std::str::FromStr::from_str" => {
                let s = str_of(st, &av[0])?;
                return self.parse(st, &s, cx.ty[0]).map(Some);
            }
            "std::mem::replace" => {
                let p = as_ptr(&av[0])?;
                let old = st.read(&p)?;
                st.write(&p, av[1].clone())?;
                old
            }
            "std::mem::swap" => {
                let (p, q) = (as_ptr(&av[0])?, as_ptr(&av[1])?);
                let (x, y) = (st.read(&p)?, st.read(&q)?);
                st.write(&p, y)?;
                st.write(&q, x)?;
                unit()
            }
            "std::mem::drop" | "std::mem::forget" | "std::hint::black_box" => {
                if nm.ends_with("black_box") {
                    av[0].clone()
                } else {
                    unit()
                }
            }
            "std::ptr::read" | "std::ptr::read_volatile" => deref(st, &av[0])?,
            "std::ptr::write" => {
                let p = as_ptr(&av[0])?;
                st.write(&p, av[1].clone())?;
                unit()
            }
            "std::ops::Index::index" | "std::ops::IndexMut::index_mut" => return self.index(st, cx, av),
            "std::iter::IntoIterator::into_iter" => match h0().as_str() {
                "Vec" | "array" => match &av[0] {
                    V::Arr(a) => opq("VIter", vec![av[0].clone(), int(0), V::Int(a.len.clone())]),
                    _ => return Ok(None),
                },
                "HashMap" | "HashSet" => match &av[0] {
                    V::Opq(o) if o.0 == "Map" => match &o.1[0] {
                        V::Arr(a) => {
                            let it = if h0() == "HashSet" { "VIterK" } else { "VIter" };
                            opq(it, vec![o.1[0].clone(), int(0), V::Int(a.len.clone())])
                        }
                        _ => return Ok(None),
                    },
                    _ => return Ok(None),
                },
                "ref" => match head(peel_refs(cx.ty[0])).as_str() {
                    "HashMap" | "HashSet" => return self.map_prim(st, cx, "std::collections::HashMap::iter", av),
                    "Vec" | "slice" | "array" => {
                        let (q, o, n) = seq(st, &av[0])?;
                        opq("SIter", vec![vptr(q), V::Int(o.clone()), V::Int(o.add(&n))])
                    }
                    _ => return Ok(None),
                },
                _ => return Ok(None),
            },
            "std::iter::Iterator::next" | "std::iter::DoubleEndedIterator::next_back" | "std::iter::Iterator::nth" | "std::iter::ExactSizeIterator::len" | "std::iter::Iterator::size_hint" => {
                return self.iter_next(st, cx, last_seg(nm), av);
            }
            "std::default::Default::default" => match h0().as_str() {
                "HashMap" | "HashSet" => new_map(),
                "Vec" => list(vec![]),
                "String" => V::Str(S::C("".into())),
                _ => return Ok(None),
            },
            "std::vec::from_elem" => {
                let n = as_int(&av[1])?;
                match n.is_const() {
                    Some(k) if k <= 64 => list(vec![av[0].clone(); k as usize]),
                    _ => V::Arr(Rc::new(Arr { len: n, body: AB::Tm { t: av[0].clone(), facts: vec![], ovl: vec![] } })),
                }
            }
            "std::slice::Iter::as_slice" => {
                let v = deref(st, &av[0])?;
                let V::Opq(o) = &v else { return Ok(None) };
                let (p, s, e) = (as_ptr(&o.1[0])?, as_int(&o.1[1])?, as_int(&o.1[2])?);
                slice_ptr(&p, s.clone(), e.sub(&s))
            }
            _ => return Ok(None),
        }))
    }

    fn iter_next(&mut self, st: &mut State, cx: &Cx, op: &str, av: &[V]) -> R<Option<V>> {
        let h = cx.ty.first().map(|t| head(*t)).unwrap_or_default();
        match h.as_str() {
            "Iter" | "IterMut" | "IntoIter" | "Drain" | "Split" | "SplitN" | "SplitWhitespace" | "Keys" | "Values" | "Windows" | "Chunks" | "Chars" | "ValuesMut" => {
                let p = as_ptr(&av[0])?;
                let V::Opq(o) = st.read(&p)? else { return Ok(None) };
                let kind = o.0.clone();
                if !matches!(kind.as_str(), "SIter" | "VIter" | "WIter" | "VIterK") && !kind.starts_with("MIter:") {
                    return Ok(None);
                }
                let (s, e) = (as_int(&o.1[1])?, as_int(&o.1[2])?);
                let item = |st: &mut State, i: &Lin| -> R<V> {
                    Ok(match kind.as_str() {
                        "SIter" => elem_ptr(&as_ptr(&o.1[0])?, i.clone()),
                        "WIter" => slice_ptr(&as_ptr(&o.1[0])?, i.clone(), as_int(&o.1[3])?),
                        "MIter:iter" | "MIter:keys" | "MIter:values" => {
                            let q = as_ptr(&o.1[0])?;
                            let fld = |n: u32| {
                                let mut r = q.clone();
                                r.proj.push(Pj::Elem(i.clone()));
                                r.proj.push(Pj::Field(n));
                                vptr(r)
                            };
                            match kind.as_str() {
                                "MIter:iter" => agg(vec![fld(0), fld(1)]),
                                "MIter:keys" => fld(0),
                                _ => fld(1),
                            }
                        }
                        "VIterK" => match &o.1[0] {
                            V::Arr(a) => match st.arr_get(a, i)? {
                                V::Agg(kv) => kv[0].clone(),
                                _ => return fail("set entry"),
                            },
                            _ => return fail("iterator buffer"),
                        },
                        _ => match &o.1[0] {
                            V::Arr(a) => st.arr_get(a, i)?,
                            _ => return fail("iterator buffer"),
                        },
                    })
                };
                let mk = |s: Lin, e: Lin| {
                    let mut v = o.1.clone();
                    v[1] = V::Int(s);
                    v[2] = V::Int(e);
                    opq(&kind, v)
                };
                match op {
                    "next" => {
                        if st.test(&B::Le(s.sub(&e).addk(1)))? {
                            let v = item(st, &s)?;
                            st.write(&p, mk(s.addk(1), e.clone()))?;
                            Ok(Some(some(v)))
                        } else {
                            Ok(Some(none()))
                        }
                    }
                    "next_back" => {
                        if st.test(&B::Le(s.sub(&e).addk(1)))? {
                            let i = e.addk(-1);
                            let v = item(st, &i)?;
                            st.write(&p, mk(s.clone(), i))?;
                            Ok(Some(some(v)))
                        } else {
                            Ok(Some(none()))
                        }
                    }
                    "nth" => {
                        let n = as_int(&av[1])?;
                        let i = s.add(&n);
                        if st.test(&B::Le(i.sub(&e).addk(1)))? {
                            let v = item(st, &i)?;
                            st.write(&p, mk(i.addk(1), e.clone()))?;
                            Ok(Some(some(v)))
                        } else {
                            st.write(&p, mk(e.clone(), e.clone()))?;
                            Ok(Some(none()))
                        }
                    }
                    "len" => Ok(Some(V::Int(e.sub(&s)))),
                    "size_hint" => Ok(Some(agg(vec![V::Int(e.sub(&s)), some(V::Int(e.sub(&s)))]))),
                    _ => Ok(None),
                }
            }
            "Range" if op == "next" || op == "next_back" || op == "nth" => {
                let p = as_ptr(&av[0])?;
                let V::Agg(a) = st.read(&p)? else { return Ok(None) };
                let (s, e) = (as_int(&a[0])?, as_int(&a[1])?);
                let i = if op == "nth" { s.add(&as_int(&av[1])?) } else { s.clone() };
                if st.test(&B::Le(i.sub(&e).addk(1)))? {
                    if op == "next_back" {
                        let k = e.addk(-1);
                        st.write(&p, agg(vec![V::Int(s), V::Int(k.clone())]))?;
                        Ok(Some(some(V::Int(k))))
                    } else {
                        st.write(&p, agg(vec![V::Int(i.addk(1)), V::Int(e)]))?;
                        Ok(Some(some(V::Int(i))))
                    }
                } else {
                    if op == "nth" {
                        st.write(&p, agg(vec![V::Int(e.clone()), V::Int(e)]))?;
                    }
                    Ok(Some(none()))
                }
            }
            "RangeInclusive" if op == "next" || op == "next_back" => {
                let p = as_ptr(&av[0])?;
                let V::Agg(a) = st.read(&p)? else { return Ok(None) };
                let (s, e) = (as_int(&a[0])?, as_int(&a[1])?);
                let V::Bool(x) = &a[2] else { return Ok(None) };
                if st.test(x)? || !st.test(&B::Le(s.sub(&e)))? {
                    return Ok(Some(none()));
                }
                let last = st.test_eq(&s, &e)?;
                let r = if op == "next" { s.clone() } else { e.clone() };
                let n = if last {
                    agg(vec![V::Int(s), V::Int(e), b(true)])
                } else if op == "next" {
                    agg(vec![V::Int(s.addk(1)), V::Int(e), b(false)])
                } else {
                    agg(vec![V::Int(s), V::Int(e.addk(-1)), b(false)])
                };
                st.write(&p, n)?;
                Ok(Some(some(V::Int(r))))
            }
            "RangeFrom" if op == "next" => {
                let p = as_ptr(&av[0])?;
                let V::Agg(a) = st.read(&p)? else { return Ok(None) };
                let s = as_int(&a[0])?;
                st.write(&p, agg(vec![V::Int(s.addk(1))]))?;
                Ok(Some(some(V::Int(s))))
            }
            _ => Ok(None),
        }
    }

    fn index(&mut self, st: &mut State, cx: &Cx, av: &[V]) -> R<Option<V>> {
        let h = head(cx.ty[0]);
        if !matches!(h.as_str(), "Vec" | "slice" | "array") {
            if h == "String" || h == "str" {
                if cx.ty.get(1).map(|t| head(*t) == "RangeFull").unwrap_or(false) {
                    return Ok(Some(V::Str(str_of(st, &av[0])?)));
                }
                let s = str_of(st, &av[0])?;
                let s = st.str_norm(&s);
                let n = str_len(&s);
                let (a, e) = match (cx.ty.get(1).map(|t| head(*t)).unwrap_or_default().as_str(), &av[1]) {
                    ("Range", V::Agg(v)) => (as_int(&v[0])?, as_int(&v[1])?),
                    ("RangeFrom", V::Agg(v)) => (as_int(&v[0])?, n.clone()),
                    ("RangeTo", V::Agg(v)) => (Lin::c(0), as_int(&v[0])?),
                    _ => return fail("string slicing"),
                };
                self.cond(st, cx, &B::Le(a.sub(&e)), "string slice order")?;
                self.cond(st, cx, &B::Le(e.sub(&n)), "string slice end out of range")?;
                return match crate::strs::slice(&s, &a, &e) {
                    Some(x) => Ok(Some(V::Str(x))),
                    None => fail("slice of an unknown string"),
                };
            }
            return Ok(None);
        }
        let (q, o, n) = seq(st, &av[0])?;
        let it = cx.ty[1];
        match head(it).as_str() {
            "usize" => {
                let i = as_int(&av[1])?;
                self.cond(st, cx, &B::Le(i.sub(&n).addk(1)), "index out of bounds")?;
                Ok(Some(elem_ptr(&q, o.add(&i))))
            }
            k => {
                let (a, e) = match (k, &av[1]) {
                    ("RangeFull", _) => (Lin::c(0), n.clone()),
                    ("Range", V::Agg(v)) => (as_int(&v[0])?, as_int(&v[1])?),
                    ("RangeFrom", V::Agg(v)) => (as_int(&v[0])?, n.clone()),
                    ("RangeTo", V::Agg(v)) => (Lin::c(0), as_int(&v[0])?),
                    ("RangeInclusive", V::Agg(v)) => (as_int(&v[0])?, as_int(&v[1])?.addk(1)),
                    ("RangeToInclusive", V::Agg(v)) => (Lin::c(0), as_int(&v[0])?.addk(1)),
                    _ => return Ok(None),
                };
                self.cond(st, cx, &B::Le(a.sub(&e)), "slice index order")?;
                self.cond(st, cx, &B::Le(e.sub(&n)), "slice end out of range")?;
                Ok(Some(slice_ptr(&q, o.add(&a), e.sub(&a))))
            }
        }
    }

    fn vec_prim(&mut self, st: &mut State, cx: &Cx, r: &str, av: &[V]) -> R<Option<V>> {
        Ok(Some(match r {
            "new" | "new_in" => list(vec![]),
            "with_capacity" | "with_capacity_in" | "reserve" | "reserve_exact" | "try_reserve" => {
                let n = as_int(&av[if r.starts_with("with") { 0 } else { 1 }])?;
                let sz = size_of(cx.ty[0]).unwrap_or(1).max(1) as i128;
                let cap = (i64::MAX as i128) / sz;
                if r != "try_reserve" {
                    self.cond(st, cx, &B::Le(n.addk(-cap)), "capacity overflow")?;
                }
                if r.starts_with("with") {
                    list(vec![])
                } else if r == "try_reserve" {
                    okv(unit())
                } else {
                    unit()
                }
            }
            "len" => V::Int(seq(st, &av[0])?.2),
            "capacity" => {
                let n = seq(st, &av[0])?.2;
                let c = fresh("cap", 0, 1 << 62);
                st.assume_le(n.sub(&c));
                V::Int(c)
            }
            "is_empty" => V::Bool(B::Eq(seq(st, &av[0])?.2)).simp(),
            "as_slice" | "as_mut_slice" => {
                let (q, o, n) = seq(st, &av[0])?;
                slice_ptr(&q, o, n)
            }
            "push" => {
                let (q, _, _) = seq(st, &av[0])?;
                self.vec_push(st, &q, av[1].clone())?;
                unit()
            }
            "pop" => {
                let (q, _, n) = seq(st, &av[0])?;
                if st.test(&B::Le(n.clone()))? {
                    return Ok(Some(none()));
                }
                let V::Arr(a) = st.read(&q)? else { return fail("pop") };
                let i = n.addk(-1);
                let v = st.arr_get(&a, &i)?;
                let mut a2 = (*a).clone();
                if let AB::List(l) = &mut a2.body {
                    l.pop();
                }
                a2.len = i;
                st.write(&q, V::Arr(Rc::new(a2)))?;
                some(v)
            }
            "clear" => {
                let (q, _, _) = seq(st, &av[0])?;
                st.write(&q, list(vec![]))?;
                unit()
            }
            "truncate" => {
                let (q, _, n) = seq(st, &av[0])?;
                let k = as_int(&av[1])?;
                if st.test(&B::Le(n.sub(&k)))? {
                    return Ok(Some(unit()));
                }
                self.set_len(st, &q, &k)?;
                unit()
            }
            "insert" => {
                let (q, _, n) = seq(st, &av[0])?;
                let i = as_int(&av[1])?;
                self.cond(st, cx, &B::Le(i.sub(&n)), "insertion index out of range")?;
                if st.test_eq(&i, &n)? {
                    self.vec_push(st, &q, av[2].clone())?;
                    return Ok(Some(unit()));
                }
                let V::Arr(a0) = st.read(&q)? else { return fail("insert") };
                if let (AB::Tm { .. }, false) = (&a0.body, self.exact) {
                    self.insert_summary(st, &q, &a0, &i, av[2].clone())?;
                    return Ok(Some(unit()));
                }
                self.materialize(st, &q)?;
                let V::Arr(a) = st.read(&q)? else { return fail("insert") };
                let AB::List(l) = &a.body else { return fail("insert") };
                for k in 0..l.len() {
                    if k + 1 == l.len() || st.test_eq(&i, &Lin::c(k as i128))? {
                        let mut l2 = l.clone();
                        l2.insert(k, av[2].clone());
                        st.write(&q, list(l2))?;
                        return Ok(Some(unit()));
                    }
                }
                return fail("insert");
            }
            "remove" | "swap_remove" => {
                let (q, _, n) = seq(st, &av[0])?;
                let i = as_int(&av[1])?;
                self.cond(st, cx, &B::Le(i.sub(&n).addk(1)), "removal index out of range")?;
                let V::Arr(a) = st.read(&q)? else { return fail("remove") };
                if let AB::Tm { t, facts, ovl } = &a.body {
                    let v = st.arr_get(&a, &i)?;
                    let lst = n.addk(-1);
                    if st.test_eq(&i, &lst)? {
                        self.set_len(st, &q, &lst)?;
                        return Ok(Some(v));
                    }
                    if r == "remove" && i.is_const() == Some(0) {
                        let j = atom(AK::BoundJ);
                        let j1 = Lin::a(j).addk(1);
                        let mut o2 = vec![];
                        for (k, x) in ovl {
                            if st.test_eq(k, &Lin::c(0))? {
                                continue;
                            }
                            o2.push((k.addk(-1), x.clone()));
                        }
                        let f2 = facts.iter().map(|f| lin_subst_deep(f, &|x| if x == j { Some(j1.clone()) } else { None })).collect();
                        st.write(&q, V::Arr(Rc::new(Arr { len: lst, body: AB::Tm { t: inst_v(t, &j1), facts: f2, ovl: o2 } })))?;
                        return Ok(Some(v));
                    }
                    if r == "swap_remove" {
                        let w = st.arr_get(&a, &lst)?;
                        let mut a2 = st.arr_set(&a, &i, w)?;
                        a2.len = lst;
                        st.write(&q, V::Arr(Rc::new(a2)))?;
                        return Ok(Some(v));
                    }
                    self.materialize(st, &q)?;
                }
                let V::Arr(a) = st.read(&q)? else { return fail("remove") };
                let AB::List(l) = &a.body else { return fail("remove") };
                for k in 0..l.len() {
                    if k + 1 == l.len() || st.test_eq(&i, &Lin::c(k as i128))? {
                        let mut l2 = l.clone();
                        let x = if r == "remove" { l2.remove(k) } else { l2.swap_remove(k) };
                        st.write(&q, list(l2))?;
                        return Ok(Some(x));
                    }
                }
                return fail("remove");
            }
            "append" => {
                let (p, _, n1) = seq(st, &av[0])?;
                let (q, _, n2) = seq(st, &av[1])?;
                if n2.is_const() == Some(0) {
                    return Ok(Some(unit()));
                }
                let V::Arr(src) = st.read(&q)? else { return fail("append") };
                if n1.is_const() == Some(0) {
                    st.write(&p, V::Arr(src))?;
                    st.write(&q, list(vec![]))?;
                    return Ok(Some(unit()));
                }
                self.materialize(st, &p)?;
                self.materialize(st, &q)?;
                let (V::Arr(x), V::Arr(y)) = (st.read(&p)?, st.read(&q)?) else { return fail("append") };
                let (AB::List(x), AB::List(y)) = (&x.body, &y.body) else { return fail("append") };
                let mut z = x.clone();
                z.extend(y.clone());
                st.write(&p, list(z))?;
                st.write(&q, list(vec![]))?;
                unit()
            }
            "drain" => {
                let (q, _, n) = seq(st, &av[0])?;
                let (a, e) = self.range_of(st, *cx.ty.last().unwrap(), &av[1], &n)?;
                self.cond(st, cx, &B::Le(a.sub(&e)), "slice index order")?;
                self.cond(st, cx, &B::Le(e.sub(&n)), "slice end out of range")?;
                let V::Arr(arr) = st.read(&q)? else { return fail("drain") };
                if st.test_eq(&e, &n)? {
                    // a tail
                    self.set_len(st, &q, &a)?;
                } else {
                    self.materialize(st, &q)?;
                    let V::Arr(arr) = st.read(&q)? else { return fail("drain") };
                    let AB::List(l) = &arr.body else { return fail("drain") };
                    let (a, e) = (self.concrete(st, &a, l.len())?, self.concrete(st, &e, l.len())?);
                    let mut l2 = l.clone();
                    let d: Vec<V> = l2.drain(a..e).collect();
                    st.write(&q, list(l2))?;
                    let k = d.len() as i128;
                    return Ok(Some(opq("VIter", vec![list(d), int(0), int(k)])));
                }
                opq("VIter", vec![V::Arr(arr), V::Int(a), V::Int(e)])
            }
            "split_off" => {
                let (q, _, n) = seq(st, &av[0])?;
                let i = as_int(&av[1])?;
                self.cond(st, cx, &B::Le(i.sub(&n)), "split index out of range")?;
                self.materialize(st, &q)?;
                let V::Arr(arr) = st.read(&q)? else { return fail("split_off") };
                let AB::List(l) = &arr.body else { return fail("split_off") };
                let k = self.concrete(st, &i, l.len())?;
                let mut l2 = l.clone();
                let t = l2.split_off(k);
                st.write(&q, list(l2))?;
                list(t)
            }
            "resize" => {
                let (q, _, n) = seq(st, &av[0])?;
                let k = as_int(&av[1])?;
                if st.test(&B::Le(k.sub(&n)))? {
                    self.set_len(st, &q, &k)?;
                    return Ok(Some(unit()));
                }
                return fail("resize");
            }
            "shrink_to_fit" => unit(),
            "into_boxed_slice" => V::Bx(Rc::new(av[0].clone()), None),
            "iter" | "iter_mut" => return self.slice_prim(st, cx, r, av),
            _ => return fail(format!("Vec::{r} is not modelled")),
        }))
    }
    fn concrete(&mut self, st: &mut State, i: &Lin, max: usize) -> R<usize> {
        for k in 0..=max {
            if k == max || st.test_eq(i, &Lin::c(k as i128))? {
                return Ok(k);
            }
        }
        Ok(max)
    }
    fn range_of(&mut self, _st: &mut State, t: Ty, v: &V, n: &Lin) -> R<(Lin, Lin)> {
        Ok(match (head(t).as_str(), v) {
            ("RangeFull", _) => (Lin::c(0), n.clone()),
            ("Range", V::Agg(v)) => (as_int(&v[0])?, as_int(&v[1])?),
            ("RangeFrom", V::Agg(v)) => (as_int(&v[0])?, n.clone()),
            ("RangeTo", V::Agg(v)) => (Lin::c(0), as_int(&v[0])?),
            ("RangeInclusive", V::Agg(v)) => (as_int(&v[0])?, as_int(&v[1])?.addk(1)),
            _ => return fail("range"),
        })
    }
    /// shorten a vector
    fn set_len(&mut self, st: &mut State, q: &PtrV, k: &Lin) -> R<()> {
        let V::Arr(a) = st.read(q)? else { return fail("set_len") };
        let mut a2 = (*a).clone();
        match &mut a2.body {
            AB::List(l) => {
                let n = l.len();
                let c = self.concrete(st, k, n)?;
                l.truncate(c);
                a2.len = Lin::c(c as i128);
            }
            AB::Tm { ovl, .. } => {
                let mut keep = vec![];
                for (i, v) in ovl.iter() {
                    // overlays beyond the new end disappear
                    match st.decide(&B::Le(k.sub(i))) {
                        Dec::True => {}
                        _ => keep.push((i.clone(), v.clone())),
                    }
                }
                *ovl = keep;
                a2.len = k.clone();
            }
        }
        st.write(q, V::Arr(Rc::new(a2)))
    }
    pub fn vec_push(&mut self, st: &mut State, q: &PtrV, v: V) -> R<()> {
        let V::Arr(a) = st.read(q)? else { return fail("push") };
        let mut a2 = (*a).clone();
        match &mut a2.body {
            AB::List(l) => {
                l.push(v);
                a2.len = Lin::c(l.len() as i128);
            }
            AB::Tm { ovl, .. } => {
                let mut idx = a.len.clone();
                let same = if crate::join::mentions_sk(&v) {
                    crate::join::sk_equal(st, &idx)
                } else {
                    None
                };
                if let Some(x) = same {
                    // copied to its own position
                    idx = Lin::a(x);
                } else if crate::join::mentions_sk(&v) {
                    let u = uniq();
                    let s = Lin::a(atom(AK::Sym { tag: format!("sk_p{u}"), lo: 0, hi: VLEN, phi: true }));
                    st.assume_eq(s.sub(&idx));
                    idx = s;
                }
                ovl.retain(|(i, _)| !matches!(st.decide(&B::Le(a.len.sub(i))), Dec::True));
                ovl.push((idx, v));
                a2.len = a.len.addk(1);
                // vectors never exceed the addressable size
                st.assume_le(a2.len.addk(-VLEN));
            }
        }
        st.write(q, V::Arr(Rc::new(a2)))
    }
    /// insertion into a summarised vector: positions shift by an unknown amount
    fn insert_summary(&mut self, _st: &mut State, _q: &PtrV, _a: &Arr, _i: &Lin, _v: V) -> R<()> {
        fail("insertion into a summarised vector")
    }

    fn slice_prim(&mut self, st: &mut State, cx: &Cx, r: &str, av: &[V]) -> R<Option<V>> {
        if matches!(r, "to_vec" | "into_vec") && matches!(av[0], V::Bx(..)) {
            let V::Bx(c, _) = &av[0] else { unreachable!() };
            return Ok(Some(find_arr(c).unwrap_or((**c).clone())));
        }
        let (q, o, n) = match seq(st, &av[0]) {
            Ok(x) => x,
            Err(e) => return Err(e),
        };
        Ok(Some(match r {
            "iter" | "iter_mut" => opq("SIter", vec![vptr(q), V::Int(o.clone()), V::Int(o.add(&n))]),
            "len" => V::Int(n),
            "is_empty" => V::Bool(B::Eq(n)).simp(),
            "first" | "first_mut" => {
                if st.test(&B::Le(n))? {
                    none()
                } else {
                    some(elem_ptr(&q, o))
                }
            }
            "last" | "last_mut" => {
                if st.test(&B::Le(n.clone()))? {
                    none()
                } else {
                    some(elem_ptr(&q, o.add(&n).addk(-1)))
                }
            }
            "get" | "get_mut" => {
                let it = *cx.ty.get(1).unwrap_or(&cx.ty[0]);
                match head(it).as_str() {
                    "usize" => {
                        let i = as_int(&av[1])?;
                        if st.test(&B::Le(i.sub(&n).addk(1)))? {
                            some(elem_ptr(&q, o.add(&i)))
                        } else {
                            none()
                        }
                    }
                    _ => {
                        let (a, e) = self.range_of(st, it, &av[1], &n)?;
                        if st.test(&B::Le(a.sub(&e)))? && st.test(&B::Le(e.sub(&n)))? {
                            some(slice_ptr(&q, o.add(&a), e.sub(&a)))
                        } else {
                            none()
                        }
                    }
                }
            }
            "get_unchecked" | "get_unchecked_mut" => {
                let i = as_int(&av[1])?;
                self.cond(st, cx, &B::Le(i.sub(&n).addk(1)), "unchecked index out of bounds")?;
                elem_ptr(&q, o.add(&i))
            }
            "split_at" | "split_at_mut" => {
                let i = as_int(&av[1])?;
                self.cond(st, cx, &B::Le(i.sub(&n)), "split index out of range")?;
                agg(vec![slice_ptr(&q, o.clone(), i.clone()), slice_ptr(&q, o.add(&i), n.sub(&i))])
            }
            "split_first" => {
                if st.test(&B::Le(n.clone()))? {
                    none()
                } else {
                    some(agg(vec![elem_ptr(&q, o.clone()), slice_ptr(&q, o.addk(1), n.addk(-1))]))
                }
            }
            "split_last" => {
                if st.test(&B::Le(n.clone()))? {
                    none()
                } else {
                    some(agg(vec![elem_ptr(&q, o.add(&n).addk(-1)), slice_ptr(&q, o, n.addk(-1))]))
                }
            }
            "windows" => {
                let k = as_int(&av[1])?;
                // starts o ..= o+n-k
                if !st.test(&B::Le(k.sub(&n)))? {
                    return Ok(Some(opq("WIter", vec![vptr(q), int(0), int(0), V::Int(k)])));
                }
                opq("WIter", vec![vptr(q), V::Int(o.clone()), V::Int(o.add(&n).sub(&k).addk(1)), V::Int(k)])
            }
            "to_vec" | "into_vec" | "to_owned" => {
                let V::Arr(a) = st.read(&q)? else { return fail("to_vec") };
                if o.is_const() == Some(0) && n == a.len {
                    return Ok(Some(V::Arr(a)));
                }
                match &a.body {
                    AB::List(l) => {
                        let s = self.concrete(st, &o, l.len())?;
                        let e = self.concrete(st, &o.add(&n), l.len())?;
                        list(l[s..e].to_vec())
                    }
                    AB::Tm { t, facts, ovl } => {
                        let j = atom(AK::BoundJ);
                        let jo = Lin::a(j).add(&o);
                        let f2 = facts.iter().map(|f| lin_subst_deep(f, &|x| if x == j { Some(jo.clone()) } else { None })).collect();
                        V::Arr(Rc::new(Arr { len: n, body: AB::Tm { t: inst_v(t, &jo), facts: f2, ovl: ovl.iter().map(|(i, v)| (i.sub(&o), v.clone())).collect() } }))
                    }
                }
            }
            "swap" => {
                let (i, k) = (as_int(&av[1])?, as_int(&av[2])?);
                self.cond(st, cx, &B::Le(i.sub(&n).addk(1)), "index out of bounds")?;
                self.cond(st, cx, &B::Le(k.sub(&n).addk(1)), "index out of bounds")?;
                let (pi, pk) = (ptr_push(&q, Pj::Elem(o.add(&i))), ptr_push(&q, Pj::Elem(o.add(&k))));
                let (x, y) = (st.read(&pi)?, st.read(&pk)?);
                st.write(&pi, y)?;
                st.write(&pk, x)?;
                unit()
            }
            "reverse" => {
                let V::Arr(a) = st.read(&q)? else { return fail("reverse") };
                match &a.body {
                    AB::List(l) => {
                        let s = self.concrete(st, &o, l.len())?;
                        let e = self.concrete(st, &o.add(&n), l.len())?;
                        let mut l2 = l.clone();
                        l2[s..e].reverse();
                        st.write(&q, list(l2))?;
                    }
                    AB::Tm { t, facts, ovl } => {
                        if o.is_const() != Some(0) || n != a.len {
                            return fail("reverse of a sub-slice");
                        }
                        let j = atom(AK::BoundJ);
                        let rj = n.addk(-1).sub(&Lin::a(j));
                        let f2 = facts.iter().map(|f| lin_subst_deep(f, &|x| if x == j { Some(rj.clone()) } else { None })).collect();
                        let o2 = ovl.iter().map(|(i, v)| (n.addk(-1).sub(i), v.clone())).collect();
                        st.write(&q, V::Arr(Rc::new(Arr { len: n, body: AB::Tm { t: inst_v(t, &rj), facts: f2, ovl: o2 } })))?;
                    }
                }
                unit()
            }
            "as_ptr" | "as_mut_ptr" => elem_ptr(&q, o),
            _ => return fail(format!("slice::{r} is not modelled")),
        }))
    }

    fn str_prim(&mut self, st: &mut State, cx: &Cx, r: &str, av: &[V]) -> R<Option<V>> {
        use crate::strs;
        let s = str_of(st, &av[0])?;
        let s = st.str_norm(&s);
        let pat = |st: &mut State, v: &V| -> R<S> {
            Ok(match v {
                V::Int(l) => match l.is_const().and_then(|k| char::from_u32(k as u32)) {
                    Some(c) => strs::cs(&c.to_string()),
                    None => return fail("unknown character as a pattern"),
                },
                V::Str(_) | V::Ptr(_) => {
                    let p = str_of(st, v)?;
                    st.str_norm(&p)
                }
                _ => return fail("string pattern"),
            })
        };
        let kpat = |st: &mut State, v: &V| -> R<String> {
            match pat(st, v)? {
                S::C(c) => Ok(c.to_string()),
                _ => fail("unknown text as a pattern"),
            }
        };
        let c = match &s {
            S::C(c) => Some(c.to_string()),
            _ => None,
        };
        let lst = |v: Vec<V>| {
            let n = v.len() as i128;
            opq("VIter", vec![list(v), int(0), int(n)])
        };
        let strs_ = |v: Vec<S>| v.into_iter().map(V::Str).collect::<Vec<_>>();
        Ok(Some(match r {
            "len" => V::Int(str_len(&s)),
            "is_empty" => V::Bool(str_eq(&s, &strs::cs(""))),
            "as_str" | "as_ref" | "to_string" | "to_owned" | "into_string" => V::Str(s),
            "trim" => V::Str(strs::trim(&s, true, true)),
            "trim_start" => V::Str(strs::trim(&s, true, false)),
            "trim_end" => V::Str(strs::trim(&s, false, true)),
            "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase" => V::Str(match &c {
                Some(c) if r.ends_with("lowercase") => strs::cs(&c.to_lowercase()),
                Some(c) => strs::cs(&c.to_uppercase()),
                None => S::App(if r.ends_with("lowercase") { "lower" } else { "upper" }, vec![s.clone()]),
            }),
            "eq_ignore_ascii_case" => match (&c, str_of(st, &av[1])?) {
                (Some(c), S::C(p)) => b(c.eq_ignore_ascii_case(&p)),
                (_, p) => V::Bool(B::Pred(format!("eqcase:{}:{}", s.show(), p.show()).into())),
            },
            "starts_with" => {
                let p = pat(st, &av[1])?;
                V::Bool(strs::starts_with(&s, &p).0)
            }
            "ends_with" => {
                let p = pat(st, &av[1])?;
                V::Bool(strs::ends_with(&s, &p))
            }
            "contains" => {
                let p = pat(st, &av[1])?;
                V::Bool(strs::contains(&s, &p))
            }
            "split" => match strs::split(&s, &kpat(st, &av[1])?, None) {
                Some(v) => lst(strs_(v)),
                None => return fail("split of an unknown string"),
            },
            "rsplit" => match strs::split(&s, &kpat(st, &av[1])?, None) {
                Some(v) => lst(strs_(v.into_iter().rev().collect())),
                None => return fail("split of an unknown string"),
            },
            "split_terminator" => match strs::split(&s, &kpat(st, &av[1])?, None) {
                Some(mut v) => {
                    if v.last() == Some(&strs::cs("")) {
                        v.pop();
                    }
                    lst(strs_(v))
                }
                None => return fail("split of an unknown string"),
            },
            "splitn" => {
                let V::Int(n) = &av[1] else { return fail("splitn") };
                match (n.is_const(), kpat(st, &av[2])?) {
                    (Some(n), p) if n > 0 => match strs::split(&s, &p, Some(n as usize)) {
                        Some(v) => lst(strs_(v)),
                        None => return fail("splitn of an unknown string"),
                    },
                    _ => return fail("splitn"),
                }
            }
            "split_once" | "rsplit_once" => match strs::split_once(&s, &kpat(st, &av[1])?, r == "rsplit_once") {
                Some(Some((x, y))) => some(agg(vec![V::Str(x), V::Str(y)])),
                Some(None) => none(),
                None => return fail("split_once of an unknown string"),
            },
            "strip_prefix" => {
                let p = pat(st, &av[1])?;
                match strs::starts_with(&s, &p) {
                    (_, Some(x)) => some(V::Str(x)),
                    (B::C(false), _) => none(),
                    (q, _) => {
                        if st.test(&q)? {
                            some(V::Str(S::App("strip_prefix", vec![s.clone(), p])))
                        } else {
                            none()
                        }
                    }
                }
            }
            "strip_suffix" => {
                let p = pat(st, &av[1])?;
                match (&c, &p) {
                    (Some(c), S::C(p)) => match c.strip_suffix(&**p) {
                        Some(x) => some(V::Str(strs::cs(x))),
                        None => none(),
                    },
                    _ => {
                        let q = strs::ends_with(&s, &p);
                        if st.test(&q)? {
                            some(V::Str(S::App("strip_suffix", vec![s.clone(), p])))
                        } else {
                            none()
                        }
                    }
                }
            }
            "find" | "rfind" => match strs::find(&s, &kpat(st, &av[1])?, r == "rfind") {
                Some(Some(x)) => some(V::Int(x)),
                Some(None) => none(),
                None => return fail("find in an unknown string"),
            },
            "split_at" => {
                let V::Int(i) = &av[1] else { return fail("split_at") };
                match (strs::slice(&s, &Lin::c(0), i), strs::slice(&s, i, &str_len(&s))) {
                    (Some(x), Some(y)) => agg(vec![V::Str(x), V::Str(y)]),
                    _ => return fail("split_at in an unknown string"),
                }
            }
            "chars" => match &c {
                Some(c) => lst(c.chars().map(|x| int(x as i128)).collect()),
                None => return fail("chars of a symbolic string"),
            },
            "bytes" | "as_bytes" => match &c {
                Some(c) if r == "bytes" => lst(c.bytes().map(|x| int(x as i128)).collect()),
                _ => return fail("bytes of a string"),
            },
            "parse" => {
                let t = match rigid(cx.dt) {
                    RigidTy::Adt(_, a) => ty_args(&a)[0],
                    _ => return Ok(None),
                };
                return self.parse(st, &s, t).map(Some);
            }
            _ => return fail(format!("str::{r} is not modelled")),
        }))
    }
    fn parse(&mut self, st: &mut State, s: &S, t: Ty) -> R<V> {
        let bad = || errv(opq("parse error", vec![]));
        let s = &st.str_norm(s);
        match head(t).as_str() {
            "String" => return Ok(okv(V::Str(s.clone()))),
            "bool" => {
                for (k, x) in [("true", true), ("false", false)] {
                    if st.test(&str_eq(s, &S::C(k.into())))? {
                        return Ok(okv(b(x)));
                    }
                }
                return Ok(bad());
            }
            _ => {}
        }
        match s {
            S::C(c) => {
                if is_float(t) {
                    return Ok(match c.parse::<f64>() {
                        Ok(x) => okv(V::F(if head(t) == "f32" { fc(x as f32 as f64) } else { fc(x) })),
                        Err(_) => bad(),
                    });
                }
                match int_range(t) {
                    Some((lo, hi)) => Ok(match c.parse::<i128>() {
                        Ok(x) if x >= lo && x <= hi && !(lo == 0 && c.starts_with('-')) => okv(int(x)),
                        _ => bad(),
                    }),
                    None => fail("parse"),
                }
            }
            o if crate::strs::never_number(o) => Ok(bad()),
            o => {
                let ty = match head(t).as_str() {
                    "usize" => "u64".to_string(),
                    "isize" => "i64".to_string(),
                    "f32" => "f64".to_string(),
                    o => o.to_string(),
                };
                let p: Rc<str> = format!("parse-ok:{ty}:{}", o.show()).into();
                if !st.test(&B::Pred(p))? {
                    return Ok(bad());
                }
                if is_float(t) {
                    return Ok(okv(V::F(ft(FN::Sym { tag: format!("f64parse:{}", o.show()), nan: false, phi: false }))));
                }
                let Some((lo, hi)) = int_range(t) else { return fail("parse") };
                Ok(okv(V::Int(Lin::a(atom(AK::Sym { tag: format!("parse:{ty}:{}", o.show()), lo, hi, phi: false })))))
            }
        }
    }

    fn float_prim(&mut self, st: &mut State, r: &str, av: &[V]) -> R<Option<V>> {
        let arg = |st: &mut State, i: usize| -> R<FT> {
            match &av[i] {
                V::Ptr(p) => as_f(&st.read(p)?),
                o => as_f(o),
            }
        };
        if av.is_empty() {
            return Ok(None);
        }
        if let V::Unk = av[0] {
            return Ok(Some(V::Unk));
        }
        let k1 = |x: FT, f: fn(f64) -> f64, n: &'static str| -> V {
            match fconst(x) {
                Some(c) => V::F(fc(f(c))),
                None => V::F(ft(FN::Un(n, x))),
            }
        };
        Ok(Some(match r {
            "abs" | "fabs" => k1(arg(st, 0)?, f64::abs, "abs"),
            "exp" => k1(arg(st, 0)?, f64::exp, "exp"),
            "exp2" => k1(arg(st, 0)?, f64::exp2, "exp2"),
            "ln" => k1(arg(st, 0)?, f64::ln, "ln"),
            "log2" => k1(arg(st, 0)?, f64::log2, "log2"),
            "log10" => k1(arg(st, 0)?, f64::log10, "log10"),
            "sqrt" => k1(arg(st, 0)?, f64::sqrt, "sqrt"),
            "floor" => k1(arg(st, 0)?, f64::floor, "floor"),
            "ceil" => k1(arg(st, 0)?, f64::ceil, "ceil"),
            "round" => k1(arg(st, 0)?, f64::round, "round"),
            "trunc" => k1(arg(st, 0)?, f64::trunc, "trunc"),
            "recip" => V::F(f_bin("div", fc(1.0), arg(st, 0)?)),
            "powf" => {
                let (x, y) = (arg(st, 0)?, arg(st, 1)?);
                match (fconst(x), fconst(y)) {
                    (Some(a), Some(c)) => V::F(fc(a.powf(c))),
                    (_, Some(c)) if c == 1.0 => V::F(x),
                    (_, Some(c)) if c == 2.0 => V::F(f_bin("mul", x, x)),
                    _ => V::F(ft(FN::Bin("powf", x, y))),
                }
            }
            "powi" => {
                let x = arg(st, 0)?;
                match as_int(&av[1])?.is_const() {
                    Some(0) => V::F(fc(1.0)),
                    Some(1) => V::F(x),
                    Some(2) => V::F(f_bin("mul", x, x)),
                    Some(3) => V::F(f_bin("mul", f_bin("mul", x, x), x)),
                    _ => V::F(ft(FN::Bin("powf", x, ft(FN::I2F(as_int(&av[1])?.clone()))))),
                }
            }
            "log" => {
                let (x, y) = (arg(st, 0)?, arg(st, 1)?);
                if fconst(y) == Some(2.0) {
                    return Ok(Some(k1(x, f64::log2, "log2")));
                }
                V::F(f_bin("div", ft(FN::Un("ln", x)), ft(FN::Un("ln", y))))
            }
            "mul_add" => {
                let (x, y, z) = (arg(st, 0)?, arg(st, 1)?, arg(st, 2)?);
                V::F(f_bin("add", f_bin("mul", x, y), z))
            }
            "max" | "maximum" => {
                let (x, y) = (arg(st, 0)?, arg(st, 1)?);
                if nan_root(x).is_some() || nan_root(y).is_some() {
                    return fail("max of a possible NaN");
                }
                V::F(if st.test(&B::F(FR::Le, x, y))? { y } else { x })
            }
            "min" | "minimum" => {
                let (x, y) = (arg(st, 0)?, arg(st, 1)?);
                if nan_root(x).is_some() || nan_root(y).is_some() {
                    return fail("min of a possible NaN");
                }
                V::F(if st.test(&B::F(FR::Le, x, y))? { x } else { y })
            }
            "total_cmp" => {
                let (x, y) = (arg(st, 0)?, arg(st, 1)?);
                for z in [x, y] {
                    if let Some(n) = nan_root(z) {
                        if st.test(&B::Pred(format!("nan:{n}").into()))? {
                            return fail("total_cmp of NaN");
                        }
                    }
                }
                if st.test(&B::F(FR::Lt, x, y))? {
                    ord(std::cmp::Ordering::Less)
                } else if st.test(&B::F(FR::Lt, y, x))? {
                    ord(std::cmp::Ordering::Greater)
                } else {
                    ord(std::cmp::Ordering::Equal)
                }
            }
            "is_nan" => {
                let x = arg(st, 0)?;
                match nan_root(x) {
                    None => b(fconst(x).map(|c| c.is_nan()).unwrap_or(false)),
                    Some(n) => V::Bool(B::Pred(format!("nan:{n}").into())),
                }
            }
            "is_finite" | "is_infinite" => {
                let x = arg(st, 0)?;
                if let Some(c) = fconst(x) {
                    return Ok(Some(b(if r == "is_finite" { c.is_finite() } else { c.is_infinite() })));
                }
                if let Some(n) = nan_root(x) {
                    if st.test(&B::Pred(format!("nan:{n}").into()))? {
                        return Ok(Some(b(false)));
                    }
                }
                let p = B::Pred(format!("inf:{x}").into());
                V::Bool(if r == "is_finite" { p.not() } else { p })
            }
            "is_sign_negative" | "is_sign_positive" => {
                let x = arg(st, 0)?;
                let neg = B::F(FR::Lt, x, fc(0.0));
                V::Bool(if r == "is_sign_negative" { neg } else { neg.not() })
            }
            "signum" => {
                let x = arg(st, 0)?;
                V::F(fc(if st.test(&B::F(FR::Lt, x, fc(0.0)))? { -1.0 } else { 1.0 }))
            }
            "clamp" => {
                let (x, lo, hi) = (arg(st, 0)?, arg(st, 1)?, arg(st, 2)?);
                V::F(if st.test(&B::F(FR::Lt, x, lo))? {
                    lo
                } else if st.test(&B::F(FR::Lt, hi, x))? {
                    hi
                } else {
                    x
                })
            }
            _ => return Ok(None),
        }))
    }

    fn int_prim(&mut self, st: &mut State, cx: &Cx, r: &str, av: &[V]) -> R<Option<V>> {
        let op = match r {
            "checked_add" | "saturating_add" | "wrapping_add" | "overflowing_add" => BinOp::Add,
            "checked_sub" | "saturating_sub" | "wrapping_sub" | "overflowing_sub" => BinOp::Sub,
            "checked_mul" | "saturating_mul" | "wrapping_mul" => BinOp::Mul,
            "checked_div" | "checked_rem" => {
                let (x, y) = (as_int(&av[0])?, as_int(&av[1])?);
                if st.test(&B::Eq(y.clone()))? {
                    return Ok(Some(none()));
                }
                let q = self.int_arith(st, if r == "checked_div" { BinOp::Div } else { BinOp::Rem }, &x, &y)?;
                return Ok(Some(some(V::Int(q))));
            }
            "abs_diff" => {
                let (x, y) = (as_int(&av[0])?, as_int(&av[1])?);
                return Ok(Some(V::Int(if st.test(&B::Le(x.sub(&y)))? { y.sub(&x) } else { x.sub(&y) })));
            }
            _ => return Ok(None),
        };
        let t = match rigid(cx.dt) {
            RigidTy::Adt(_, a) => ty_args(&a)[0],
            RigidTy::Tuple(t) => t[0],
            _ => cx.dt,
        };
        let Some((lo, hi)) = int_range(t) else { return Ok(None) };
        let (x, y) = (as_int(&av[0])?, as_int(&av[1])?);
        let v = self.int_arith(st, op, &x, &y)?;
        let below = !st.test(&B::Le(v.neg().addk(lo)))?;
        let above = !below && !st.test(&B::Le(v.addk(-hi)))?;
        Ok(Some(match r.split('_').next().unwrap() {
            "checked" => {
                if below || above {
                    none()
                } else {
                    some(V::Int(v))
                }
            }
            "saturating" => {
                if below {
                    int(lo)
                } else if above {
                    int(hi)
                } else {
                    V::Int(v)
                }
            }
            "wrapping" => {
                if below {
                    V::Int(v.addk(hi - lo + 1))
                } else if above {
                    if op == BinOp::Mul {
                        return fail("wrapping multiplication");
                    }
                    V::Int(v.addk(-(hi - lo + 1)))
                } else {
                    V::Int(v)
                }
            }
            _ => return Ok(None),
        }))
    }

    fn intrinsic(&mut self, st: &mut State, cx: &Cx, n: &str, av: &[V]) -> R<Option<V>> {
        Ok(Some(match n {
            "assume" => {
                if let V::Bool(c) = &av[0] {
                    st.assume(c, true);
                }
                unit()
            }
            "likely" | "unlikely" | "black_box" => av[0].clone(),
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => unit(),
            "needs_drop" => b(false),
            "ub_checks" | "contract_checks" | "overflow_checks" | "is_val_statically_known" => b(n == "overflow_checks"),
            "size_of" => int(size_of(cx.ty[0])? as i128),
            "align_of" | "min_align_of" => int(8),
            "three_way_compare" => ord(st.cmp(&as_int(&av[0])?, &as_int(&av[1])?)?),
            "transmute" | "transmute_unchecked" => return self.cast(st, &CastKind::Transmute, av[0].clone(), cx.ty[0], cx.ty[1]).map(Some),
            "discriminant_value" => {
                let v = deref(st, &av[0])?;
                self.discr(&v, cx.ty[0])?
            }
            "read_via_copy" | "volatile_load" => deref(st, &av[0])?,
            "write_via_move" => {
                let p = as_ptr(&av[0])?;
                st.write(&p, av[1].clone())?;
                unit()
            }
            "saturating_add" | "saturating_sub" | "wrapping_add" | "wrapping_sub" | "wrapping_mul" => return self.int_prim(st, cx, n, av),
            "unchecked_add" => V::Int(as_int(&av[0])?.add(&as_int(&av[1])?)),
            "unchecked_sub" => V::Int(as_int(&av[0])?.sub(&as_int(&av[1])?)),
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (lo, hi) = int_range(cx.ty[0]).unwrap_or((0, USIZE_MAX));
                let op = match n {
                    "add_with_overflow" => BinOp::Add,
                    "sub_with_overflow" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let v = self.int_arith(st, op, &as_int(&av[0])?, &as_int(&av[1])?)?;
                let o = !(st.test(&B::Le(v.neg().addk(lo)))? && st.test(&B::Le(v.addk(-hi)))?);
                agg(vec![V::Int(v), b(o)])
            }
            "fabsf32" | "fabsf64" | "fabs" => return self.float_prim(st, "abs", av),
            "powf32" | "powf64" => return self.float_prim(st, "powf", av),
            "powif32" | "powif64" => return self.float_prim(st, "powi", av),
            "expf32" | "expf64" => return self.float_prim(st, "exp", av),
            "exp2f32" => return self.float_prim(st, "exp2", av),
            "logf32" | "logf64" => return self.float_prim(st, "ln", av),
            "log2f32" | "log2f64" => return self.float_prim(st, "log2", av),
            "log10f32" => return self.float_prim(st, "log10", av),
            "sqrtf32" | "sqrtf64" => return self.float_prim(st, "sqrt", av),
            "floorf32" => return self.float_prim(st, "floor", av),
            "ceilf32" => return self.float_prim(st, "ceil", av),
            "truncf32" => return self.float_prim(st, "trunc", av),
            "fmaf32" => return self.float_prim(st, "mul_add", av),
            "maxnumf32" | "maximum_number_nsz_f32" => return self.float_prim(st, "max", av),
            "minnumf32" | "minimum_number_nsz_f32" => return self.float_prim(st, "min", av),
            "ptr_metadata" => match &av[0] {
                V::Ptr(p) => match &p.meta {
                    Meta::Slice(_, n) => V::Int(n.clone()),
                    _ => unit(),
                },
                _ => return Ok(None),
            },
            _ => return Ok(None),
        }))
    }

    fn map_prim(&mut self, st: &mut State, cx: &Cx, nm: &str, av: &[V]) -> R<Option<V>> {
        let r = last_seg(nm);
        let set = nm.contains("HashSet");
        if nm.contains("Entry") {
            let V::Opq(o) = &av[0] else { return Ok(None) };
            if o.0 != "Entry" {
                return Ok(None);
            }
            let (mp, key) = (o.1[0].clone(), o.1[1].clone());
            return Ok(Some(match r {
                "or_insert" | "or_default" => {
                    if let Some(s) = entry_slot(&o.1[2]) {
                        return Ok(Some(s));
                    }
                    let v = if r == "or_insert" {
                        av[1].clone()
                    } else {
                        match rigid(peel_refs(cx.dt)) {
                            RigidTy::Uint(_) | RigidTy::Int(_) => int(0),
                            RigidTy::Float(_) => V::F(fc(0.0)),
                            RigidTy::Adt(..) if head(peel_refs(cx.dt)) == "Vec" => list(vec![]),
                            _ => return fail("or_default"),
                        }
                    };
                    self.map_append(st, &mp, &key, v)?
                }
                _ => return Ok(None),
            }));
        }
        Ok(Some(match r {
            "new" | "with_capacity" | "with_hasher" | "with_capacity_and_hasher" => new_map(),
            "reserve" | "shrink_to_fit" => unit(),
            "entry" => {
                let s = match self.map_slot(st, &av[0], &av[1])? {
                    Some(s) => some(s),
                    None => none(),
                };
                opq("Entry", vec![av[0].clone(), av[1].clone(), s])
            }
            "get" | "get_mut" => {
                let k = deref(st, &av[1])?;
                match self.map_slot(st, &av[0], &k)? {
                    Some(s) => some(s),
                    None => none(),
                }
            }
            "contains_key" | "contains" => {
                let k = deref(st, &av[1])?;
                b(self.map_slot(st, &av[0], &k)?.is_some())
            }
            "insert" => {
                let v = if set { unit() } else { av[2].clone() };
                match self.map_slot(st, &av[0], &av[1])? {
                    Some(s) => {
                        let o = deref(st, &s)?;
                        let V::Ptr(sp) = &s else { return fail("map slot") };
                        st.write(sp, v)?;
                        if set { b(false) } else { some(o) }
                    }
                    None => {
                        self.map_append(st, &av[0], &av[1], v)?;
                        if set { b(true) } else { none() }
                    }
                }
            }
            "remove" => {
                let k = deref(st, &av[1])?;
                let p = as_ptr(&av[0])?;
                let Some(s) = self.map_slot(st, &av[0], &k)? else {
                    return Ok(Some(if set { b(false) } else { none() }));
                };
                let v = deref(st, &s)?;
                let V::Ptr(sp) = &s else { return fail("map") };
                let (q, a) = self.map_ents(st, &av[0])?;
                let AB::List(l) = &a.body else { return fail("removal from a summarised map") };
                let Pj::Elem(i) = &sp.proj[sp.proj.len() - 2] else { return fail("map") };
                let Some(i) = i.is_const() else { return fail("map") };
                let mut l = l.clone();
                l.remove(i as usize);
                st.write(&q, list(l))?;
                if set {
                    b(true)
                } else {
                    some(v)
                }
            }
            "len" => {
                let (_, a) = self.map_ents(st, &av[0])?;
                V::Int(a.len.clone())
            }
            "is_empty" => {
                let (_, a) = self.map_ents(st, &av[0])?;
                V::Bool(st_eq0(&a.len))
            }
            "clear" => {
                let p = as_ptr(&av[0])?;
                st.write(&p, new_map())?;
                unit()
            }
            "iter" | "keys" | "values" | "iter_mut" | "values_mut" => {
                let (q, a) = self.map_ents(st, &av[0])?;
                let kind = if set && r == "iter" { "keys" } else { r };
                opq(&format!("MIter:{}", kind.trim_end_matches("_mut")), vec![vptr(q), int(0), V::Int(a.len.clone())])
            }
            "into_keys" | "into_values" | "drain" => return fail(format!("HashMap::{r}")),
            "from_iter" => return Ok(None),
            _ => return Ok(None),
        }))
    }

    fn anyhow_prim(&mut self, st: &mut State, cx: &Cx, nm: &str, av: &[V]) -> R<Option<V>> {
        let r = last_seg(nm);
        Ok(Some(match r {
            "new" | "msg" if nm.contains("Error") => {
                let t = cx.ty.first().map(|t| head(*t)).unwrap_or_default();
                opq(&format!("anyhow:{t}"), vec![av[0].clone()])
            }
            "format_err" => opq("anyhow:fmt", vec![]),
            "downcast_ref" => {
                let want = cx.ty.first().map(|t| head(*t)).unwrap_or_default();
                let V::Opq(o) = deref(st, &av[0])? else { return fail("downcast") };
                if o.0 == format!("anyhow:{want}") {
                    some(cptr(o.1[0].clone()))
                } else {
                    none()
                }
            }
            "is" => {
                let want = cx.ty.first().map(|t| head(*t)).unwrap_or_default();
                let V::Opq(o) = deref(st, &av[0])? else { return fail("downcast") };
                b(o.0 == format!("anyhow:{want}"))
            }
            "context" | "with_context" => match &av[0] {
                V::Enum(k, a) => {
                    let t = cx.ty.first().map(|t| head(*t)).unwrap_or_default();
                    match (t.as_str(), k) {
                        ("Result", 0) => av[0].clone(),
                        ("Option", 1) => okv(a[0].clone()),
                        _ => errv(opq("anyhow:context", vec![])),
                    }
                }
                _ => return fail("context"),
            },
            _ => return Ok(None),
        }))
    }
}

pub fn is_anyhow(t: Ty) -> bool {
    match rigid(t) {
        RigidTy::Adt(d, _) => {
            let n: String = d.name();
            n == "anyhow::Error"
        }
        _ => false,
    }
}
/// the first integer component
fn int_leaf(v: &V) -> Option<Lin> {
    match v {
        V::Int(l) => Some(l.clone()),
        V::Agg(x) => x.iter().find_map(int_leaf),
        _ => None,
    }
}
pub fn new_map() -> V {
    opq("Map", vec![list(vec![])])
}
fn entry_slot(v: &V) -> Option<V> {
    match v {
        V::Enum(1, a) => Some(a[0].clone()),
        _ => None,
    }
}
fn st_eq0(l: &Lin) -> B {
    match l.is_const() {
        Some(k) => B::C(k == 0),
        None => B::Le(l.clone()),
    }
}
fn find_arr(v: &V) -> Option<V> {
    match v {
        V::Arr(_) => Some(v.clone()),
        V::Agg(a) | V::Enum(_, a) => a.iter().find_map(find_arr),
        V::Bx(b, _) => find_arr(b),
        _ => None,
    }
}
fn opaque_name(nm: &str) -> bool {
    nm.starts_with("std::fmt::") || nm.starts_with("std::io::") || nm.starts_with("std::thread::")
}
/// a tuple constructor used as a function
fn ctor(dt: &Ty, nm: &str, av: &[V]) -> Option<V> {
    if let RigidTy::Adt(d, _) = rigid(*dt) {
        let l = last_seg(nm);
        for (i, v) in d.variants().iter().enumerate() {
            let n: String = v.name();
            if n == l && v.fields().len() == av.len() {
                return Some(if d.kind() == AdtKind::Enum { en(i as u32, av.to_vec()) } else { agg(av.to_vec()) });
            }
        }
    }
    None
}
fn never_kind(nm: &str) -> String {
    match last_seg(nm) {
        "unwrap_failed" => "unwrap on an absent value".into(),
        "expect_failed" => "expect on an absent value".into(),
        "panic_bounds_check" => "index out of bounds".into(),
        "unreachable_display" | "unreachable" => "unreachable code".into(),
        o => format!("panic ({o})"),
    }
}
pub fn range_of_name(ty: &str) -> (i128, i128) {
    let bits = match &ty[1..] {
        "size" => 64,
        n => n.parse::<u32>().unwrap(),
    };
    match (ty.starts_with('u'), bits) {
        (true, 128) => (0, i128::MAX),
        (true, b) => (0, (1i128 << b) - 1),
        (_, 128) => (i128::MIN, i128::MAX),
        (_, b) => (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1),
    }
}
pub fn str_eq(a: &S, c: &S) -> B {
    crate::strs::eq(a, c)
}
fn str_cat(a: &S, c: &S) -> S {
    crate::strs::cat(vec![a.clone(), c.clone()])
}
pub fn inst_f(x: FT, i: &Lin) -> FT {
    let j = atom(AK::BoundJ);
    let m = |a: A| if a == j { Some(i.clone()) } else { None };
    f_subst(x, &|l| lin_subst_deep(l, &m), &|_| None)
}
fn float_leaves(t: &V, out: &mut Vec<FT>) {
    match t {
        V::F(x) => out.push(*x),
        V::Agg(a) | V::Enum(_, a) => a.iter().for_each(|x| float_leaves(x, out)),
        _ => {}
    }
}
fn mark_nan(t: &V) {
    let mut l = vec![];
    float_leaves(t, &mut l);
    for x in l {
        if let FN::App { f, .. } = fnode(x) {
            INT.with(|i| i.borrow_mut().funs[f as usize].nan = true);
        }
    }
}
fn add_sorted(p: Fun, t: FT, desc: bool) {
    INT.with(|i| i.borrow_mut().sorted.entry(p).or_default().push((t, desc)));
}
fn clear_sorted(p: Fun) {
    INT.with(|i| i.borrow_mut().sorted.remove(&p));
}
/// the index in the original vector an integer leaf refers to
pub fn origin(l: &Lin, orig: &Arr) -> Option<Lin> {
    let a = l.single()?;
    let AK::App { f, arg } = ak(a) else { return None };
    let mut fs = vec![];
    match &orig.body {
        AB::Tm { t, .. } => int_funs(t, &mut fs),
        AB::List(v) => v.iter().for_each(|t| int_funs(t, &mut fs)),
    }
    for (g, garg) in fs {
        if g == f {
            match &orig.body {
                AB::List(_) => {
                    // position in the list holding that element
                    let AB::List(v) = &orig.body else { unreachable!() };
                    for (k, e) in v.iter().enumerate() {
                        let mut fe = vec![];
                        int_funs(e, &mut fe);
                        if fe.iter().any(|(h, ha)| *h == f && *ha == arg) {
                            return Some(Lin::c(k as i128));
                        }
                    }
                    return None;
                }
                AB::Tm { .. } => {
                    let j = Lin::a(atom(AK::BoundJ));
                    if garg == j {
                        return Some(arg);
                    }
                    // composed with a permutation: the position whose image it is
                    if let (Some(ga), Some(aa)) = (garg.single(), arg.single()) {
                        if let (AK::App { f: p, arg: pa }, AK::App { f: q, arg: qa }) = (ak(ga), ak(aa)) {
                            if p == q && pa == j {
                                return Some(qa);
                            }
                        }
                    }
                    return None;
                }
            }
        }
    }
    None
}
fn int_funs(t: &V, out: &mut Vec<(Fun, Lin)>) {
    match t {
        V::Int(l) => {
            if let Some(a) = l.single() {
                if let AK::App { f, arg } = ak(a) {
                    out.push((f, arg));
                }
            }
        }
        V::Agg(a) | V::Enum(_, a) => a.iter().for_each(|x| int_funs(x, out)),
        _ => {}
    }
}
pub fn show_fl(st: &State) -> Vec<String> {
    st.facts
        .fl
        .iter()
        .map(|f| format!("{}{}{}", show_ft(f.a), match (f.rel, f.neg) { (FR::Lt, _) => "<", (FR::Le, _) => "<=", (FR::Eq, false) => "==", (FR::Eq, true) => "!=" }, show_ft(f.b)))
        .collect()
}
