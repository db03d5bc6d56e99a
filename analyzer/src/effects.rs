//! What the crate's functions reach for besides their arguments: a scan of the MIR of every function and closure of the
//! crate (generic ones included) for calls, types, statics and casts through which the outside world gets in or out.
use rustc_public::mir::mono::StaticDef;
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{Body, CastKind, Mutability, Rvalue, Terminator, TerminatorKind};
use rustc_public::ty::{ConstantKind, GenericArgKind, RigidTy, Ty, TyKind};
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use std::collections::{BTreeMap, BTreeSet};

/// calls, by the beginning of the callee's path
const CALLS: &[&str] = &[
    "std::time::Instant::", "std::time::SystemTime::", "std::env::", "std::fs::", "std::net::", "std::process::", "std::thread::", "std::os::", "std::io::_print",
    "std::io::_eprint", "std::io::stdin", "std::io::stdout", "std::io::stderr", "std::panic::set_hook", "std::panic::take_hook", "std::backtrace::",
    "std::path::Path::exists", "std::path::Path::try_exists", "std::path::Path::is_file", "std::path::Path::is_dir", "std::path::Path::is_symlink", "std::path::Path::metadata", "std::path::Path::symlink_metadata", "std::path::Path::read_", "std::path::Path::canonicalize",
    "std::hash::RandomState::", "std::collections::hash_map::RandomState::", "std::random::", "std::alloc::set_alloc",
    "rand::random", "rand::thread_rng", "rand::rngs::thread::", "rand::rngs::OsRng", "rand::rngs::ThreadRng", "rand_core::OsRng", "getrandom::",
    "rand_core::os::", "std::ptr::const_ptr::<impl *const T>::addr", "std::ptr::mut_ptr::<impl *mut T>::addr",
];
/// calls, by a part of the callee's path
const PARTS: &[&str] = &["::from_entropy", "expose_provenance", "::_rdtsc", "::_rdrand", "::_rdseed", "::new_pointer", "SystemTime", "::thread_rng"];
/// types
const TYPES: &[&str] = &[
    "std::time::Instant", "std::time::SystemTime", "std::fs::File", "std::net::Tcp", "std::net::Udp", "std::process::Command", "std::process::Child", "std::thread::",
    "std::io::Stdin", "std::io::Stdout", "std::io::Stderr", "rand::rngs::ThreadRng", "rand::prelude::ThreadRng", "rand::rngs::thread::", "rand::rngs::OsRng",
    "rand_core::OsRng", "rand_core::os::OsRng", "rand::rngs::EntropyRng",
];

pub struct Found {
    /// what each function was found to do, by its name
    pub bad: BTreeMap<String, BTreeSet<String>>,
    pub functions: BTreeMap<String, usize>,
    pub calls: usize,
    pub types: usize,
    pub statics: Vec<String>,
}

struct Scan<'a> {
    f: &'a mut Found,
    name: String,
    closures: Vec<rustc_public::DefId>,
    span: String,
    once: Vec<String>,
}
impl Scan<'_> {
    fn bad(&mut self, m: String) {
        let at = self.span.clone();
        self.f.bad.entry(self.name.clone()).or_default().insert(if at.is_empty() { m } else { format!("{m} at {at}") });
    }
    fn ty(&mut self, t: &Ty, depth: usize) {
        if depth > 12 {
            return;
        }
        self.f.types += 1;
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Adt(d, args) => {
                    let n = d.name();
                    if TYPES.iter().any(|p| n.starts_with(p)) {
                        self.bad(format!("uses the type {n}"));
                    }
                    for a in &args.0 {
                        if let GenericArgKind::Type(t) = a {
                            self.ty(t, depth + 1);
                        }
                    }
                }
                RigidTy::FnDef(d, args) => {
                    let n = d.name();
                    self.f.calls += 1;
                    if CALLS.iter().any(|p| n.starts_with(p)) || PARTS.iter().any(|p| n.contains(p)) {
                        self.bad(format!("calls {n}"));
                    }
                    for a in &args.0 {
                        if let GenericArgKind::Type(t) = a {
                            self.ty(t, depth + 1);
                        }
                    }
                    if n.contains("::OnceLock::<T>::") || n.contains("::OnceLock<T>>::") {
                        let m = n.rsplit("::").next().unwrap_or("");
                        let free = args.0.iter().any(|a| matches!(a, GenericArgKind::Type(t) if matches!(t.kind(), TyKind::RigidTy(RigidTy::Closure(_, ref ca)) if captures_nothing(ca)) || matches!(t.kind(), TyKind::RigidTy(RigidTy::FnDef(..)))));
                        if !(matches!(m, "new" | "get" | "wait") || m == "get_or_init" && free) {
                            self.once.push(format!("fills a OnceLock from what it is given ({m})"));
                        }
                    }
                    if n.starts_with("std::hash::BuildHasher::") || n.starts_with("core::hash::BuildHasher::") {
                        if let Some(GenericArgKind::Type(t)) = args.0.first() {
                            if let TyKind::RigidTy(RigidTy::Adt(h, _)) = t.kind() {
                                if h.name().contains("RandomState") {
                                    self.bad(format!("hashes with the random keys of {}", h.name()));
                                }
                            }
                        }
                    }
                }
                RigidTy::Closure(d, args) => {
                    self.closures.push(d.def_id());
                    for a in &args.0 {
                        if let GenericArgKind::Type(t) = a {
                            self.ty(t, depth + 1);
                        }
                    }
                }
                RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) | RigidTy::Slice(t) | RigidTy::Array(t, _) => self.ty(&t, depth + 1),
                RigidTy::Tuple(ts) => {
                    for t in &ts {
                        self.ty(t, depth + 1);
                    }
                }
                _ => {}
            },
            _ => {}
        }
    }
}
/// the tuple of captured values is the last argument of a closure type
fn captures_nothing(a: &rustc_public::ty::GenericArgs) -> bool {
    matches!(a.0.last(), Some(GenericArgKind::Type(t)) if matches!(t.kind(), TyKind::RigidTy(RigidTy::Tuple(ref v)) if v.is_empty()))
}
fn at(s: &rustc_public::ty::Span) -> String {
    let f = s.get_filename();
    let l = s.get_lines();
    format!("{}:{}", f.rsplit("/src/").next().map(|x| format!("src/{x}")).unwrap_or(f.clone()), l.start_line)
}
impl MirVisitor for Scan<'_> {
    fn visit_ty(&mut self, ty: &Ty, _: Location) {
        self.ty(ty, 0);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        if let Rvalue::Cast(CastKind::PointerExposeAddress, _, _) = r {
            self.bad("turns an address into a number".into());
        }
        if let Rvalue::ThreadLocalRef(d) = r {
            self.bad(format!("uses the thread-local {}", d.name()));
        }
        self.super_rvalue(r, l)
    }
    fn visit_mir_const(&mut self, c: &rustc_public::ty::MirConst, l: Location) {
        self.ty(&c.ty(), 0);
        if let (ConstantKind::Allocated(a), TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut))) = (c.kind(), c.ty().kind()) {
            if !a.provenance.ptrs.is_empty() {
                self.bad("reaches a mutable static".into());
            }
        }
        self.super_mir_const(c, l)
    }
    fn visit_statement(&mut self, s: &rustc_public::mir::Statement, l: Location) {
        self.span = at(&s.source_info.span);
        self.super_statement(s, l)
    }
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        self.span = at(&t.source_info.span);
        if let TerminatorKind::InlineAsm { .. } = t.kind {
            self.bad("contains inline assembly".into());
        }
        self.super_terminator(t, l)
    }
}

/// may a value of this type be changed through a shared reference?
fn cell(t: &Ty, seen: &mut Vec<String>, depth: usize) -> Option<String> {
    if depth > 10 {
        return None;
    }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, args)) => {
            let n = d.name();
            if n.ends_with("cell::UnsafeCell") || n.contains("sync::atomic::") || n.ends_with("cell::SyncUnsafeCell") {
                return Some(n);
            }
            // filled once, by its own initialiser, which is scanned
            // (a OnceLock may be filled with something else: its calls are looked at)
            if n.ends_with("PhantomData") {
                return None;
            }
            if n.ends_with("::LazyLock") || n.ends_with("::LazyCell") || n.ends_with("::OnceLock") {
                return args.0.iter().take(1).find_map(|a| if let GenericArgKind::Type(t) = a { cell(t, seen, depth + 1) } else { None });
            }
            let key = format!("{t:?}");
            if seen.contains(&key) {
                return None;
            }
            seen.push(key);
            for v in d.variants() {
                for f in v.fields() {
                    if let Some(m) = cell(&f.ty_with_args(&args), seen, depth + 1) {
                        return Some(m);
                    }
                }
            }
            None
        }
        TyKind::RigidTy(RigidTy::Array(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) | TyKind::RigidTy(RigidTy::Ref(_, t, _)) => cell(&t, seen, depth + 1),
        TyKind::RigidTy(RigidTy::RawPtr(_, _)) => Some("a raw pointer".into()),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().find_map(|t| cell(t, seen, depth + 1)),
        _ => None,
    }
}

pub fn scan(krate: &str) -> Found {
    let mut f = Found { bad: BTreeMap::new(), functions: BTreeMap::new(), calls: 0, types: 0, statics: vec![] };
    for c in rustc_public::find_crates(krate) {
        let mut todo: Vec<(String, rustc_public::DefId)> = c.fn_defs().iter().map(|d| (d.name(), d.def_id())).collect();
        let once_static = c.statics().iter().any(|s| format!("{:?}", s.ty()).contains("OnceLock"));
        for s in c.statics() {
            let s: StaticDef = s;
            f.statics.push(s.name());
            let item = CrateItem(s.def_id());
            let mut sp = String::new();
            sp.push_str(&at(&item.span()));
            if let Some(m) = cell(&s.ty(), &mut vec![], 0) {
                f.bad.entry(s.name()).or_default().insert(format!("is a global that can change ({m}) at {sp}"));
            }
            todo.push((s.name(), s.def_id()));
        }
        for m in c.foreign_modules() {
            f.bad.entry(m.name()).or_default().insert("declares foreign functions".into());
        }
        let mut seen = BTreeSet::new();
        while let Some((name, d)) = todo.pop() {
            if !seen.insert(format!("{d:?}")) {
                continue;
            }
            let item = CrateItem(d);
            let Some(body): Option<Body> = item.body() else { continue };
            f.functions.insert(name.clone(), body.blocks.len());
            let mut s = Scan { f: &mut f, name: name.clone(), closures: vec![], span: String::new(), once: vec![] };
            s.visit_body(&body);
            for l in body.locals() {
                s.span = at(&l.span);
                s.ty(&l.ty, 0);
            }
            if once_static {
                for m in std::mem::take(&mut s.once) {
                    s.bad(m);
                }
            }
            for k in s.closures {
                let it = CrateItem(k);
                // only the crate's own closures
                if it.krate().name == krate {
                    todo.push((it.name(), k));
                }
            }
        }
    }
    f
}
