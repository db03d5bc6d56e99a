//! Abstract values, memory, facts.
use crate::lin::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::Ty;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum S {
    C(Rc<str>),
    Sym(Rc<str>),
    App(&'static str, Vec<S>),
}
impl S {
    pub fn show(&self) -> String {
        match self {
            S::C(s) => format!("{s:?}"),
            S::Sym(s) => s.to_string(),
            S::App(o, v) => format!("{o}({})", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum FR {
    Lt,
    Le,
    Eq,
}

#[derive(Clone, PartialEq, Debug)]
pub enum B {
    C(bool),
    Le(Lin),
    Eq(Lin),
    F(FR, FT, FT),
    Pred(Rc<str>),
    Not(Rc<B>),
}
impl B {
    pub fn not(self) -> B {
        match self {
            B::C(b) => B::C(!b),
            B::Not(b) => (*b).clone(),
            B::Le(l) => B::Le(l.neg().addk(1)),
            o => B::Not(Rc::new(o)),
        }
    }
    pub fn show(&self) -> String {
        match self {
            B::C(b) => b.to_string(),
            B::Le(l) => format!("{l:?}<=0"),
            B::Eq(l) => format!("{l:?}==0"),
            B::F(r, a, b) => format!("{}{}{}", show_ft(*a), match r { FR::Lt => "<", FR::Le => "<=", FR::Eq => "==" }, show_ft(*b)),
            B::Pred(p) => p.to_string(),
            B::Not(b) => format!("!({})", b.show()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum V {
    Undef,
    Unk,
    Int(Lin),
    Bool(B),
    F(FT),
    Str(S),
    Ptr(Rc<PtrV>),
    Agg(Rc<Vec<V>>),
    Enum(u32, Rc<Vec<V>>),
    Bx(Rc<V>, Option<Ty>),
    Arr(Rc<Arr>),
    Opq(Rc<(String, Vec<V>)>),
    FnP(Instance),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Root {
    Local(u32, u32),
    Const(Rc<CVal>),
}
/// an immutable constant allocation
#[derive(Debug)]
pub struct CVal(pub V);
impl PartialEq for CVal {
    fn eq(&self, o: &CVal) -> bool {
        std::ptr::eq(self, o) || v_eq(&self.0, &o.0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pj {
    Field(u32),
    Boxed,
    Elem(Lin),
    MapVal(u32), // component of an opaque value (the entries of a map)
}
#[derive(Clone, Debug, PartialEq)]
pub enum Meta {
    None,
    Slice(Lin, Lin), // offset, len
    Dyn(Ty),
}
#[derive(Clone, Debug, PartialEq)]
pub struct PtrV {
    pub root: Root,
    pub proj: Vec<Pj>,
    pub meta: Meta,
}

#[derive(Clone, Debug)]
pub struct Arr {
    pub len: Lin,
    pub body: AB,
}
#[derive(Clone, Debug)]
pub enum AB {
    List(Vec<V>),
    Tm { t: V, facts: Vec<Lin>, ovl: Vec<(Lin, V)> },
}
pub fn unit() -> V {
    V::Agg(Rc::new(vec![]))
}
pub fn agg(v: Vec<V>) -> V {
    V::Agg(Rc::new(v))
}
pub fn en(i: u32, v: Vec<V>) -> V {
    V::Enum(i, Rc::new(v))
}
pub fn int(k: i128) -> V {
    V::Int(Lin::c(k))
}
pub fn opq(s: &str, v: Vec<V>) -> V {
    V::Opq(Rc::new((s.to_string(), v)))
}
pub fn list(v: Vec<V>) -> V {
    V::Arr(Rc::new(Arr { len: Lin::c(v.len() as i128), body: AB::List(v) }))
}

pub fn v_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Undef, V::Undef) | (V::Unk, V::Unk) => true,
        (V::Int(a), V::Int(b)) => a == b,
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::F(a), V::F(b)) => a == b,
        (V::Str(a), V::Str(b)) => a == b,
        (V::Ptr(a), V::Ptr(b)) => Rc::ptr_eq(a, b) || a == b,
        (V::Agg(a), V::Agg(b)) => Rc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| v_eq(x, y))),
        (V::Enum(i, a), V::Enum(j, b)) => i == j && (Rc::ptr_eq(a, b) || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| v_eq(x, y)))),
        (V::Bx(a, t), V::Bx(b, u)) => t == u && (Rc::ptr_eq(a, b) || v_eq(a, b)),
        (V::Arr(a), V::Arr(b)) => {
            Rc::ptr_eq(a, b)
                || (a.len == b.len
                    && match (&a.body, &b.body) {
                        (AB::List(x), AB::List(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| v_eq(p, q)),
                        (AB::Tm { t: t1, facts: f1, ovl: o1 }, AB::Tm { t: t2, facts: f2, ovl: o2 }) => {
                            v_eq(t1, t2) && f1 == f2 && o1.len() == o2.len() && o1.iter().zip(o2.iter()).all(|(p, q)| p.0 == q.0 && v_eq(&p.1, &q.1))
                        }
                        _ => false,
                    })
        }
        (V::Opq(a), V::Opq(b)) => Rc::ptr_eq(a, b) || (a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(b.1.iter()).all(|(x, y)| v_eq(x, y))),
        (V::FnP(a), V::FnP(b)) => a == b,
        _ => false,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FFact {
    pub rel: FR,
    pub neg: bool, // only used for Eq (disequality); Lt/Le are normalised
    pub a: FT,
    pub b: FT,
}

#[derive(Clone, Default)]
pub struct Facts {
    pub le: Vec<Lin>,
    pub ne: Vec<Lin>,
    pub fl: Vec<FFact>,
    pub preds: BTreeMap<Rc<str>, bool>,
    /// (x, f, lo, hi): x differs from f(i) for every i in lo..hi
    pub absent: Vec<(Lin, Fun, Lin, Lin)>,
}

#[derive(Clone)]
pub struct Frame {
    pub name: Rc<str>,
    pub locals: Rc<Vec<V>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub facts: Rc<Facts>,
    pub ghost: Rc<BTreeMap<u32, V>>,
    /// (frame, loop head) -> overlay indices visited since entering the loop
    pub visited: Rc<BTreeMap<(u32, usize), Vec<Lin>>>,
    /// (frame, loop head) -> number of distinct passes kept apart
    pub taint: Option<Rc<str>>,
    pub exact: bool,
    pub trace: Option<Rc<Tr>>,
    pub peel: Rc<BTreeMap<(u32, usize), (u32, u32)>>,
    pub nuid: u64,
    pub iforks: u32,
}
pub struct Tr {
    pub prev: Option<Rc<Tr>>,
    pub msg: String,
}

/// why evaluation of a step stopped
pub enum Stop {
    Fork(B),
    Infeasible,
    Fail(String), // the engine cannot continue on this path: inconclusive
}
pub type R<T> = Result<T, Stop>;
pub fn fail<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Fail(s.into()))
}

pub enum Dec {
    True,
    False,
    Unk,
    Need(B),
}

thread_local! {
    pub static STATS: std::cell::RefCell<HashMap<&'static str, u64>> = Default::default();
}
pub fn stat(s: &'static str) {
    STATS.with(|m| *m.borrow_mut().entry(s).or_insert(0) += 1);
}

fn lp_le(facts: &[Lin], l: &Lin) -> bool {
    if l.t.is_empty() {
        return l.k <= 0;
    }
    match lp_max(facts, l, false) {
        LpRes::Infeasible => true,
        LpRes::Max(q) => q.n <= 0,
        _ => false,
    }
}

impl State {
    pub fn new() -> State {
        State {
            frames: vec![],
            facts: Rc::new(Facts::default()),
            ghost: Default::default(),
            visited: Default::default(),
            taint: None,
            exact: true,
            trace: None,
            peel: Default::default(),
            nuid: 0,
            iforks: 0,
        }
    }
    pub fn note(&mut self, m: String) {
        self.trace = Some(Rc::new(Tr { prev: self.trace.take(), msg: m }));
    }
    pub fn taint(&mut self, m: &str) {
        if self.taint.is_none() {
            self.taint = Some(m.into());
        }
        self.exact = false;
    }

    // ------------------------------------------------------------ integer facts
    pub fn le0(&self, l: &Lin) -> bool {
        self.le0_(l, false)
    }
    /// entails l <= 0
    pub fn le0_(&self, l: &Lin, big: bool) -> bool {
        if l.t.is_empty() {
            return l.k <= 0;
        }
        // type bounds
        let mut ub = l.k;
        let mut ok = true;
        for (a, c) in &l.t {
            let (lo, hi) = bounds(*a);
            if *c > 0 {
                if hi > BIG && !big {
                    ok = false;
                    break;
                }
                ub = ub.saturating_add(c.saturating_mul(hi));
            } else {
                ub = ub.saturating_add(c.saturating_mul(lo));
            }
        }
        if ok && ub <= 0 {
            return true;
        }
        let mut lb = l.k;
        let mut okl = true;
        for f in &self.facts.le {
            if f.t == l.t && f.k >= l.k {
                return true;
            }
        }
        let _ = (&mut lb, &mut okl);
        stat("lp");
        let facts = self.with_app_bounds(l);
        match lp_max(&facts, l, big) {
            LpRes::Infeasible => true,
            LpRes::Max(q) => q.n <= 0,
            _ => false,
        }
    }
    /// add the range facts of permutation applications occurring in the query
    fn with_app_bounds(&self, l: &Lin) -> Vec<Lin> {
        let mut v = self.facts.le.clone();
        let mut seen: Vec<A> = vec![];
        let mut todo: Vec<A> = l.atoms().collect();
        while let Some(a) = todo.pop() {
            if seen.contains(&a) {
                continue;
            }
            seen.push(a);
            if let AK::App { f, arg } = ak(a) {
                let fi = fun(f);
                if let Some(d) = &fi.dom {
                    let inner = arg.atoms().any(|x| matches!(ak(x), AK::App { .. }));
                    if arg != Lin::a(a) && if inner { self.le0(&arg.sub(d).addk(1)) } else { lp_le(&self.facts.le, &arg.sub(d).addk(1)) } {
                        v.push(Lin::a(a).sub(d).addk(1));
                        todo.extend(d.atoms());
                    }
                }
            }
        }
        v
    }
    /// integer and float facts admit a solution (used before reporting)
    pub fn really_feasible(&self) -> bool {
        if self.infeasible() {
            return false;
        }
        if self.fentail(&Poly::from([(vec![], 1.0)]), false) {
            return false;
        }
        crate::witness::concrete_element(self)
    }
    pub fn max_of(&self, l: &Lin) -> Option<i128> {
        if let Some(k) = l.is_const() {
            return Some(k);
        }
        stat("lpmax");
        match lp_max(&self.facts.le, l, false) {
            LpRes::Max(q) => Some(q.n.div_euclid(q.d)),
            _ => None,
        }
    }
    pub fn eq0(&self, l: &Lin) -> bool {
        if l.t.is_empty() {
            return l.k == 0;
        }
        if self.le0(l) && self.le0(&l.neg()) {
            return true;
        }
        // congruence on applications: a*App(f,x) - a*App(f,y)
        if l.k == 0 && l.t.len() == 2 && l.t[0].1 == -l.t[1].1 {
            if let (AK::App { f: f1, arg: a1 }, AK::App { f: f2, arg: a2 }) = (ak(l.t[0].0), ak(l.t[1].0)) {
                if f1 == f2 && self.eq0(&a1.sub(&a2)) {
                    return true;
                }
            }
        }
        false
    }
    pub fn ne0(&self, l: &Lin) -> bool {
        if l.t.is_empty() {
            return l.k != 0;
        }
        if self.le0(&l.addk(1)) || self.le0(&l.neg().addk(1)) {
            return true;
        }
        // injectivity of permutations
        if l.k == 0 && l.t.len() == 2 && l.t[0].1 == -l.t[1].1 {
            if let (AK::App { f: f1, arg: a1 }, AK::App { f: f2, arg: a2 }) = (ak(l.t[0].0), ak(l.t[1].0)) {
                if f1 == f2 && fun(f1).perm && self.ne0(&a1.sub(&a2)) {
                    return true;
                }
            }
        }
        if self.absent_ne(l) {
            return true;
        }
        for n in &self.facts.ne {
            if n == l || n.neg() == *l {
                return true;
            }
        }
        for n in &self.facts.ne {
            let share = n.atoms().any(|a| l.atoms().any(|b| a == b)) || true;
            if share && (self.eq0_fast(&n.sub(l)) || self.eq0_fast(&n.add(l))) {
                return true;
            }
        }
        false
    }
    fn absent_ne(&self, l: &Lin) -> bool {
        for (x, f, lo, hi) in &self.facts.absent {
            for (a, c) in &l.t {
                if c.abs() != 1 {
                    continue;
                }
                let AK::App { f: g, arg } = ak(*a) else { continue };
                if g != *f {
                    continue;
                }
                // l = c * (f(arg) - y)
                let y = Lin::a(*a).sub(&if *c == 1 { l.clone() } else { l.neg() });
                if (y == *x || self.eq0_fast(&y.sub(x))) && self.le0(&lo.sub(&arg)) && self.le0(&arg.sub(hi).addk(1)) {
                    return true;
                }
            }
        }
        false
    }
    fn eq0_fast(&self, l: &Lin) -> bool {
        if l.t.is_empty() {
            return l.k == 0;
        }
        if l.t.len() > 4 {
            return false;
        }
        self.eq0(l)
    }
    /// infeasibility of the facts connected to those `b` speaks about
    pub fn infeasible_near(&self, b: &B) -> bool {
        match b {
            B::Le(l) | B::Eq(l) => {
                let mut o = l.clone();
                for t in o.t.iter_mut() {
                    t.1 = 0;
                }
                o.k = 0;
                matches!(lp_max(&self.facts.le, &o, false), LpRes::Infeasible)
            }
            _ => self.infeasible(),
        }
    }
    pub fn infeasible(&self) -> bool {
        matches!(lp_max(&self.facts.le, &Lin::c(0), false), LpRes::Infeasible)
    }

    fn add_le(&mut self, l: Lin) {
        let l = l.tighten();
        if l.t.is_empty() {
            return;
        }
        if self.facts.le.contains(&l) {
            return;
        }
        let f = Rc::make_mut(&mut self.facts);
        f.le.retain(|x| !(x.t == l.t && x.k <= l.k));
        f.le.push(l);
    }
    fn sharpen(&mut self) {
        let mut again = true;
        let mut n = 0;
        while again && n < 4 {
            again = false;
            n += 1;
            for l in self.facts.ne.clone() {
                if self.le0(&l) && !self.le0(&l.addk(1)) {
                    self.add_le(l.addk(1));
                    again = true;
                } else if self.le0(&l.neg()) && !self.le0(&l.neg().addk(1)) {
                    self.add_le(l.neg().addk(1));
                    again = true;
                }
            }
        }
    }
    pub fn assume_le(&mut self, l: Lin) {
        self.add_le(l);
        if !self.facts.ne.is_empty() {
            self.sharpen();
        }
    }
    pub fn assume_eq(&mut self, l: Lin) {
        self.add_le(l.clone());
        self.add_le(l.neg());
        if !self.facts.ne.is_empty() {
            self.sharpen();
        }
    }

    // ------------------------------------------------------------ decisions
    pub fn decide(&self, b: &B) -> Dec {
        match b {
            B::C(true) => Dec::True,
            B::C(false) => Dec::False,
            B::Not(x) => match self.decide(x) {
                Dec::True => Dec::False,
                Dec::False => Dec::True,
                o => o,
            },
            B::Pred(p) => match self.facts.preds.get(p) {
                Some(true) => Dec::True,
                Some(false) => Dec::False,
                None => match self.str_decide(p) {
                    Some(true) => Dec::True,
                    Some(false) => Dec::False,
                    None => Dec::Unk,
                },
            },
            B::Le(l) => {
                if self.le0(l) {
                    Dec::True
                } else if self.le0(&l.neg().addk(1)) {
                    Dec::False
                } else {
                    Dec::Unk
                }
            }
            B::Eq(l) => {
                if self.eq0(l) {
                    Dec::True
                } else if self.ne0(l) {
                    Dec::False
                } else {
                    Dec::Unk
                }
            }
            B::F(r, x, y) => {
                for t in [*x, *y] {
                    if let Some(n) = nan_root(t) {
                        let p: Rc<str> = format!("nan:{n}").into();
                        match self.facts.preds.get(&p) {
                            None => {
                                if fconst(n).is_some() {
                                    return Dec::False;
                                }
                                return Dec::Need(B::Pred(p));
                            }
                            Some(true) => return Dec::False,
                            Some(false) => {}
                        }
                    }
                }
                self.fdecide(*r, *x, *y)
            }
        }
    }
    /// total-order float decision
    pub fn fdecide(&self, r: FR, x: FT, y: FT) -> Dec {
        if x == y {
            return if r == FR::Lt { Dec::False } else { Dec::True };
        }
        if let (Some(a), Some(b)) = (fconst(x), fconst(y)) {
            let t = match r {
                FR::Lt => a < b,
                FR::Le => a <= b,
                FR::Eq => a == b,
            };
            return if t { Dec::True } else { Dec::False };
        }
        // infinities as constants
        let (cx, cy) = (fconst(x), fconst(y));
        if cx == Some(f64::NEG_INFINITY) || cy == Some(f64::INFINITY) {
            if r == FR::Le {
                return Dec::True;
            }
        }
        if (cx == Some(f64::INFINITY) || cy == Some(f64::NEG_INFINITY)) && r == FR::Lt {
            return Dec::False;
        }
        for f in &self.facts.fl {
            if f.a == x && f.b == y {
                match (f.rel, f.neg, r) {
                    (FR::Lt, _, FR::Lt) | (FR::Lt, _, FR::Le) | (FR::Le, _, FR::Le) => return Dec::True,
                    (FR::Lt, _, FR::Eq) => return Dec::False,
                    (FR::Eq, false, FR::Eq) | (FR::Eq, false, FR::Le) => return Dec::True,
                    (FR::Eq, false, FR::Lt) => return Dec::False,
                    (FR::Eq, true, FR::Eq) => return Dec::False,
                    _ => {}
                }
            }
            if f.a == y && f.b == x {
                match (f.rel, f.neg, r) {
                    (FR::Lt, _, _) => return Dec::False,
                    (FR::Le, _, FR::Lt) => return Dec::False,
                    (FR::Eq, false, FR::Eq) | (FR::Eq, false, FR::Le) => return Dec::True,
                    (FR::Eq, false, FR::Lt) => return Dec::False,
                    (FR::Eq, true, FR::Eq) => return Dec::False,
                    _ => {}
                }
            }
        }
        // monotone functions
        if r == FR::Le {
            let under = match (fnode(x), fnode(y)) {
                (FN::Un("exp", a), FN::Un("exp", b)) => Some((a, b)),
                (FN::Div(a, c), FN::Div(b, d)) if c == d && self.fsign(c).0 => Some((a, b)),
                _ => None,
            };
            if let Some((a, b)) = under {
                if matches!(self.fdecide(FR::Le, a, b), Dec::True) {
                    return Dec::True;
                }
            }
        }
        let d = poly_sub(x, y);
        if d.is_empty() {
            return if r == FR::Lt { Dec::False } else { Dec::True };
        }
        match r {
            FR::Lt => {
                if self.fentail(&d, true) {
                    return Dec::True;
                }
                if self.fentail(&pneg(&d), false) {
                    return Dec::False;
                }
            }
            FR::Le => {
                if self.fentail(&d, false) {
                    return Dec::True;
                }
                if self.fentail(&pneg(&d), true) {
                    return Dec::False;
                }
            }
            FR::Eq => {
                if self.fentail(&d, true) || self.fentail(&pneg(&d), true) {
                    return Dec::False;
                }
                if self.fentail(&d, false) && self.fentail(&pneg(&d), false) {
                    return Dec::True;
                }
                // disequality facts up to polynomial identity
                for f in &self.facts.fl {
                    if f.rel == FR::Eq && f.neg {
                        let e = poly_sub(f.a, f.b);
                        if e == d || pneg(&e) == d {
                            return Dec::False;
                        }
                    }
                }
            }
        }
        Dec::Unk
    }

    /// sign of a base term: (nonneg known, nonpos known, nonzero known)
    pub fn fsign(&self, x: FT) -> (bool, bool, bool) {
        if let Some(c) = fconst(x) {
            return (c >= 0.0, c <= 0.0, c != 0.0);
        }
        let mut r = match fnode(x) {
            FN::Un("abs", _) => (true, false, false),
            FN::Un("exp", _) => (true, false, false),
            FN::Un("sqrt", _) => (true, false, false),
            FN::App { f, .. } if fun(f).nonneg => (true, false, false),
            FN::I2F(l) => (self.le0(&l.neg()), self.le0(&l), self.ne0(&l)),
            FN::Bin("powf", b, _) => {
                let s = self.fsign(b);
                (s.0, false, false)
            }
            FN::Mul(a, b) | FN::Div(a, b) => {
                let (s, t) = (self.fsign(a), self.fsign(b));
                ((s.0 && t.0) || (s.1 && t.1), (s.0 && t.1) || (s.1 && t.0), s.2 && t.2)
            }
            FN::Add(a, b) => {
                let (s, t) = (self.fsign(a), self.fsign(b));
                (s.0 && t.0, s.1 && t.1, (s.0 && t.0 && (s.2 || t.2)) || (s.1 && t.1 && (s.2 || t.2)))
            }
            FN::Neg(a) => {
                let s = self.fsign(a);
                (s.1, s.0, s.2)
            }
            _ => (false, false, false),
        };
        for f in &self.facts.fl {
            let (o, flip) = if f.a == x { (f.b, false) } else if f.b == x { (f.a, true) } else { continue };
            let Some(c) = fconst(o) else { continue };
            match (f.rel, f.neg) {
                (FR::Eq, true) => {
                    if c == 0.0 {
                        r.2 = true
                    }
                }
                (FR::Eq, false) => {
                    r.0 |= c >= 0.0;
                    r.1 |= c <= 0.0;
                    r.2 |= c != 0.0;
                }
                (FR::Lt, _) => {
                    if flip {
                        if c >= 0.0 {
                            r.0 = true;
                            r.2 = true;
                        }
                    } else if c <= 0.0 {
                        r.1 = true;
                        r.2 = true;
                    }
                }
                (FR::Le, _) => {
                    if flip {
                        r.0 |= c >= 0.0;
                        r.2 |= c > 0.0;
                    } else {
                        r.1 |= c <= 0.0;
                        r.2 |= c < 0.0;
                    }
                }
            }
        }
        r
    }
    fn mono_sign(&self, m: &Mono) -> (bool, bool, bool) {
        let mut s = (true, false, true); // positive one
        for (b, e) in m {
            let t = self.fsign(*b);
            let t = if e % 2 == 0 { (true, t.0 && t.1, t.2) } else { t };
            s = ((s.0 && t.0) || (s.1 && t.1), (s.0 && t.1) || (s.1 && t.0), s.2 && t.2);
        }
        s
    }
    /// facts entail d <= 0 (strict: d < 0)
    fn fentail(&self, d: &Poly, strict: bool) -> bool {
        // all monomials of the right sign
        let mut all = true;
        let mut some_strict = false;
        for (m, c) in d {
            let s = self.mono_sign(m);
            let (neg, nz) = if *c < 0.0 { (s.0, s.2) } else { (s.1, s.2) };
            if !neg {
                all = false;
                break;
            }
            some_strict |= nz;
        }
        if all && (!strict || some_strict) {
            return true;
        }
        stat("flp");
        // LP over monomials
        let mut rows: Vec<(Poly, bool)> = vec![]; // p <= 0 / < 0
        let mut cand: Vec<(Poly, bool)> = vec![];
        for f in &self.facts.fl {
            if f.neg {
                continue;
            }
            let p = poly_sub(f.a, f.b);
            match f.rel {
                FR::Lt => cand.push((p, true)),
                FR::Le => cand.push((p, false)),
                FR::Eq => {
                    cand.push((pneg(&p), false));
                    cand.push((p, false));
                }
            }
        }
        let mut idx: BTreeMap<Mono, usize> = BTreeMap::new();
        for m in d.keys() {
            if !m.is_empty() {
                let n = idx.len();
                idx.insert(m.clone(), n);
            }
        }
        let all_rows = idx.is_empty();
        // the factors of products matter too
        for m in d.keys() {
            if m.len() > 1 || m.iter().any(|x| x.1 != 1) {
                for (b, _) in m {
                    let k: Mono = vec![(*b, 1)];
                    if !idx.contains_key(&k) {
                        let n = idx.len();
                        idx.insert(k, n);
                    }
                }
            }
        }
        let mut used = vec![false; cand.len()];
        loop {
            let mut ch = false;
            for (i, (p, _)) in cand.iter().enumerate() {
                if used[i] {
                    continue;
                }
                if all_rows || p.keys().any(|m| idx.contains_key(m)) {
                    used[i] = true;
                    ch = true;
                    for m in p.keys() {
                        if !m.is_empty() && !idx.contains_key(m) {
                            let n = idx.len();
                            idx.insert(m.clone(), n);
                        }
                    }
                    rows.push(cand[i].clone());
                }
            }
            // ordered array versions
            let ms: Vec<Mono> = idx.keys().cloned().collect();
            for m1 in &ms {
                for m2 in &ms {
                    if m1.len() == 1 && m2.len() == 1 && m1 != m2 && m1[0].1 == 1 && m2[0].1 == 1 {
                        if let (FN::App { f: f1, arg: a1 }, FN::App { f: f2, arg: a2 }) = (fnode(m1[0].0), fnode(m2[0].0)) {
                            if f1 == f2 && m1 < m2 && self.eq0(&a1.sub(&a2)) {
                                // the same element
                                let mut p = Poly::new();
                                p.insert(m2.clone(), 1.0);
                                p.insert(m1.clone(), -1.0);
                                if !rows.iter().any(|r| r.0 == p) {
                                    rows.push((pneg(&p), false));
                                    rows.push((p, false));
                                }
                            }
                            if f1 == f2 && fun(f1).sorted_desc && self.le0(&a1.sub(&a2)) {
                                // a1 <= a2 => f[a2] - f[a1] <= 0
                                let mut p = Poly::new();
                                p.insert(m2.clone(), 1.0);
                                p.insert(m1.clone(), -1.0);
                                if !rows.iter().any(|r| r.0 == p) {
                                    rows.push((p, false));
                                }
                            }
                        }
                    }
                }
            }
            // keys of sorted arrays
            let mut apps: Vec<(Fun, Lin)> = vec![];
            for m in idx.keys() {
                for (b, _) in m {
                    f_lins(*b, &mut |l| perm_apps(l, &mut apps));
                }
            }
            for (p, a1) in &apps {
                let srt = INT.with(|i| i.borrow().sorted.get(p).cloned());
                let Some(srt) = srt else { continue };
                for (q, a2) in &apps {
                    if p != q || a1 == a2 || !self.le0(&a1.sub(a2)) {
                        continue;
                    }
                    for (e, desc) in &srt {
                        let (x1, x2) = (inst_ft(*e, a1), inst_ft(*e, a2));
                        let r = if *desc { poly_sub(x2, x1) } else { poly_sub(x1, x2) };
                        if (r.keys().any(|m| idx.contains_key(m)) || all_rows) && !rows.iter().any(|x| x.0 == r) {
                            for m in r.keys() {
                                if !m.is_empty() && !idx.contains_key(m) {
                                    let n = idx.len();
                                    idx.insert(m.clone(), n);
                                }
                            }
                            rows.push((r, false));
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        // converted integers lie within their bounds
        for m in idx.keys().cloned().collect::<Vec<_>>() {
            if let [(b, 1)] = m[..] {
                if let FN::I2F(l) = fnode(b) {
                    if let Some(k) = self.max_of(&l).filter(|k| k.abs() < 1 << 30) {
                        rows.push((Poly::from([(m.clone(), 1.0), (vec![], -k as f64)]), false));
                    }
                    if let Some(k) = self.max_of(&l.neg()).filter(|k| k.abs() < 1 << 30) {
                        rows.push((Poly::from([(m, -1.0), (vec![], -k as f64)]), false));
                    }
                }
            }
        }
        // facts scaled by factors of known sign that lead to the monomials of the goal
        let lin = |m: &Mono| m.is_empty() || (m.len() == 1 && m[0].1 == 1);
        let nlm: Vec<Mono> = idx.keys().filter(|m| !lin(m)).cloned().collect();
        if !nlm.is_empty() {
            let mut factors: Vec<Mono> = vec![];
            for m in &nlm {
                for (p, _) in &cand {
                    for q in p.keys().filter(|q| !q.is_empty()) {
                        let inv: Mono = q.iter().map(|(t, e)| (*t, -e)).collect();
                        let f = mmul(m, &inv);
                        if !f.is_empty() && f.len() <= 3 && !factors.contains(&f) && factors.len() < 24 {
                            factors.push(f);
                        }
                    }
                }
                for (b, e) in m {
                    let f = vec![(*b, *e)];
                    if !factors.contains(&f) && factors.len() < 24 {
                        factors.push(f);
                    }
                }
            }
            let base_rows = rows.clone();
            let mut added = 0;
            for f in factors {
                let s = self.mono_sign(&f);
                if !s.0 && !s.1 {
                    continue;
                }
                let k = if s.0 { 1.0 } else { -1.0 };
                for (p, st) in &base_rows {
                    let mut r = Poly::new();
                    for (m, c) in p {
                        let e = r.entry(mmul(m, &f)).or_insert(0.0);
                        *e += c * k;
                    }
                    r.retain(|_, c| *c != 0.0);
                    if r.keys().any(|m| idx.contains_key(m)) && !rows.iter().any(|x| x.0 == r) && added < 60 {
                        added += 1;
                        for m in r.keys() {
                            if !m.is_empty() && !idx.contains_key(m) {
                                let n = idx.len();
                                idx.insert(m.clone(), n);
                            }
                        }
                        rows.push((r, *st && s.2));
                    }
                }
            }
        }
        // negated goal: d > 0 or d >= 0
        rows.push((pneg(d), !strict));
        let ms: Vec<Mono> = idx.keys().cloned().collect();
        for (i, m) in ms.iter().enumerate() {
            *idx.get_mut(m).unwrap() = i;
        }
        let n = ms.len();
        let signs: Vec<(bool, bool, bool)> = ms.iter().map(|m| self.mono_sign(m)).collect();
        // columns: for each monomial one (signed) or two (free); last: eps
        let mut col: Vec<(usize, i128)> = vec![]; // (first col, sign or 0 for free)
        let mut nc = 0;
        for s in &signs {
            if s.0 {
                col.push((nc, 1));
                nc += 1;
            } else if s.1 {
                col.push((nc, -1));
                nc += 1;
            } else {
                col.push((nc, 0));
                nc += 2;
            }
        }
        let eps = nc;
        nc += 1;
        let mut lrows: Vec<(Vec<Q>, Q)> = vec![];
        let mut anystrict = false;
        let mut mkrow = |p: &Poly, st: bool| -> Option<(Vec<Q>, Q)> {
            let mut r = vec![Q::Z; nc];
            let mut k = Q::Z;
            for (m, c) in p {
                let q = Q::from_f64(*c)?;
                if m.is_empty() {
                    k = q;
                    continue;
                }
                let (j, s) = col[idx[m]];
                if s == 0 {
                    r[j] = q;
                    r[j + 1] = q.neg();
                } else if s == 1 {
                    r[j] = q;
                } else {
                    r[j] = q.neg();
                }
            }
            if st {
                r[eps] = Q::ONE;
                anystrict = true;
            }
            Some((r, k.neg()))
        };
        let last = rows.len() - 1;
        for (i, (p, st)) in rows.iter().enumerate() {
            match mkrow(p, *st) {
                Some(r) => lrows.push(r),
                None => {
                    if i == last {
                        return false;
                    }
                }
            }
        }
        for i in 0..n {
            if signs[i].2 && (signs[i].0 || signs[i].1) {
                // |m| >= eps
                let mut r = vec![Q::Z; nc];
                r[col[i].0] = Q::i(-1);
                r[eps] = Q::ONE;
                anystrict = true;
                lrows.push((r, Q::Z));
            }
        }
        let mut r = vec![Q::Z; nc];
        r[eps] = Q::ONE;
        lrows.push((r, Q::ONE));
        let mut c = vec![Q::Z; nc];
        c[eps] = Q::ONE;
        match simplex(nc, &lrows, &c) {
            LpRes::Infeasible => true,
            LpRes::Max(q) => anystrict && q.n <= 0,
            _ => false,
        }
    }

    /// what holds of f(a) does not hold of a tracked f(x): then a is not x
    fn differ(&mut self, l: &Lin, not: &dyn Fn(&State, &Lin) -> bool) {
        if l.t.len() > 2 {
            return;
        }
        let mut add = vec![];
        for a in l.atoms() {
            let AK::App { f, arg } = ak(a) else { continue };
            if crate::is_sk(&arg) {
                continue;
            }
            let mut seen: Vec<A> = vec![];
            for g in &self.facts.le {
                for x in g.atoms() {
                    if x == a || seen.contains(&x) {
                        continue;
                    }
                    seen.push(x);
                    let AK::App { f: h, arg: y } = ak(x) else { continue };
                    if h != f || !crate::is_sk(&y) {
                        continue;
                    }
                    let m = l.subst(&|b| if b == a { Some(Lin::a(x)) } else { None });
                    if not(self, &m) {
                        add.push(arg.sub(&y));
                    }
                }
            }
        }
        if !add.is_empty() {
            Rc::make_mut(&mut self.facts).ne.extend(add);
            self.sharpen();
        }
    }
    pub fn assume(&mut self, b: &B, val: bool) {
        match (b, val) {
            (B::C(_), _) => {}
            (B::Not(x), v) => self.assume(x, !v),
            (B::Pred(p), v) => {
                Rc::make_mut(&mut self.facts).preds.insert(p.clone(), v);
                if v {
                    self.str_learn(p);
                }
            }
            (B::Le(l), true) => {
                self.assume_le(l.clone());
                self.differ(l, &|s, m| s.le0(&m.neg().addk(1)));
            }
            (B::Le(l), false) => {
                self.assume_le(l.neg().addk(1));
                self.differ(l, &|s, m| s.le0(m));
            }
            (B::Eq(l), true) => {
                self.assume_eq(l.clone());
                self.differ(l, &|s, m| s.ne0(m));
            }
            (B::Eq(l), false) => {
                Rc::make_mut(&mut self.facts).ne.push(l.clone());
                // different values of one function: different arguments
                let mut d = l.clone();
                while d.k == 0 && d.t.len() == 2 && d.t[0].1 == -d.t[1].1 {
                    let (AK::App { f: f1, arg: a1 }, AK::App { f: f2, arg: a2 }) = (ak(d.t[0].0), ak(d.t[1].0)) else { break };
                    if f1 != f2 {
                        break;
                    }
                    d = a1.sub(&a2);
                    Rc::make_mut(&mut self.facts).ne.push(d.clone());
                }
                self.differ(l, &|s, m| s.eq0(m));
                self.sharpen();
            }
            (B::F(r, x, y), v) => {
                let (rel, neg, a, bb) = match (r, v) {
                    (FR::Lt, true) => (FR::Lt, false, *x, *y),
                    (FR::Le, true) => (FR::Le, false, *x, *y),
                    (FR::Lt, false) => (FR::Le, false, *y, *x),
                    (FR::Le, false) => (FR::Lt, false, *y, *x),
                    (FR::Eq, true) => (FR::Eq, false, *x, *y),
                    (FR::Eq, false) => (FR::Eq, true, *x, *y),
                };
                // a <= b and a != b  =>  a < b is left to the solver of disequalities
                let f = FFact { rel, neg, a, b: bb };
                if !self.facts.fl.contains(&f) {
                    Rc::make_mut(&mut self.facts).fl.push(f.clone());
                }
                // combine <= with !=
                if f.neg || f.rel == FR::Le {
                    let mut add = vec![];
                    for g in &self.facts.fl {
                        if g.neg {
                            for h in &self.facts.fl {
                                if h.rel == FR::Le && ((h.a == g.a && h.b == g.b) || (h.a == g.b && h.b == g.a)) {
                                    add.push(FFact { rel: FR::Lt, neg: false, a: h.a, b: h.b });
                                }
                            }
                        }
                    }
                    for a in add {
                        if !self.facts.fl.contains(&a) {
                            Rc::make_mut(&mut self.facts).fl.push(a);
                        }
                    }
                }
            }
        }
    }

    /// decide, or ask the interpreter to fork
    pub fn test(&self, b: &B) -> R<bool> {
        match self.decide(b) {
            Dec::True => Ok(true),
            Dec::False => Ok(false),
            Dec::Unk => Err(Stop::Fork(b.clone())),
            Dec::Need(n) => Err(Stop::Fork(n)),
        }
    }
    pub fn test_eq(&self, a: &Lin, b: &Lin) -> R<bool> {
        let l = a.sub(b);
        match self.decide(&B::Eq(l.clone())) {
            Dec::True => Ok(true),
            Dec::False => Ok(false),
            _ => Err(Stop::Fork(B::Eq(l))),
        }
    }
    /// three-way: forks into <, ==, >
    pub fn cmp(&self, a: &Lin, b: &Lin) -> R<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        let d = a.sub(b);
        if self.test(&B::Le(d.addk(1)))? {
            return Ok(Less);
        }
        if self.test(&B::Le(d.clone()))? {
            return Ok(Equal);
        }
        Ok(Greater)
    }
}

pub fn nan_root(x: FT) -> Option<FT> {
    match fnode(x) {
        FN::Un("abs", a) | FN::Neg(a) | FN::Un("cast", a) => nan_root(a),
        _ => {
            if may_nan(x) {
                Some(x)
            } else {
                None
            }
        }
    }
}
pub fn pneg(p: &Poly) -> Poly {
    p.iter().map(|(m, c)| (m.clone(), -c)).collect()
}

pub fn inst_ft(e: FT, i: &Lin) -> FT {
    let j = atom(AK::BoundJ);
    let m = |a: A| if a == j { Some(i.clone()) } else { None };
    f_subst(e, &|l| lin_subst_deep(l, &m), &|_| None)
}
/// visit the integer terms inside a float term
pub fn f_lins(x: FT, f: &mut dyn FnMut(&Lin)) {
    match fnode(x) {
        FN::C(_) | FN::Sym { .. } | FN::BoundE(_) => {}
        FN::App { arg, .. } => f(&arg),
        FN::I2F(l) => f(&l),
        FN::Add(a, b) | FN::Sub(a, b) | FN::Mul(a, b) | FN::Div(a, b) | FN::Bin(_, a, b) => {
            f_lins(a, f);
            f_lins(b, f);
        }
        FN::Neg(a) | FN::Un(_, a) => f_lins(a, f),
    }
}
fn perm_apps(l: &Lin, out: &mut Vec<(Fun, Lin)>) {
    for a in l.atoms() {
        match ak(a) {
            AK::App { f, arg } => {
                perm_apps(&arg, out);
                if fun(f).perm && !out.contains(&(f, arg.clone())) {
                    out.push((f, arg));
                }
            }
            AK::Nl { args, .. } => {
                for x in args {
                    perm_apps(&x, out);
                }
            }
            _ => {}
        }
    }
}
