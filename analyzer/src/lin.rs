//! Linear integer terms over interned atoms, float terms, and the linear entailment procedure.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt;

pub type A = u32; // integer atom
pub type FT = u32; // float term
pub type Fun = u32; // function symbol (array version / permutation)

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin {
    pub k: i128,
    pub t: Vec<(A, i128)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AK {
    Sym { tag: String, lo: i128, hi: i128, phi: bool },
    App { f: Fun, arg: Lin },
    Nl { op: &'static str, args: Vec<Lin>, lo: i128, hi: i128 },
    F2I { x: FT, lo: i128, hi: i128 },
    BoundJ,
    BoundE(u32), // bound template atom, standing for App(E-th function, J)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FN {
    C(u64), // f64 bits
    Sym { tag: String, nan: bool, phi: bool },
    App { f: Fun, arg: Lin },
    BoundE(u32),
    Add(FT, FT),
    Sub(FT, FT),
    Mul(FT, FT),
    Div(FT, FT),
    Neg(FT),
    Un(&'static str, FT),
    Bin(&'static str, FT, FT),
    I2F(Lin),
}

#[derive(Clone, Debug, Default)]
pub struct FunInfo {
    pub tag: String,
    pub lo: i128,
    pub hi: i128,
    pub nan: bool,
    pub perm: bool,
    pub phi: bool,
    /// composed from parent by a permutation: self(j) = parent(perm(j))
    pub parent: Option<(Fun, Fun)>,
    /// non-increasing in index
    pub sorted_desc: bool,
    pub sorted_asc: bool,
    /// permutations act on 0..dom
    pub dom: Option<Lin>,
    pub nonneg: bool,
}

#[derive(Default)]
pub struct Interner {
    pub atoms: Vec<AK>,
    pub amap: HashMap<AK, A>,
    pub fts: Vec<FN>,
    pub fmap: HashMap<FN, FT>,
    pub funs: Vec<FunInfo>,
    pub polys: HashMap<FT, std::rc::Rc<Poly>>,
    /// permutation -> key terms over J that are ordered after it (desc?)
    pub sorted: HashMap<Fun, Vec<(FT, bool)>>,
}

thread_local! {
    pub static INT: RefCell<Interner> = RefCell::new(Interner::default());
}

pub const USIZE_MAX: i128 = u64::MAX as i128;

pub fn atom(k: AK) -> A {
    INT.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(a) = i.amap.get(&k) {
            return *a;
        }
        let a = i.atoms.len() as A;
        i.atoms.push(k.clone());
        i.amap.insert(k, a);
        a
    })
}
pub fn ak(a: A) -> AK {
    INT.with(|i| i.borrow().atoms[a as usize].clone())
}
pub fn ft(k: FN) -> FT {
    INT.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(a) = i.fmap.get(&k) {
            return *a;
        }
        let a = i.fts.len() as FT;
        i.fts.push(k.clone());
        i.fmap.insert(k, a);
        a
    })
}
pub fn fnode(a: FT) -> FN {
    INT.with(|i| i.borrow().fts[a as usize].clone())
}
pub fn new_fun(info: FunInfo) -> Fun {
    INT.with(|i| {
        let mut i = i.borrow_mut();
        i.funs.push(info);
        (i.funs.len() - 1) as Fun
    })
}
pub fn fun(f: Fun) -> FunInfo {
    INT.with(|i| i.borrow().funs[f as usize].clone())
}

thread_local! { static CNT: RefCell<u64> = RefCell::new(0); }
pub fn uniq() -> u64 {
    CNT.with(|c| {
        *c.borrow_mut() += 1;
        *c.borrow()
    })
}
pub fn fresh(tag: &str, lo: i128, hi: i128) -> Lin {
    Lin::a(atom(AK::Sym { tag: format!("{tag}#{}", uniq()), lo, hi, phi: false }))
}
pub fn fresh_phi(tag: &str, lo: i128, hi: i128) -> A {
    atom(AK::Sym { tag: format!("{tag}#{}", uniq()), lo, hi, phi: true })
}
pub fn fresh_f(tag: &str, nan: bool) -> FT {
    ft(FN::Sym { tag: format!("{tag}#{}", uniq()), nan, phi: false })
}
pub fn fresh_fphi(tag: &str, nan: bool) -> FT {
    ft(FN::Sym { tag: format!("{tag}#{}", uniq()), nan, phi: true })
}

pub fn bounds(a: A) -> (i128, i128) {
    INT.with(|i| {
        let i = i.borrow();
        match &i.atoms[a as usize] {
            AK::Sym { lo, hi, .. } | AK::Nl { lo, hi, .. } | AK::F2I { lo, hi, .. } => (*lo, *hi),
            AK::App { f, .. } => {
                let g = &i.funs[*f as usize];
                (g.lo, g.hi)
            }
            AK::BoundJ => (0, USIZE_MAX),
            AK::BoundE(_) => (-(1 << 64), 1 << 64),
        }
    })
}
pub fn is_phi(a: A) -> bool {
    matches!(ak(a), AK::Sym { phi: true, .. })
}

impl Lin {
    pub fn c(k: i128) -> Lin {
        Lin { k, t: vec![] }
    }
    pub fn a(a: A) -> Lin {
        Lin { k: 0, t: vec![(a, 1)] }
    }
    pub fn is_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.k)
        } else {
            None
        }
    }
    pub fn single(&self) -> Option<A> {
        if self.k == 0 && self.t.len() == 1 && self.t[0].1 == 1 {
            Some(self.t[0].0)
        } else {
            None
        }
    }
    pub fn add_scaled(&self, o: &Lin, s: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1 * s));
                j += 1;
            } else {
                let c = self.t[i].1 + o.t[j].1 * s;
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        if s == 0 {
            return self.clone();
        }
        Lin { k: self.k.saturating_add(o.k.saturating_mul(s)), t }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.add_scaled(o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add_scaled(o, -1)
    }
    pub fn addk(&self, k: i128) -> Lin {
        Lin { k: self.k + k, t: self.t.clone() }
    }
    pub fn scale(&self, s: i128) -> Lin {
        if s == 0 {
            return Lin::c(0);
        }
        Lin { k: self.k * s, t: self.t.iter().map(|(a, c)| (*a, c * s)).collect() }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    /// divide by the gcd of coefficients, rounding the constant (constraint <= 0)
    pub fn tighten(mut self) -> Lin {
        let mut g: i128 = 0;
        for (_, c) in &self.t {
            g = gcd(g, c.abs());
        }
        if g > 1 {
            for (_, c) in self.t.iter_mut() {
                *c /= g;
            }
            // sum + k <= 0  => sum/g <= floor(-k/g)
            self.k = -((-self.k).div_euclid(g));
        }
        self
    }
    pub fn subst(&self, m: &dyn Fn(A) -> Option<Lin>) -> Lin {
        let mut r = Lin::c(self.k);
        for (a, c) in &self.t {
            let v = match m(*a) {
                Some(l) => l,
                None => Lin::a(*a),
            };
            r = r.add_scaled(&v, *c);
        }
        r
    }
    pub fn atoms(&self) -> impl Iterator<Item = A> + '_ {
        self.t.iter().map(|x| x.0)
    }
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    if a <= u64::MAX as i128 && b <= u64::MAX as i128 {
        let (mut a, mut b) = (a as u64, b as u64);
        while b != 0 {
            let t = a % b;
            a = b;
            b = t;
        }
        return a as i128;
    }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

pub fn show_atom(a: A) -> String {
    match ak(a) {
        AK::Sym { tag, phi, .. } => format!("{}{}", if phi { "φ" } else { "" }, tag),
        AK::App { f, arg } => format!("{}[{:?}]", fun(f).tag, arg),
        AK::Nl { op, args, .. } => format!("{op}{args:?}"),
        AK::F2I { x, .. } => format!("int({})", show_ft(x)),
        AK::BoundJ => "J".into(),
        AK::BoundE(e) => format!("E{e}"),
    }
}
impl fmt::Debug for Lin {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut s = String::new();
        for (i, (a, c)) in self.t.iter().enumerate() {
            if *c == 1 {
                if i > 0 {
                    s += "+";
                }
            } else if *c == -1 {
                s += "-";
            } else {
                if i > 0 && *c > 0 {
                    s += "+";
                }
                s += &format!("{c}*");
            }
            s += &show_atom(*a);
        }
        if self.k != 0 || self.t.is_empty() {
            if self.k >= 0 && !self.t.is_empty() {
                s += "+";
            }
            s += &format!("{}", self.k);
        }
        write!(f, "{s}")
    }
}
pub fn show_ft(x: FT) -> String {
    match fnode(x) {
        FN::C(b) => format!("{}", f64::from_bits(b)),
        FN::Sym { tag, phi, .. } => format!("{}{}", if phi { "φ" } else { "" }, tag),
        FN::App { f, arg } => format!("{}[{:?}]", fun(f).tag, arg),
        FN::BoundE(e) => format!("FE{e}"),
        FN::Add(a, b) => format!("({} + {})", show_ft(a), show_ft(b)),
        FN::Sub(a, b) => format!("({} - {})", show_ft(a), show_ft(b)),
        FN::Mul(a, b) => format!("({} * {})", show_ft(a), show_ft(b)),
        FN::Div(a, b) => format!("({} / {})", show_ft(a), show_ft(b)),
        FN::Neg(a) => format!("-{}", show_ft(a)),
        FN::Un(o, a) => format!("{o}({})", show_ft(a)),
        FN::Bin(o, a, b) => format!("{o}({}, {})", show_ft(a), show_ft(b)),
        FN::I2F(l) => format!("f({l:?})"),
    }
}

// ---------------------------------------------------------------- float helpers
pub fn fc(x: f64) -> FT {
    let x = if x == 0.0 { 0.0 } else { x };
    ft(FN::C(x.to_bits()))
}
pub fn fconst(x: FT) -> Option<f64> {
    match fnode(x) {
        FN::C(b) => Some(f64::from_bits(b)),
        FN::I2F(l) => l.is_const().map(|k| k as f64),
        _ => None,
    }
}
pub fn f_bin(op: &str, a: FT, b: FT) -> FT {
    if let (Some(x), Some(y)) = (fconst(a), fconst(b)) {
        // f32 arithmetic on constants, when exact in f64 it is stored as is
        let (x, y) = (x as f32, y as f32);
        let r = match op {
            "add" => x + y,
            "sub" => x - y,
            "mul" => x * y,
            "div" => x / y,
            _ => f32::NAN,
        };
        if !r.is_nan() {
            return fc(r as f64);
        }
    }
    match op {
        "add" => {
            if fconst(a) == Some(0.0) {
                return b;
            }
            if fconst(b) == Some(0.0) {
                return a;
            }
            ft(FN::Add(a, b))
        }
        "sub" => {
            if fconst(b) == Some(0.0) {
                return a;
            }
            ft(FN::Sub(a, b))
        }
        "mul" => {
            if fconst(a) == Some(1.0) {
                return b;
            }
            if fconst(b) == Some(1.0) {
                return a;
            }
            ft(FN::Mul(a, b))
        }
        "div" => {
            if fconst(b) == Some(1.0) {
                return a;
            }
            ft(FN::Div(a, b))
        }
        "rem" => ft(FN::Bin("rem", a, b)),
        _ => ft(FN::Bin("fop", a, b)),
    }
}
pub fn f_neg(a: FT) -> FT {
    match fnode(a) {
        FN::C(b) => fc(-f64::from_bits(b)),
        FN::Neg(x) => x,
        _ => ft(FN::Neg(a)),
    }
}
pub fn may_nan(x: FT) -> bool {
    match fnode(x) {
        FN::C(b) => f64::from_bits(b).is_nan(),
        FN::Sym { nan, .. } => nan,
        FN::App { f, .. } => fun(f).nan,
        _ => false,
    }
}
/// does float term `x` syntactically depend on `y`
pub fn f_depends(x: FT, y: FT) -> bool {
    if x == y {
        return true;
    }
    match fnode(x) {
        FN::Add(a, b) | FN::Sub(a, b) | FN::Mul(a, b) | FN::Div(a, b) | FN::Bin(_, a, b) => f_depends(a, y) || f_depends(b, y),
        FN::Neg(a) | FN::Un(_, a) => f_depends(a, y),
        _ => false,
    }
}
pub fn f_subst(x: FT, ml: &dyn Fn(&Lin) -> Lin, mf: &dyn Fn(FT) -> Option<FT>) -> FT {
    if let Some(r) = mf(x) {
        return r;
    }
    match fnode(x) {
        FN::C(_) | FN::Sym { .. } | FN::BoundE(_) => x,
        FN::App { f, arg } => ft(FN::App { f, arg: ml(&arg) }),
        FN::Add(a, b) => f_bin("add", f_subst(a, ml, mf), f_subst(b, ml, mf)),
        FN::Sub(a, b) => f_bin("sub", f_subst(a, ml, mf), f_subst(b, ml, mf)),
        FN::Mul(a, b) => f_bin("mul", f_subst(a, ml, mf), f_subst(b, ml, mf)),
        FN::Div(a, b) => f_bin("div", f_subst(a, ml, mf), f_subst(b, ml, mf)),
        FN::Neg(a) => f_neg(f_subst(a, ml, mf)),
        FN::Un(o, a) => ft(FN::Un(o, f_subst(a, ml, mf))),
        FN::Bin(o, a, b) => ft(FN::Bin(o, f_subst(a, ml, mf), f_subst(b, ml, mf))),
        FN::I2F(l) => ft(FN::I2F(ml(&l))),
    }
}
/// substitute atoms inside a linear term, also within App arguments
pub fn lin_subst_deep(l: &Lin, m: &dyn Fn(A) -> Option<Lin>) -> Lin {
    l.subst(&|a| {
        if let Some(r) = m(a) {
            return Some(r);
        }
        match ak(a) {
            AK::App { f, arg } => {
                let n = lin_subst_deep(&arg, m);
                if n == arg {
                    None
                } else {
                    Some(Lin::a(atom(AK::App { f, arg: n })))
                }
            }
            AK::Nl { op, args, lo, hi } => {
                let n: Vec<Lin> = args.iter().map(|x| lin_subst_deep(x, m)).collect();
                if n == args {
                    None
                } else {
                    Some(Lin::a(atom(AK::Nl { op, args: n, lo, hi })))
                }
            }
            _ => None,
        }
    })
}

// ---------------------------------------------------------------- polynomials over float bases
pub type Mono = Vec<(FT, i32)>;
pub type Poly = BTreeMap<Mono, f64>;

pub fn poly(x: FT) -> std::rc::Rc<Poly> {
    if let Some(p) = INT.with(|i| i.borrow().polys.get(&x).cloned()) {
        return p;
    }
    let p = std::rc::Rc::new(poly_(x));
    INT.with(|i| i.borrow_mut().polys.insert(x, p.clone()));
    p
}
fn padd(a: &Poly, b: &Poly, s: f64) -> Poly {
    let mut r = a.clone();
    for (m, c) in b {
        let e = r.entry(m.clone()).or_insert(0.0);
        *e += c * s;
        if *e == 0.0 {
            r.remove(m);
        }
    }
    r
}
pub fn mmul(a: &Mono, b: &Mono) -> Mono {
    let mut m: BTreeMap<FT, i32> = a.iter().copied().collect();
    for (t, e) in b {
        let x = m.entry(*t).or_insert(0);
        *x += e;
        if *x == 0 {
            m.remove(t);
        }
    }
    m.into_iter().collect()
}
fn pmul(a: &Poly, b: &Poly) -> Poly {
    let mut r = Poly::new();
    for (m1, c1) in a {
        for (m2, c2) in b {
            let m = mmul(m1, m2);
            let e = r.entry(m).or_insert(0.0);
            *e += c1 * c2;
        }
    }
    r.retain(|_, c| *c != 0.0);
    r
}
fn base(x: FT) -> Poly {
    let mut p = Poly::new();
    p.insert(vec![(x, 1)], 1.0);
    p
}
fn pconst(c: f64) -> Poly {
    let mut p = Poly::new();
    if c != 0.0 {
        p.insert(vec![], c);
    }
    p
}
fn poly_(x: FT) -> Poly {
    match fnode(x) {
        FN::C(b) => {
            let c = f64::from_bits(b);
            if c.is_finite() {
                pconst(c)
            } else {
                base(x)
            }
        }
        FN::Add(a, b) => padd(&poly(a), &poly(b), 1.0),
        FN::Sub(a, b) => padd(&poly(a), &poly(b), -1.0),
        FN::Neg(a) => padd(&Poly::new(), &poly(a), -1.0),
        FN::Mul(a, b) => {
            let r = pmul(&poly(a), &poly(b));
            if r.len() > 24 {
                base(x)
            } else {
                r
            }
        }
        FN::Div(a, b) => {
            let pb = poly(b);
            if pb.len() == 1 {
                let (m, c) = pb.iter().next().unwrap();
                let inv: Mono = m.iter().map(|(t, e)| (*t, -e)).collect();
                let mut p = Poly::new();
                p.insert(inv, 1.0 / c);
                pmul(&poly(a), &p)
            } else {
                let mut p = Poly::new();
                p.insert(vec![(poly_term(&pb), -1)], 1.0);
                pmul(&poly(a), &p)
            }
        }
        FN::I2F(l) => {
            let mut p = pconst(l.k as f64);
            for (a, c) in &l.t {
                p = padd(&p, &base(ft(FN::I2F(Lin::a(*a)))), *c as f64);
            }
            p
        }
        FN::Un(o, a) => {
            if o == "abs" {
                // |-a| = |a|
                let p = poly(a);
                if let Some((_, c)) = p.iter().next() {
                    if *c < 0.0 {
                        let q = padd(&Poly::new(), &p, -1.0);
                        return base(ft(FN::Un("abs", poly_term(&q))));
                    }
                }
            }
            let t = poly_term(&poly(a));
            base(ft(FN::Un(o, t)))
        }
        FN::Bin(o, a, b) => {
            let (ta, tb) = (poly_term(&poly(a)), poly_term(&poly(b)));
            base(ft(FN::Bin(o, ta, tb)))
        }
        _ => base(x),
    }
}
/// canonical term for a polynomial
pub fn poly_term(p: &Poly) -> FT {
    let mut acc: Option<FT> = None;
    for (m, c) in p {
        let mut t: Option<FT> = None;
        for (b, e) in m {
            for _ in 0..e.abs() {
                t = Some(match (t, *e > 0) {
                    (None, true) => *b,
                    (None, false) => f_bin("div", fc(1.0), *b),
                    (Some(x), true) => ft(FN::Mul(x, *b)),
                    (Some(x), false) => ft(FN::Div(x, *b)),
                });
            }
        }
        let t = match t {
            None => fc(*c),
            Some(t) if *c == 1.0 => t,
            Some(t) => ft(FN::Mul(fc(*c), t)),
        };
        acc = Some(match acc {
            None => t,
            Some(a) => ft(FN::Add(a, t)),
        });
    }
    acc.unwrap_or_else(|| fc(0.0))
}
pub fn f_same(a: FT, b: FT) -> bool {
    a == b || poly(a) == poly(b)
}
pub fn poly_sub(a: FT, b: FT) -> Poly {
    padd(&poly(a), &poly(b), -1.0)
}

// ---------------------------------------------------------------- rationals
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}
#[derive(Debug)]
pub struct Ovf;
impl Q {
    pub const Z: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };
    pub fn i(n: i128) -> Q {
        Q { n, d: 1 }
    }
    fn mk(n: i128, d: i128) -> Q {
        if d == 1 {
            return Q { n, d };
        }
        if d == -1 {
            return Q { n: -n, d: 1 };
        }
        let g = gcd(n, d);
        let (n, d) = if g > 1 { (n / g, d / g) } else { (n, d) };
        if d < 0 {
            Q { n: -n, d: -d }
        } else {
            Q { n, d }
        }
    }
    pub fn add(self, o: Q) -> Result<Q, Ovf> {
        if self.d == 1 && o.d == 1 {
            return Ok(Q { n: self.n.checked_add(o.n).ok_or(Ovf)?, d: 1 });
        }
        let n = self.n.checked_mul(o.d).ok_or(Ovf)?.checked_add(o.n.checked_mul(self.d).ok_or(Ovf)?).ok_or(Ovf)?;
        Ok(Q::mk(n, self.d.checked_mul(o.d).ok_or(Ovf)?))
    }
    pub fn mul(self, o: Q) -> Result<Q, Ovf> {
        if self.n == 0 || o.n == 0 {
            return Ok(Q::Z);
        }
        if self.d == 1 && o.d == 1 {
            if self.n == 1 {
                return Ok(o);
            }
            if o.n == 1 {
                return Ok(self);
            }
            return Ok(Q { n: self.n.checked_mul(o.n).ok_or(Ovf)?, d: 1 });
        }
        Ok(Q::mk(self.n.checked_mul(o.n).ok_or(Ovf)?, self.d.checked_mul(o.d).ok_or(Ovf)?))
    }
    pub fn div(self, o: Q) -> Result<Q, Ovf> {
        Ok(Q::mk(self.n.checked_mul(o.d).ok_or(Ovf)?, self.d.checked_mul(o.n).ok_or(Ovf)?))
    }
    pub fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
    pub fn sgn(self) -> i32 {
        self.n.signum() as i32
    }
    pub fn lt(self, o: Q) -> Result<bool, Ovf> {
        if self.d == 1 && o.d == 1 {
            return Ok(self.n < o.n);
        }
        Ok(self.n.checked_mul(o.d).ok_or(Ovf)? < o.n.checked_mul(self.d).ok_or(Ovf)?)
    }
    pub fn from_f64(x: f64) -> Option<Q> {
        if !x.is_finite() {
            return None;
        }
        let mut d: i128 = 1;
        let mut y = x;
        let mut i = 0;
        while y != y.trunc() {
            y *= 2.0;
            d *= 2;
            i += 1;
            if i > 60 {
                return None;
            }
        }
        if y.abs() > 1e30 {
            return None;
        }
        Some(Q::mk(y as i128, d))
    }
}

pub enum LpRes {
    Infeasible,
    Unbounded,
    Max(Q),
    Unknown,
}

/// a feasible dictionary: basic[i] = b[i] - sum t[i][j]*nonbasic[j]
#[derive(Clone)]
struct Dict {
    t: Vec<Vec<Q>>,
    b: Vec<Q>,
    nonb: Vec<usize>,
    bas: Vec<usize>,
}

/// maximize c.x subject to rows (a.x <= b), x >= 0
pub fn simplex(nv: usize, rows: &[(Vec<Q>, Q)], c: &[Q]) -> LpRes {
    match phase1(nv, rows) {
        Ok(Some(mut d)) => phase2(nv, &mut d, c).unwrap_or(LpRes::Unknown),
        Ok(None) => LpRes::Infeasible,
        Err(Ovf) => LpRes::Unknown,
    }
}
fn phase1(nv: usize, rows: &[(Vec<Q>, Q)]) -> Result<Option<Dict>, Ovf> {
    let m = rows.len();
    let mut t: Vec<Vec<Q>> = rows.iter().map(|r| r.0.clone()).collect();
    let mut b: Vec<Q> = rows.iter().map(|r| r.1).collect();
    let mut nonb: Vec<usize> = (0..nv).collect();
    let mut bas: Vec<usize> = (nv..nv + m).collect();
    let need1 = b.iter().any(|x| x.sgn() < 0);
    if need1 {
        // x0 column with coefficient -1
        for r in t.iter_mut() {
            r.push(Q::i(-1));
        }
        nonb.push(usize::MAX); // x0
        let mut o = vec![Q::Z; nv];
        o.push(Q::i(-1));
        let mut zz = Q::Z;
        // pivot x0 with most negative row
        let mut l = 0;
        for i in 1..m {
            if b[i].lt(b[l])? {
                l = i;
            }
        }
        pivot(&mut t, &mut b, &mut o, &mut zz, &mut nonb, &mut bas, l, nv)?;
        match run(&mut t, &mut b, &mut o, &mut zz, &mut nonb, &mut bas)? {
            true => {}
            false => return Err(Ovf),
        }
        if zz.sgn() < 0 {
            return Ok(None);
        }
        // drive x0 out
        if let Some(i) = bas.iter().position(|x| *x == usize::MAX) {
            let mut j = None;
            for (jj, q) in t[i].iter().enumerate() {
                if q.sgn() != 0 {
                    j = Some(jj);
                    break;
                }
            }
            match j {
                Some(j) => pivot(&mut t, &mut b, &mut o, &mut zz, &mut nonb, &mut bas, i, j)?,
                None => {
                    t.remove(i);
                    b.remove(i);
                    bas.remove(i);
                }
            }
        }
        if let Some(j) = nonb.iter().position(|x| *x == usize::MAX) {
            for r in t.iter_mut() {
                r.remove(j);
            }
            nonb.remove(j);
        }
    }
    Ok(Some(Dict { t, b, nonb, bas }))
}
fn phase2(nv: usize, d: &mut Dict, c: &[Q]) -> Result<LpRes, Ovf> {
    // objective in terms of nonbasics
    let mut z = Q::Z;
    let mut o = vec![Q::Z; d.nonb.len()];
    for (j, x) in d.nonb.iter().enumerate() {
        if *x < nv {
            o[j] = o[j].add(c[*x])?;
        }
    }
    for (i, x) in d.bas.iter().enumerate() {
        if *x < nv && c[*x].sgn() != 0 {
            z = z.add(c[*x].mul(d.b[i])?)?;
            for j in 0..d.nonb.len() {
                if d.t[i][j].n != 0 {
                    o[j] = o[j].add(c[*x].mul(d.t[i][j])?.neg())?;
                }
            }
        }
    }
    if run(&mut d.t, &mut d.b, &mut o, &mut z, &mut d.nonb, &mut d.bas)? {
        Ok(LpRes::Max(z))
    } else {
        Ok(LpRes::Unbounded)
    }
}
fn run(t: &mut Vec<Vec<Q>>, b: &mut Vec<Q>, o: &mut Vec<Q>, z: &mut Q, nonb: &mut Vec<usize>, bas: &mut Vec<usize>) -> Result<bool, Ovf> {
    for iter in 0..2000 {
        // Bland after some iterations, largest coefficient first
        let mut e: Option<usize> = None;
        for j in 0..nonb.len() {
            if o[j].sgn() > 0 {
                match e {
                    None => e = Some(j),
                    Some(k) => {
                        if iter > 60 {
                            if nonb[j] < nonb[k] {
                                e = Some(j)
                            }
                        } else if o[k].lt(o[j])? {
                            e = Some(j)
                        }
                    }
                }
            }
        }
        let Some(e) = e else { return Ok(true) };
        let mut l: Option<(usize, Q)> = None;
        for i in 0..bas.len() {
            if t[i][e].sgn() > 0 {
                let r = b[i].div(t[i][e])?;
                match &l {
                    None => l = Some((i, r)),
                    Some((li, lr)) => {
                        if r.lt(*lr)? || (!lr.lt(r)? && bas[i] < bas[*li]) {
                            l = Some((i, r))
                        }
                    }
                }
            }
        }
        let Some((l, _)) = l else { return Ok(false) };
        pivot(t, b, o, z, nonb, bas, l, e)?;
    }
    Err(Ovf)
}
fn pivot(t: &mut Vec<Vec<Q>>, b: &mut Vec<Q>, o: &mut Vec<Q>, z: &mut Q, nonb: &mut Vec<usize>, bas: &mut Vec<usize>, l: usize, e: usize) -> Result<(), Ovf> {
    let p = t[l][e];
    let n = nonb.len();
    // x_e = (b_l - x_l - sum_{j!=e} t_lj x_j)/p
    let bl = b[l].div(p)?;
    let mut row: Vec<Q> = Vec::with_capacity(n);
    for j in 0..n {
        row.push(if j == e { Q::ONE.div(p)? } else if t[l][j].n == 0 { Q::Z } else { t[l][j].div(p)? });
    }
    for i in 0..bas.len() {
        if i == l {
            continue;
        }
        let f = t[i][e];
        if f.n == 0 {
            continue;
        }
        b[i] = b[i].add(f.mul(bl)?.neg())?;
        for j in 0..n {
            if j == e {
                t[i][j] = f.mul(row[j])?.neg();
            } else if row[j].n != 0 {
                t[i][j] = t[i][j].add(f.mul(row[j])?.neg())?;
            }
        }
    }
    let f = o[e];
    if f.n != 0 {
        *z = z.add(f.mul(bl)?)?;
        for j in 0..n {
            if j == e {
                o[j] = f.mul(row[j])?.neg();
            } else if row[j].n != 0 {
                o[j] = o[j].add(f.mul(row[j])?.neg())?;
            }
        }
    }
    b[l] = bl;
    t[l] = row;
    std::mem::swap(&mut nonb[e], &mut bas[l]);
    Ok(())
}

pub const BIG: i128 = 1 << 40;

/// maximise `obj` subject to facts (each <= 0); `big` adds type upper bounds
pub fn lp_max(facts: &[Lin], obj: &Lin, big: bool) -> LpRes {
    // relevant component
    let mut vars: Vec<A> = vec![];
    let mut idx: HashMap<A, usize> = HashMap::new();
    let mut used = vec![false; facts.len()];
    let all = obj.t.is_empty();
    for a in obj.atoms() {
        if !idx.contains_key(&a) {
            idx.insert(a, vars.len());
            vars.push(a);
        }
    }
    loop {
        let mut ch = false;
        for (i, f) in facts.iter().enumerate() {
            if used[i] {
                continue;
            }
            if f.t.is_empty() {
                if f.k > 0 {
                    return LpRes::Infeasible;
                }
                used[i] = true;
                continue;
            }
            if all || f.atoms().any(|a| idx.contains_key(&a)) {
                used[i] = true;
                ch = true;
                for a in f.atoms() {
                    if !idx.contains_key(&a) {
                        idx.insert(a, vars.len());
                        vars.push(a);
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    vars.sort();
    let mut key: Vec<&Lin> = facts.iter().enumerate().filter(|(i, f)| used[*i] && !f.t.is_empty()).map(|x| x.1).collect();
    key.sort();
    key.dedup();
    let idx: HashMap<A, usize> = vars.iter().enumerate().map(|(i, a)| (*a, i)).collect();
    let bnd: Vec<(i128, i128)> = vars.iter().map(|a| bounds(*a)).collect();
    let nv = vars.len();
    let h = {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&vars, &key, big).hash(&mut h);
        h.finish()
    };
    let hit = LPC.with(|m| match m.borrow().get(&h) {
        Some(e) if e.vars == vars && e.big == big && e.facts.len() == key.len() && e.facts.iter().zip(key.iter()).all(|(a, b)| a == *b) => Some(e.dict.clone()),
        _ => None,
    });
    let dict: Option<Dict> = match hit {
        Some(d) => d,
        None => {
            let mut rows: Vec<(Vec<Q>, Q)> = vec![];
            let mut push = |f: &Lin| {
                let mut r = vec![Q::Z; nv];
                let mut k = f.k;
                for (a, c) in &f.t {
                    let i = idx[a];
                    r[i] = Q::i(*c);
                    k += c * bnd[i].0;
                }
                rows.push((r, Q::i(-k)));
            };
            for f in &key {
                push(f);
            }
            for (i, a) in vars.iter().enumerate() {
                if big || bnd[i].1 <= BIG {
                    let mut f = Lin::a(*a);
                    f.k = -bnd[i].1;
                    push(&f);
                }
            }
            let d = match phase1(nv, &rows) {
                Ok(d) => d,
                Err(Ovf) => return LpRes::Unknown,
            };
            let facts = key.iter().map(|x| (*x).clone()).collect();
            LPC.with(|m| {
                let mut m = m.borrow_mut();
                if m.len() > 400 {
                    m.clear();
                }
                m.insert(h, LpEnt { vars: vars.clone(), facts, big, dict: d.clone() });
            });
            d
        }
    };
    let Some(mut dict) = dict else { return LpRes::Infeasible };
    if all {
        return LpRes::Max(Q::i(obj.k));
    }
    let mut c = vec![Q::Z; nv];
    let mut k = obj.k;
    for (a, co) in &obj.t {
        let i = idx[a];
        c[i] = Q::i(*co);
        k += co * bnd[i].0;
    }
    match phase2(nv, &mut dict, &c) {
        Ok(LpRes::Max(q)) => match q.add(Q::i(k)) {
            Ok(q) => LpRes::Max(q),
            Err(_) => LpRes::Unknown,
        },
        Ok(r) => r,
        Err(Ovf) => LpRes::Unknown,
    }
}

struct LpEnt {
    vars: Vec<A>,
    facts: Vec<Lin>,
    big: bool,
    dict: Option<Dict>,
}
thread_local! {
    static LPC: RefCell<HashMap<u64, LpEnt>> = RefCell::new(HashMap::new());
}
