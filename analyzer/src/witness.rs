//! Before an alarm is reported the abstract state has to be non-empty: an element of its
//! concretisation is exhibited, by choosing values for the unknowns that satisfy every fact under
//! machine arithmetic. No element found, no alarm.
use crate::interp::is_f32_term;
use crate::lin::*;
use crate::state::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Key {
    A(A),
    IApp(Fun, i128),
    F(FT),
    FApp(Fun, i128),
}

struct Env {
    i: HashMap<Key, i128>,
    f: HashMap<Key, f64>,
    /// values of terms, until the next change
    memo: std::cell::RefCell<HashMap<FT, Option<f64>>>,
}

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 % (n.max(1) as u64)) as usize
    }
}

const POOL: [f64; 18] = [0.0, 1.0, 2.0, 0.5, -1.0, 3.0, 0.25, 0.75, -2.0, 4.0, 10.0, 0.125, 0.9, 0.01, 100.0, -0.5, -3.0, 1.5];

fn known_op(o: &str) -> bool {
    matches!(o, "mul" | "div" | "rem" | "wrap" | "cast")
}
fn wrap(x: i128, lo: i128, hi: i128) -> i128 {
    if x >= lo && x <= hi {
        return x;
    }
    let m = hi - lo + 1;
    (x - lo).rem_euclid(m) + lo
}

impl Env {
    fn lin(&self, l: &Lin) -> Option<i128> {
        let mut r = l.k;
        for (a, c) in &l.t {
            r = r.checked_add(self.atom(*a)?.checked_mul(*c)?)?;
        }
        Some(r)
    }
    fn atom(&self, a: A) -> Option<i128> {
        match ak(a) {
            AK::App { f, arg } => {
                let i = self.lin(&arg)?;
                self.i.get(&Key::IApp(f, i)).copied()
            }
            AK::F2I { x, lo, hi } => {
                if let FN::Un("bits", y) = fnode(x) {
                    return Some((self.flt(y)? as f32).to_bits() as i128);
                }
                let v = self.flt(x)?;
                Some(if v.is_nan() { 0 } else if v >= hi as f64 { hi } else if v <= lo as f64 { lo } else { v.trunc() as i128 })
            }
            AK::Nl { op, args, lo, hi } if known_op(op) => {
                let x = self.lin(&args[0])?;
                match op {
                    "wrap" | "cast" => Some(wrap(x, lo, hi)),
                    _ => {
                        let y = self.lin(&args[1])?;
                        match op {
                            "mul" => x.checked_mul(y),
                            "div" => {
                                if y == 0 {
                                    None
                                } else {
                                    Some(x.div_euclid(y))
                                }
                            }
                            _ => {
                                if y == 0 {
                                    None
                                } else {
                                    Some(x.rem_euclid(y))
                                }
                            }
                        }
                    }
                }
            }
            _ => self.i.get(&Key::A(a)).copied(),
        }
    }
    fn flt(&self, x: FT) -> Option<f64> {
        if let FN::C(b) = fnode(x) {
            return Some(f64::from_bits(b));
        }
        if let Some(v) = self.memo.borrow().get(&x) {
            return *v;
        }
        let v = self.flt_(x);
        self.memo.borrow_mut().insert(x, v);
        v
    }
    fn flt_(&self, x: FT) -> Option<f64> {
        let r = match fnode(x) {
            FN::C(b) => return Some(f64::from_bits(b)),
            FN::App { f, arg } => return self.f.get(&Key::FApp(f, self.lin(&arg)?)).copied(),
            FN::Sym { .. } | FN::BoundE(_) => return self.f.get(&Key::F(x)).copied(),
            FN::Add(a, b) => self.flt(a)? + self.flt(b)?,
            FN::Sub(a, b) => self.flt(a)? - self.flt(b)?,
            FN::Mul(a, b) => self.flt(a)? * self.flt(b)?,
            FN::Div(a, b) => self.flt(a)? / self.flt(b)?,
            FN::Neg(a) => -self.flt(a)?,
            FN::Un(o, a) => {
                let v = self.flt(a)?;
                match o {
                    "exp" => v.exp(),
                    "ln" => v.ln(),
                    "log2" => v.log2(),
                    "log10" => v.log10(),
                    "abs" => v.abs(),
                    "sqrt" => v.sqrt(),
                    "floor" => v.floor(),
                    "ceil" => v.ceil(),
                    "round" => v.round(),
                    "trunc" => v.trunc(),
                    "exp2" => v.exp2(),
                    "cast" => v as f32 as f64,
                    _ => return None,
                }
            }
            FN::Bin(o, a, b) => {
                let (u, v) = (self.flt(a)?, self.flt(b)?);
                match o {
                    "powf" => u.powf(v),
                    "rem" => u % v,
                    _ => return None,
                }
            }
            FN::I2F(l) => self.lin(&l)? as f64,
        };
        Some(if is_f32_term(x) { r as f32 as f64 } else { r })
    }
    fn fact(&self, f: &FFact) -> Option<bool> {
        let (a, b) = (self.flt(f.a)?, self.flt(f.b)?);
        if a.is_nan() || b.is_nan() {
            return Some(false);
        }
        Some(match f.rel {
            FR::Lt => a < b,
            FR::Le => a <= b,
            FR::Eq => (a == b) != f.neg,
        })
    }
}

fn ints(l: &Lin, st: &mut BTreeSet<A>, fl: &mut BTreeSet<FT>) {
    for a in l.atoms() {
        if !st.insert(a) {
            continue;
        }
        match ak(a) {
            AK::App { arg, .. } => ints(&arg, st, fl),
            AK::F2I { x, .. } => floats(x, st, fl),
            AK::Nl { op, args, .. } if known_op(op) => args.iter().for_each(|x| ints(x, st, fl)),
            _ => {}
        }
    }
}
thread_local! { static SEEN: std::cell::RefCell<std::collections::HashSet<FT>> = Default::default() }
fn floats(x: FT, st: &mut BTreeSet<A>, fl: &mut BTreeSet<FT>) {
    if !SEEN.with(|s| s.borrow_mut().insert(x)) {
        return;
    }
    match fnode(x) {
        FN::C(_) => {}
        FN::App { arg, .. } => {
            fl.insert(x);
            ints(&arg, st, fl);
        }
        FN::Sym { .. } | FN::BoundE(_) => {
            fl.insert(x);
        }
        FN::Add(a, b) | FN::Sub(a, b) | FN::Mul(a, b) | FN::Div(a, b) | FN::Bin(_, a, b) => {
            floats(a, st, fl);
            floats(b, st, fl);
        }
        FN::Neg(a) | FN::Un(_, a) => floats(a, st, fl),
        FN::I2F(l) => ints(&l, st, fl),
    }
}

pub fn concrete_element(s: &State) -> bool {
    SEEN.with(|s| s.borrow_mut().clear());
    let mut ia = BTreeSet::new();
    let mut fa = BTreeSet::new();
    for l in s.facts.le.iter().chain(s.facts.ne.iter()) {
        ints(l, &mut ia, &mut fa);
    }
    for f in &s.facts.fl {
        floats(f.a, &mut ia, &mut fa);
        floats(f.b, &mut ia, &mut fa);
    }
    // predicates about floats
    let mut cls: Vec<(FT, bool, bool)> = vec![]; // term, is-infinite (else is-nan), value
    for (p, v) in &s.facts.preds {
        if let Some(n) = p.strip_prefix("nan:").and_then(|n| n.parse::<FT>().ok()) {
            floats(n, &mut ia, &mut fa);
            cls.push((n, false, *v));
        } else if let Some(n) = p.strip_prefix("inf:").and_then(|n| n.parse::<FT>().ok()) {
            floats(n, &mut ia, &mut fa);
            cls.push((n, true, *v));
        }
    }
    // floats below integer terms found late
    for a in ia.clone() {
        if let AK::F2I { x, .. } = ak(a) {
            floats(x, &mut ia, &mut fa);
        }
    }
    let mut rng = Rng(0x9E3779B97F4A7C15);
    // arguments of applications first, so that applications have a definite key
    let mut base: Vec<A> = ia.iter().copied().filter(|a| matches!(ak(*a), AK::Sym { .. }) || matches!(ak(*a), AK::Nl{op,..} if !known_op(op))).collect();
    let apps: Vec<A> = ia.iter().copied().filter(|a| matches!(ak(*a), AK::App { .. })).collect();
    base.extend(apps);
    let trials = if base.is_empty() { 1 } else { 10 };
    for t in 0..trials {
        let mut env = Env { i: HashMap::new(), f: HashMap::new(), memo: Default::default() };
        let mut le = s.facts.le.clone();
        let mut ok = true;
        for a in &base {
            let key = match ak(*a) {
                AK::App { f, arg } => match env.lin(&arg) {
                    Some(i) => Key::IApp(f, i),
                    None => {
                        ok = false;
                        break;
                    }
                },
                _ => Key::A(*a),
            };
            let l = Lin::a(*a);
            let v = match env.i.get(&key) {
                Some(v) => *v,
                None => {
                    let (lo0, hi0) = bounds(*a);
                    let hi = match lp_max(&le, &l, false) {
                        LpRes::Max(q) => q.n.div_euclid(q.d).min(hi0),
                        LpRes::Infeasible => {
                            ok = false;
                            break;
                        }
                        _ => hi0,
                    };
                    let lo = match lp_max(&le, &l.neg(), false) {
                        LpRes::Max(q) => (-(q.n.div_euclid(q.d))).max(lo0),
                        LpRes::Infeasible => {
                            ok = false;
                            break;
                        }
                        _ => lo0,
                    };
                    if lo > hi {
                        ok = false;
                        break;
                    }
                    let span = (hi - lo).min(6) as usize + 1;
                    let mut v = match t {
                        0 => lo,
                        1 => (lo + 1).min(hi),
                        2 => (lo + 7).min(hi),
                        3 => hi,
                        _ => lo + rng.next(span) as i128,
                    };
                    // stay away from forbidden values
                    for _ in 0..8 {
                        let mut e2 = Env { i: env.i.clone(), f: HashMap::new(), memo: Default::default() };
                        e2.i.insert(key.clone(), v);
                        e2.memo.borrow_mut().clear();
                        if s.facts.ne.iter().any(|n| e2.lin(n) == Some(0)) {
                            v = if v < hi { v + 1 } else { lo };
                        } else {
                            break;
                        }
                    }
                    v
                }
            };
            env.i.insert(key, v);
            env.memo.borrow_mut().clear();
            le.push(l.addk(-v));
            le.push(l.neg().addk(v));
        }
        if !ok {
            continue;
        }
        // permutations are injective
        let mut seen: HashMap<(Fun, i128), i128> = HashMap::new();
        for (k, v) in &env.i {
            if let Key::IApp(f, i) = k {
                if fun(*f).perm {
                    if let Some(j) = seen.insert((*f, *v), *i) {
                        if j != *i {
                            ok = false;
                        }
                    }
                }
            }
        }
        if !ok {
            continue;
        }
        if float_part(s, &mut env, &fa, &cls, &mut rng) {
            return true;
        }
    }
    false
}

fn ints_hold(s: &State, env: &Env) -> bool {
    s.facts.le.iter().all(|l| env.lin(l).map_or(false, |v| v <= 0)) && s.facts.ne.iter().all(|l| env.lin(l).map_or(false, |v| v != 0))
}

fn float_part(s: &State, env: &mut Env, fa: &BTreeSet<FT>, cls: &[(FT, bool, bool)], rng: &mut Rng) -> bool {
    // distinct unknowns
    let mut leaves: Vec<(Key, FT)> = vec![];
    for x in fa {
        let k = match fnode(*x) {
            FN::App { f, arg } => match env.lin(&arg) {
                Some(i) => Key::FApp(f, i),
                None => return false,
            },
            _ => Key::F(*x),
        };
        if !leaves.iter().any(|l| l.0 == k) {
            leaves.push((k, *x));
        }
    }
    let check = |env: &Env| -> bool {
        ints_hold(s, env)
            && s.facts.fl.iter().all(|f| env.fact(f) == Some(true))
            && cls.iter().all(|(x, inf, v)| env.flt(*x).map_or(false, |y| if *inf { y.is_infinite() == *v } else { y.is_nan() == *v }))
            && {
                // order of arrays
                let mut by: HashMap<Fun, Vec<(i128, f64)>> = HashMap::new();
                for (k, v) in &env.f {
                    if let Key::FApp(f, i) = k {
                        by.entry(*f).or_default().push((*i, *v));
                    }
                }
                by.into_iter().all(|(f, mut v)| {
                    let g = fun(f);
                    v.sort_by_key(|x| x.0);
                    (!g.sorted_desc || v.windows(2).all(|w| w[0].1 >= w[1].1))
                        && (!g.sorted_asc || v.windows(2).all(|w| w[0].1 <= w[1].1))
                        && (!g.nonneg || v.iter().all(|w| w.1 >= 0.0))
                })
            }
    };
    if leaves.is_empty() {
        return check(env);
    }
    let trials = 400;
    let nl = leaves.len();
    for t in 0..trials {
        env.f.clear();
        env.memo.borrow_mut().clear();
        let mut order: Vec<usize> = (0..nl).collect();
        if t % 4 == 1 {
            order.reverse();
        } else if t % 4 >= 2 {
            for i in (1..nl).rev() {
                order.swap(i, rng.next(i + 1));
            }
        }
        let mut ok = true;
        for ix in order {
            let (k, x) = &leaves[ix];
            if let Some((_, inf, _)) = cls.iter().find(|c| c.2 && same_leaf(env, c.0, k)) {
                env.f.insert(k.clone(), if *inf { f64::INFINITY } else { f64::NAN });
                env.memo.borrow_mut().clear();
                continue;
            }
            let (mut lo, mut hi, mut los, mut his) = (f64::NEG_INFINITY, f64::INFINITY, true, true);
            if let FN::App { f, .. } = fnode(*x) {
                if fun(f).nonneg {
                    lo = 0.0;
                    los = false;
                }
            }
            for f in &s.facts.fl {
                if f.neg {
                    continue;
                }
                // affine in this unknown, everything else known?
                let mut g = |v: f64| -> Option<f64> {
                    env.f.insert(k.clone(), v);
                    env.memo.borrow_mut().clear();
                    Some(env.flt(f.a)? - env.flt(f.b)?)
                };
                let (Some(g0), Some(g1), Some(g2)) = (g(0.0), g(1.0), g(2.0)) else { continue };
                let m = g1 - g0;
                if m == 0.0 || !m.is_finite() || (g2 - g1 - m).abs() > 1e-6 * (1.0 + m.abs()) {
                    continue;
                }
                let r = -g0 / m; // g(v) rel 0  <=>  m (v - r) rel 0
                let strict = f.rel == FR::Lt;
                let up = m > 0.0;
                if f.rel == FR::Eq || up {
                    if r < hi {
                        hi = r;
                        his = strict;
                    } else if r == hi {
                        his |= strict;
                    }
                }
                if f.rel == FR::Eq || !up {
                    if r > lo {
                        lo = r;
                        los = strict;
                    } else if r == lo {
                        los |= strict;
                    }
                }
            }
            env.f.remove(k);
            env.memo.borrow_mut().clear();
            if lo > hi || (lo == hi && (los || his)) {
                ok = false;
                break;
            }
            let inside = |v: f64| (v > lo || (v == lo && !los)) && (v < hi || (v == hi && !his));
            let mut c: Vec<f64> = POOL.iter().copied().filter(|v| inside(*v)).collect();
            if lo.is_finite() && hi.is_finite() {
                c.push((lo + hi) / 2.0);
                c.push(lo + (hi - lo) * 0.1);
                c.push(lo + (hi - lo) * 0.9);
            } else if lo.is_finite() {
                c.push(lo + 1.0);
                c.push(lo + 0.1);
            } else if hi.is_finite() {
                c.push(hi - 1.0);
                c.push(hi - 0.1);
            }
            if lo.is_finite() && !los {
                c.push(lo);
            }
            if hi.is_finite() && !his {
                c.push(hi);
            }
            let w = if t < 8 { 3 } else { c.len() };
            let v = c[rng.next(w.min(c.len()))];
            env.f.insert(k.clone(), if is_f32_term(*x) { v as f32 as f64 } else { v });
            env.memo.borrow_mut().clear();
        }
        if ok && check(env) {
            return true;
        }
    }
    false
}
fn same_leaf(env: &Env, x: FT, k: &Key) -> bool {
    match (fnode(x), k) {
        (FN::App { f, arg }, Key::FApp(g, i)) => f == *g && env.lin(&arg) == Some(*i),
        (_, Key::F(y)) => x == *y,
        _ => false,
    }
}
