//! Join of abstract states at loop heads.
use crate::interp::*;
use crate::lin::*;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

fn jj() -> A {
    atom(AK::BoundJ)
}
fn has_j(l: &Lin) -> bool {
    l.atoms().any(|a| match ak(a) {
        AK::BoundJ => true,
        AK::App { arg, .. } => has_j(&arg),
        AK::Nl { args, .. } => args.iter().any(has_j),
        _ => false,
    })
}
fn f_has_j(x: FT) -> bool {
    let mut r = false;
    f_lins(x, &mut |l| r |= has_j(l));
    r
}

// ---------------------------------------------------------------- shapes
pub fn shape(s: &State) -> String {
    let mut o = String::new();
    for f in &s.frames {
        o += "[";
        for v in f.locals.iter() {
            sh(v, &mut o);
            o.push(',');
        }
        o += "]";
    }
    for ((f, h), v) in s.visited.iter() {
        o += &format!("V{f}.{h}:{v:?}");
    }
    for (k, v) in s.ghost.iter() {
        o += &format!("G{k}");
        sh(v, &mut o);
    }
    if s.taint.is_some() {
        o += "T";
    }
    o
}
fn plain(v: &V) -> bool {
    match v {
        V::Int(_) | V::F(_) | V::Undef => true,
        V::Agg(a) => a.iter().all(plain),
        V::Ptr(p) => matches!(p.root, Root::Local(..)) && !matches!(p.meta, Meta::Dyn(_)),
        V::Bx(x, Some(_)) => plain(x),
        _ => false,
    }
}
/// elements one template can stand for
fn summable(l: &[V]) -> bool {
    if !l.iter().all(plain) {
        return false;
    }
    if !l.iter().any(|v| matches!(v, V::Bx(..))) {
        return true;
    }
    let sk = |v: &V| {
        let mut o = String::new();
        sh(v, &mut o);
        o
    };
    let f = sk(&l[0]);
    l.iter().all(|v| sk(v) == f)
}
fn sh(v: &V, o: &mut String) {
    match v {
        V::Undef => o.push('_'),
        V::Unk => o.push('?'),
        V::Int(_) => o.push('i'),
        V::F(_) => o.push('f'),
        V::Bool(B::C(b)) => o.push(if *b { 't' } else { 'n' }),
        V::Bool(_) => o.push('b'),
        V::Str(S::C(c)) => {
            o.push('"');
            o.push_str(c);
            o.push('"')
        }
        V::Str(s) => o.push_str(&s.show()),
        V::Ptr(p) => {
            o.push('*');
            match &p.root {
                Root::Local(f, l) => o.push_str(&format!("{f}.{l}")),
                Root::Const(c) => {
                    o.push('c');
                    sh(&c.0, o)
                }
            }
            for e in &p.proj {
                match e {
                    Pj::Field(k) => o.push_str(&format!(".{k}")),
                    Pj::Boxed => o.push('^'),
                    Pj::Elem(_) => o.push('#'),
                    Pj::MapVal(k) => o.push_str(&format!("m{k}")),
                }
            }
            match &p.meta {
                Meta::None => {}
                Meta::Slice(..) => o.push('S'),
                Meta::Dyn(t) => o.push_str(&format!("<{t:?}>")),
            }
        }
        V::Agg(a) => {
            o.push('(');
            for x in a.iter() {
                sh(x, o);
            }
            o.push(')');
        }
        V::Enum(k, a) => {
            o.push_str(&format!("{k}("));
            for x in a.iter() {
                sh(x, o);
            }
            o.push(')');
        }
        V::Bx(x, t) => {
            o.push('B');
            if let Some(t) = t {
                o.push_str(&format!("<{t:?}>"));
            }
            sh(x, o);
        }
        V::Arr(a) => match &a.body {
            AB::List(l) if !summable(l) => {
                o.push_str(&format!("L{}{{", l.len()));
                for x in l {
                    sh(x, o);
                }
                o.push('}');
            }
            AB::List(l) => match l.first() {
                Some(v @ V::Bx(..)) => {
                    o.push_str("A");
                    sh(v, o);
                }
                _ => o.push_str("A"),
            },
            AB::Tm { t, .. } => match t {
                V::Bx(..) => {
                    o.push_str("A");
                    sh(t, o);
                }
                _ => o.push_str("A"),
            },
        },
        V::Opq(q) => {
            o.push_str(&q.0);
            o.push('(');
            for x in q.1.iter() {
                sh(x, o);
            }
            o.push(')');
        }
        V::FnP(i) => o.push_str(&i.name()),
    }
}

pub fn mentions_sk(v: &V) -> bool {
    let r = std::cell::Cell::new(false);
    map_v(
        v,
        &|l| {
            if lin_sk(l) {
                r.set(true);
            }
            l.clone()
        },
        &|x| {
            f_lins(x, &mut |l| {
                if lin_sk(l) {
                    r.set(true)
                }
            });
            x
        },
    );
    r.get()
}
fn lin_sk(l: &Lin) -> bool {
    l.atoms().any(|a| match ak(a) {
        AK::App { arg, .. } => is_sk(&arg) || lin_sk(&arg),
        _ => false,
    })
}

// ---------------------------------------------------------------- normalisation
fn live_lin(l: &Lin, out: &mut std::collections::HashSet<A>) {
    for a in l.atoms() {
        live_atom(a, out);
    }
}
fn live_atom(a: A, out: &mut std::collections::HashSet<A>) {
    if !out.insert(a) {
        return;
    }
    match ak(a) {
        AK::App { f, arg } => {
            live_lin(&arg, out);
            live_fun(f, out);
        }
        AK::Nl { args, .. } => args.iter().for_each(|x| live_lin(x, out)),
        AK::F2I { x, .. } => live_f(x, out),
        _ => {}
    }
}
fn live_fun(f: Fun, out: &mut std::collections::HashSet<A>) {
    let i = fun(f);
    if let Some(d) = &i.dom {
        live_lin(d, out);
    }
    if let Some((g, p)) = i.parent {
        live_fun(g, out);
        live_fun(p, out);
    }
}
fn live_f(x: FT, out: &mut std::collections::HashSet<A>) {
    f_lins(x, &mut |l| live_lin(l, out));
    f_funs(x, &mut |f| live_fun(f, out));
}
fn f_funs(x: FT, g: &mut dyn FnMut(Fun)) {
    match fnode(x) {
        FN::App { f, .. } => g(f),
        FN::Add(a, b) | FN::Sub(a, b) | FN::Mul(a, b) | FN::Div(a, b) | FN::Bin(_, a, b) => {
            f_funs(a, g);
            f_funs(b, g);
        }
        FN::Neg(a) | FN::Un(_, a) => f_funs(a, g),
        _ => {}
    }
}
fn live_v(v: &V, out: &mut std::collections::HashSet<A>) {
    let o = std::cell::RefCell::new(out);
    let ml = |l: &Lin| {
        live_lin(l, &mut o.borrow_mut());
        l.clone()
    };
    let mf = |x: FT| {
        live_f(x, &mut o.borrow_mut());
        x
    };
    fn go(v: &V, ml: &dyn Fn(&Lin) -> Lin, mf: &dyn Fn(FT) -> FT) {
        match v {
            V::Agg(a) | V::Enum(_, a) => a.iter().for_each(|x| go(x, ml, mf)),
            V::Bx(b, _) => go(b, ml, mf),
            V::Opq(o) => o.1.iter().for_each(|x| go(x, ml, mf)),
            V::Arr(a) => {
                ml(&a.len);
                match &a.body {
                    AB::List(l) => l.iter().for_each(|x| go(x, ml, mf)),
                    AB::Tm { t, facts, ovl } => {
                        go(t, ml, mf);
                        for f in facts {
                            ml(f);
                        }
                        for (i, x) in ovl {
                            ml(i);
                            go(x, ml, mf);
                        }
                    }
                }
            }
            V::Ptr(p) => {
                if let Root::Const(c) = &p.root {
                    go(&c.0, ml, mf);
                }
                map_v(v, ml, mf);
            }
            _ => {
                map_v(v, ml, mf);
            }
        }
    }
    go(v, &ml, &mf);
}
/// project away quantities nothing in the state refers to any more
pub fn forget_dead(s: &mut State) {
    let mut live = std::collections::HashSet::new();
    for f in &s.frames {
        for v in f.locals.iter() {
            live_v(v, &mut live);
        }
    }
    for v in s.ghost.values() {
        live_v(v, &mut live);
    }
    for f in &s.facts.fl {
        live_f(f.a, &mut live);
        live_f(f.b, &mut live);
    }
    for l in &s.facts.ne {
        live_lin(l, &mut live);
    }
    for (x, _, lo, hi) in &s.facts.absent {
        for l in [x, lo, hi] {
            live_lin(l, &mut live);
        }
    }
    let mut dead: Vec<A> = vec![];
    for f in &s.facts.le {
        for a in f.atoms() {
            if !live.contains(&a) && !dead.contains(&a) && !lin_sk_atom(a) {
                dead.push(a);
            }
        }
    }
    if dead.is_empty() {
        return;
    }
    let mut le = s.facts.le.clone();
    for a in dead {
        let (lo, hi) = bounds(a);
        let co = |f: &Lin| f.t.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0);
        let (with, mut rest): (Vec<Lin>, Vec<Lin>) = le.into_iter().partition(|f| co(f) != 0);
        let pos: Vec<&Lin> = with.iter().filter(|f| co(f) > 0).collect();
        let neg: Vec<&Lin> = with.iter().filter(|f| co(f) < 0).collect();
        let mut add = |f: Lin| {
            let f = f.tighten();
            if !f.t.is_empty() && f.t.len() <= 6 && !rest.iter().any(|x| x.t == f.t && x.k >= f.k) {
                rest.retain(|x| !(x.t == f.t && x.k <= f.k));
                rest.push(f);
            }
        };
        if pos.len() * neg.len() <= 36 {
            for p in &pos {
                for n in &neg {
                    let (cp, cn) = (co(p), -co(n));
                    if cp <= 8 && cn <= 8 {
                        add(p.scale(cn).add(&n.scale(cp)));
                    }
                }
            }
        }
        for p in &pos {
            let c = co(p);
            let mut q = (*p).clone();
            q.t.retain(|x| x.0 != a);
            q.k += c * lo;
            add(q);
        }
        if hi <= BIG {
            for n in &neg {
                let c = co(n);
                let mut q = (*n).clone();
                q.t.retain(|x| x.0 != a);
                q.k += c * hi;
                add(q);
            }
        }
        le = rest;
    }
    Rc::make_mut(&mut s.facts).le = le;
}
fn lin_sk_atom(a: A) -> bool {
    is_sk(&Lin::a(a))
}

/// fold overlays at ordinary indices into the template
pub fn normalize(s: &mut State) {
    for d in 0..s.frames.len() {
        let n = s.frames[d].locals.len();
        for l in 0..n {
            let v = s.frames[d].locals[l].clone();
            if has_ovl(&v) {
                let v2 = norm_v(s, &v);
                s.set_local(d as u32, l as u32, v2);
            }
        }
    }
}
fn has_ovl(v: &V) -> bool {
    match v {
        V::Agg(a) | V::Enum(_, a) => a.iter().any(has_ovl),
        V::Bx(x, _) => has_ovl(x),
        V::Opq(o) => o.1.iter().any(has_ovl),
        V::Arr(a) => match &a.body {
            AB::List(l) => l.iter().any(has_ovl),
            AB::Tm { ovl, .. } => ovl.iter().any(|(i, _)| !is_sk(i)),
        },
        _ => false,
    }
}
fn norm_v(s: &mut State, v: &V) -> V {
    match v {
        V::Agg(a) => V::Agg(Rc::new(a.iter().map(|x| norm_v(s, x)).collect())),
        V::Enum(k, a) => V::Enum(*k, Rc::new(a.iter().map(|x| norm_v(s, x)).collect())),
        V::Bx(x, t) => V::Bx(Rc::new(norm_v(s, x)), *t),
        V::Opq(o) => V::Opq(Rc::new((o.0.clone(), o.1.iter().map(|x| norm_v(s, x)).collect()))),
        V::Arr(a) => match &a.body {
            AB::List(l) => V::Arr(Rc::new(Arr { len: a.len.clone(), body: AB::List(l.iter().map(|x| norm_v(s, x)).collect()) })),
            AB::Tm { t, facts, ovl } => {
                let mut t = t.clone();
                let mut facts = facts.clone();
                let mut keep = vec![];
                for (i, v) in ovl {
                    if is_sk(i) {
                        keep.push((i.clone(), v.clone()));
                        continue;
                    }
                    absorb(s, &mut t, &mut facts, i, v);
                }
                V::Arr(Rc::new(Arr { len: a.len.clone(), body: AB::Tm { t, facts, ovl: keep } }))
            }
        },
        o => o.clone(),
    }
}

/// weaken template `t` so that it also covers value `v` at index `i`
fn absorb(s: &State, t: &mut V, facts: &mut Vec<Lin>, i: &Lin, v: &V) {
    if let V::Undef = t {
        *t = from_elem(s, i, v);
        return;
    }
    // generalised index terms, shared by the leaves of one element
    let mut gens: Vec<(Lin, Lin, Lin)> = vec![]; // (template arg, value arg, new arg)
    let mut kill: Vec<A> = vec![];
    let n = weak(s, t, i, v, &mut gens, &mut kill);
    // facts on generalised terms
    let mut nf = vec![];
    for f in facts.iter() {
        let fi = lin_subst_deep(f, &|a| if a == jj() { Some(i.clone()) } else { None });
        let _ = fi;
        // a fact about an index term carries over to its generalisation when the new value satisfies it as well
        for (ta, va, na) in &gens {
            if let Some(ta) = ta.single() {
                if f.atoms().any(|x| x == ta) {
                    let fv = f.subst(&|x| if x == ta { Some(va.clone()) } else { None });
                    if !has_j(&fv) && s.le0(&fv) {
                        nf.push(f.subst(&|x| if x == ta { Some(na.clone()) } else { None }));
                    }
                }
            }
        }
        let mut ats: Vec<A> = vec![];
        deep_atoms(f, &mut ats);
        if !gens.iter().any(|(ta, _, _)| ta.atoms().any(|x| x != jj() && ats.contains(&x))) && f.atoms().all(|_| true) && term_survives(&n, f) {
            // fact about terms that stay in the template: has to hold at i too
            let fi = lin_subst_deep(f, &|a| if a == jj() { Some(i.clone()) } else { None });
            if s.le0(&fi) {
                nf.push(f.clone());
            }
        }
    }
    for (ta, va, na) in &gens {
        let a_nonneg = bounds_nonneg(ta) || s.le0(&ta.neg());
        if a_nonneg && s.le0(&va.neg()) {
            nf.push(na.neg());
        }
        // upper bounds by vector lengths
        for t in len_atoms(s) {
            let up = va.sub(&Lin::a(t)).addk(1);
            let ut = ta.sub(&Lin::a(t)).addk(1);
            if s.le0(&up) && template_le(s, facts, &ut) {
                nf.push(na.sub(&Lin::a(t)).addk(1));
            }
        }
    }
    nf.dedup();
    *facts = nf;
    *t = n;
}
fn bounds_nonneg(l: &Lin) -> bool {
    l.k >= 0 && l.t.iter().all(|(a, c)| *c >= 0 && bounds(*a).0 >= 0)
}
fn term_survives(_t: &V, _f: &Lin) -> bool {
    true
}
fn deep_atoms(l: &Lin, out: &mut Vec<A>) {
    for a in l.atoms() {
        if !out.contains(&a) {
            out.push(a);
            match ak(a) {
                AK::App { arg, .. } => deep_atoms(&arg, out),
                AK::Nl { args, .. } => {
                    for x in args {
                        deep_atoms(&x, out);
                    }
                }
                _ => {}
            }
        }
    }
}
/// a fact over J implied by the template facts (syntactically or by the linear facts with J generic)
fn template_le(s: &State, facts: &[Lin], l: &Lin) -> bool {
    if s.le0(l) {
        return true;
    }
    let mut s2 = s.clone();
    for f in facts {
        s2.assume_le(f.clone());
    }
    s2.le0(l)
}
fn len_atoms(s: &State) -> Vec<A> {
    let mut v = vec![];
    for f in &s.facts.le {
        for a in f.atoms() {
            if let AK::Sym { tag, .. } = ak(a) {
                if tag.starts_with("len") && !v.contains(&a) {
                    v.push(a);
                }
            }
        }
    }
    v
}
fn weak(s: &State, t: &V, i: &Lin, v: &V, gens: &mut Vec<(Lin, Lin, Lin)>, kill: &mut Vec<A>) -> V {
    let at = |l: &Lin| lin_subst_deep(l, &|a| if a == jj() { Some(i.clone()) } else { None });
    match (t, v) {
        (V::Int(l), V::Int(x)) => {
            let li = at(l);
            if li == *x || s.eq0(&li.sub(x)) {
                return t.clone();
            }
            if let (Some(a1), Some(a2)) = (l.single(), x.single()) {
                if let (AK::App { f: f1, arg: g1 }, AK::App { f: f2, arg: g2 }) = (ak(a1), ak(a2)) {
                    if f1 == f2 {
                        let n = gen_arg(s, i, &g1, &g2, gens);
                        return V::Int(Lin::a(atom(AK::App { f: f1, arg: n })));
                    }
                }
            }
            V::Int(gen_arg(s, i, l, x, gens))
        }
        (V::F(l), V::F(x)) => {
            let li = inst_ft(*l, i);
            if f_same(li, *x) {
                return t.clone();
            }
            if let (FN::App { f: f1, arg: g1 }, FN::App { f: f2, arg: g2 }) = (fnode(*l), fnode(*x)) {
                if f1 == f2 {
                    if s.eq0(&at(&g1).sub(&g2)) {
                        return t.clone();
                    }
                    let n = gen_arg(s, i, &g1, &g2, gens);
                    return V::F(ft(FN::App { f: f1, arg: n }));
                }
            }
            if matches!(s.fdecide(FR::Eq, li, *x), Dec::True) {
                return t.clone();
            }
            let nn = s.fsign(*l).0 && s.fsign(*x).0;
            let f = new_fun(FunInfo { tag: format!("w{}", uniq()), nan: may_nan(*l) || may_nan(*x), nonneg: nn, phi: true, ..Default::default() });
            V::F(ft(FN::App { f, arg: Lin::a(jj()) }))
        }
        (V::Agg(a), V::Agg(b)) if a.len() == b.len() => V::Agg(Rc::new(a.iter().zip(b.iter()).map(|(x, y)| weak(s, x, i, y, gens, kill)).collect())),
        (V::Bx(a, t), V::Bx(b, u)) if t == u => V::Bx(Rc::new(weak(s, a, i, b, gens, kill)), *t),
        (V::Enum(k, a), V::Enum(m, b)) if k == m && a.len() == b.len() => V::Enum(*k, Rc::new(a.iter().zip(b.iter()).map(|(x, y)| weak(s, x, i, y, gens, kill)).collect())),
        (V::Ptr(p), V::Ptr(q)) if p.root == q.root && p.proj.len() == q.proj.len() => {
            let mut pj = vec![];
            for (x, y) in p.proj.iter().zip(q.proj.iter()) {
                match (x, y) {
                    (Pj::Elem(x), Pj::Elem(y)) => {
                        let V::Int(l) = weak(s, &V::Int(x.clone()), i, &V::Int(y.clone()), gens, kill) else { return V::Unk };
                        pj.push(Pj::Elem(l));
                    }
                    (x, y) if x == y => pj.push(x.clone()),
                    _ => return V::Unk,
                }
            }
            let meta = match (&p.meta, &q.meta) {
                (x, y) if x == y => x.clone(),
                (Meta::Slice(a, b), Meta::Slice(c, d)) => {
                    let V::Int(o) = weak(s, &V::Int(a.clone()), i, &V::Int(c.clone()), gens, kill) else { return V::Unk };
                    let V::Int(n) = weak(s, &V::Int(b.clone()), i, &V::Int(d.clone()), gens, kill) else { return V::Unk };
                    Meta::Slice(o, n)
                }
                _ => return V::Unk,
            };
            V::Ptr(Rc::new(PtrV { root: p.root.clone(), proj: pj, meta }))
        }
        (x, y) if v_eq(x, y) => x.clone(),
        _ => V::Unk,
    }
}
fn gen_arg(s: &State, i: &Lin, g1: &Lin, g2: &Lin, gens: &mut Vec<(Lin, Lin, Lin)>) -> Lin {
    let gi = lin_subst_deep(g1, &|a| if a == jj() { Some(i.clone()) } else { None });
    if gi == *g2 || s.eq0(&gi.sub(g2)) {
        return g1.clone();
    }
    for (a, b, n) in gens.iter() {
        if a == g1 && (b == g2 || s.eq0(&b.sub(g2))) {
            return n.clone();
        }
    }
    let f = new_fun(FunInfo { tag: format!("g{}", uniq()), lo: -(1 << 64), hi: 1 << 64, phi: true, ..Default::default() });
    let n = Lin::a(atom(AK::App { f, arg: Lin::a(jj()) }));
    gens.push((g1.clone(), g2.clone(), n.clone()));
    n
}
fn elem_args(s: &State, i: &Lin, l: &Lin) -> Lin {
    l.subst(&|a| {
        if let AK::App { f, arg } = ak(a) {
            let d = arg.sub(i);
            let c = match d.is_const() {
                Some(c) => Some(c),
                None => {
                    if s.eq0(&d) {
                        Some(0)
                    } else {
                        None
                    }
                }
            };
            if let Some(c) = c {
                return Some(Lin::a(atom(AK::App { f, arg: Lin::a(jj()).addk(c) })));
            }
            let n = elem_args(s, i, &arg);
            if n != arg {
                return Some(Lin::a(atom(AK::App { f, arg: n })));
            }
        }
        None
    })
}
/// template for a vector holding only `v`, at index `i`
fn from_elem(s: &State, i: &Lin, v: &V) -> V {
    let g = |l: &Lin| -> Lin { elem_args(s, i, l) };
    let gi = |l: &Lin| -> Lin {
        let d = l.sub(i);
        if let (Some(c), false) = (d.is_const(), i.t.is_empty()) {
            return Lin::a(jj()).addk(c);
        }
        g(l)
    };
    map_v(v, &gi, &|x| {
        f_subst(
            x,
            &|l| {
                let d = l.sub(i);
                match d.is_const() {
                    Some(c) => Lin::a(jj()).addk(c),
                    None if s.eq0(&d) => Lin::a(jj()),
                    None => g(l),
                }
            },
            &|_| None,
        )
    })
}
/// the template all elements of a concrete list are instances of, element k at index k
fn fit(l: &[V]) -> Option<V> {
    let mut it = l.iter();
    let first = it.next()?;
    let kids = |pick: &dyn Fn(&V) -> Option<Vec<V>>| -> Option<Vec<V>> {
        let rows: Vec<Vec<V>> = l.iter().map(|v| pick(v)).collect::<Option<_>>()?;
        let n = rows[0].len();
        if rows.iter().any(|r| r.len() != n) {
            return None;
        }
        (0..n).map(|c| fit(&rows.iter().map(|r| r[c].clone()).collect::<Vec<_>>())).collect()
    };
    match first {
        V::Int(_) => {
            let ls: Vec<Lin> = l.iter().map(|v| if let V::Int(x) = v { Some(x.clone()) } else { None }).collect::<Option<_>>()?;
            fit_lin(&ls).map(V::Int)
        }
        V::F(_) => {
            let fs: Vec<FT> = l.iter().map(|v| if let V::F(x) = v { Some(*x) } else { None }).collect::<Option<_>>()?;
            fit_f(&fs).map(V::F)
        }
        V::Agg(_) => Some(V::Agg(Rc::new(kids(&|v| if let V::Agg(a) = v { Some((**a).clone()) } else { None })?))),
        V::Bx(_, t) => {
            let mut k = kids(&|v| match v {
                V::Bx(x, u) if u == t => Some(vec![(**x).clone()]),
                _ => None,
            })?;
            Some(V::Bx(Rc::new(k.pop()?), *t))
        }
        V::Enum(k, _) => Some(V::Enum(*k, Rc::new(kids(&|v| match v {
            V::Enum(m, a) if m == k => Some((**a).clone()),
            _ => None,
        })?))),
        V::Ptr(p) if matches!(p.meta, Meta::None) => {
            let rows: Vec<Vec<V>> = l
                .iter()
                .map(|v| match v {
                    V::Ptr(q) if q.root == p.root && matches!(q.meta, Meta::None) && q.proj.len() == p.proj.len() => q
                        .proj
                        .iter()
                        .zip(p.proj.iter())
                        .map(|(e, g)| match (e, g) {
                            (Pj::Elem(x), Pj::Elem(_)) => Some(V::Int(x.clone())),
                            (e, g) if e == g => Some(V::Undef),
                            _ => None,
                        })
                        .collect::<Option<Vec<V>>>(),
                    _ => None,
                })
                .collect::<Option<_>>()?;
            let mut pj = vec![];
            for (c, e) in p.proj.iter().enumerate() {
                pj.push(match e {
                    Pj::Elem(_) => match fit(&rows.iter().map(|r| r[c].clone()).collect::<Vec<_>>())? {
                        V::Int(x) => Pj::Elem(x),
                        _ => return None,
                    },
                    e => e.clone(),
                });
            }
            Some(V::Ptr(Rc::new(PtrV { root: p.root.clone(), proj: pj, meta: Meta::None })))
        }
        v if it.all(|w| v_eq(v, w)) => Some(v.clone()),
        _ => None,
    }
}
fn fit_lin(l: &[Lin]) -> Option<Lin> {
    if l.iter().any(has_j) {
        return None;
    }
    if l.iter().all(|x| *x == l[0]) {
        return Some(l[0].clone());
    }
    let d = l[1].sub(&l[0]);
    if let Some(c) = d.is_const() {
        if l.iter().enumerate().all(|(k, x)| x.sub(&l[0]).is_const() == Some(c * k as i128)) {
            return Some(l[0].add(&Lin::a(jj()).scale(c)));
        }
        return None;
    }
    let mut f0 = None;
    let mut args = vec![];
    for x in l {
        let AK::App { f, arg } = ak(x.single()?) else { return None };
        if *f0.get_or_insert(f) != f {
            return None;
        }
        args.push(arg);
    }
    Some(Lin::a(atom(AK::App { f: f0?, arg: fit_lin(&args)? })))
}
fn fit_f(l: &[FT]) -> Option<FT> {
    if l.iter().all(|x| f_same(*x, l[0])) {
        let mut j = false;
        f_lins(l[0], &mut |x| j |= has_j(x));
        return if j { None } else { Some(l[0]) };
    }
    let un = |g: &dyn Fn(FN) -> Option<FT>| -> Option<FT> { fit_f(&l.iter().map(|x| g(fnode(*x))).collect::<Option<Vec<_>>>()?) };
    let lin = |g: &dyn Fn(FN) -> Option<Lin>| -> Option<Lin> { fit_lin(&l.iter().map(|x| g(fnode(*x))).collect::<Option<Vec<_>>>()?) };
    Some(match fnode(l[0]) {
        FN::App { f, .. } => ft(FN::App { f, arg: lin(&|n| if let FN::App { f: g, arg } = n { if g == f { Some(arg) } else { None } } else { None })? }),
        FN::Add(..) => ft(FN::Add(un(&|n| if let FN::Add(a, _) = n { Some(a) } else { None })?, un(&|n| if let FN::Add(_, b) = n { Some(b) } else { None })?)),
        FN::Sub(..) => ft(FN::Sub(un(&|n| if let FN::Sub(a, _) = n { Some(a) } else { None })?, un(&|n| if let FN::Sub(_, b) = n { Some(b) } else { None })?)),
        FN::Mul(..) => ft(FN::Mul(un(&|n| if let FN::Mul(a, _) = n { Some(a) } else { None })?, un(&|n| if let FN::Mul(_, b) = n { Some(b) } else { None })?)),
        FN::Div(..) => ft(FN::Div(un(&|n| if let FN::Div(a, _) = n { Some(a) } else { None })?, un(&|n| if let FN::Div(_, b) = n { Some(b) } else { None })?)),
        FN::Neg(_) => ft(FN::Neg(un(&|n| if let FN::Neg(a) = n { Some(a) } else { None })?)),
        FN::Un(o, _) => ft(FN::Un(o, un(&|n| if let FN::Un(p, a) = n { if p == o { Some(a) } else { None } } else { None })?)),
        FN::Bin(o, ..) => ft(FN::Bin(
            o,
            un(&|n| if let FN::Bin(p, a, _) = n { if p == o { Some(a) } else { None } } else { None })?,
            un(&|n| if let FN::Bin(p, _, b) = n { if p == o { Some(b) } else { None } } else { None })?,
        )),
        FN::I2F(_) => ft(FN::I2F(lin(&|n| if let FN::I2F(x) = n { Some(x) } else { None })?)),
        _ => return None,
    })
}
/// mentions something only a join has introduced
pub fn v_phi(v: &V) -> bool {
    phis(v, true)
}
/// does the value mention a join variable (or, with `arrays`, an array a join introduced)?
fn phis(v: &V, arrays: bool) -> bool {
    let r = std::cell::Cell::new(false);
    fn lp(l: &Lin, r: &std::cell::Cell<bool>, arrays: bool) {
        for a in l.atoms() {
            match ak(a) {
                AK::Sym { phi: true, .. } => r.set(true),
                AK::App { f, arg } => {
                    if arrays && fun(f).phi {
                        r.set(true);
                    }
                    lp(&arg, r, arrays);
                }
                AK::Nl { args, .. } => args.iter().for_each(|x| lp(x, r, arrays)),
                AK::F2I { .. } => r.set(true),
                _ => {}
            }
        }
    }
    map_v(
        v,
        &|l| {
            lp(l, &r, arrays);
            l.clone()
        },
        &|x| {
            f_lins(x, &mut |l| lp(l, &r, arrays));
            f_funs(x, &mut |f| {
                if arrays && fun(f).phi {
                    r.set(true)
                }
            });
            if f_has_phi_sym(x) {
                r.set(true);
            }
            x
        },
    );
    r.get()
}
fn f_has_phi_sym(x: FT) -> bool {
    match fnode(x) {
        FN::Sym { phi, .. } => phi,
        FN::Add(a, b) | FN::Sub(a, b) | FN::Mul(a, b) | FN::Div(a, b) | FN::Bin(_, a, b) => f_has_phi_sym(a) || f_has_phi_sym(b),
        FN::Neg(a) | FN::Un(_, a) => f_has_phi_sym(a),
        _ => false,
    }
}
/// a template for both lists, when the elements of one suggest it and the elements of the other obey it
fn common_template(p: &Arr, q: &Arr) -> Option<V> {
    let obeys = |t: &V, l: &[V]| l.iter().enumerate().all(|(k, v)| v_eq(&inst_v(t, &Lin::c(k as i128)), v));
    let t = match (&p.body, &q.body) {
        (AB::List(l), AB::List(m)) => {
            let (short, long) = if l.len() < m.len() { (l, m) } else { (m, l) };
            if long.len() < 2 || short.is_empty() {
                return None;
            }
            let t = fit(long)?;
            if !obeys(&t, short) {
                return None;
            }
            t
        }
        (AB::List(l), AB::Tm { t, facts, ovl }) | (AB::Tm { t, facts, ovl }, AB::List(l)) => {
            if !facts.is_empty() || !ovl.is_empty() || l.is_empty() || matches!(t, V::Undef) || !obeys(t, l) {
                return None;
            }
            t.clone()
        }
        _ => return None,
    };
    if phis(&t, false) || mentions_sk(&t) {
        return None;
    }
    Some(t)
}
/// a tracked index known to equal `i`
pub fn sk_equal(s: &State, i: &Lin) -> Option<A> {
    let mut c: Vec<A> = vec![];
    for f in &s.facts.le {
        for x in f.atoms() {
            if !c.contains(&x) && matches!(ak(x), AK::Sym { phi: false, .. }) && is_sk(&Lin::a(x)) {
                c.push(x);
            }
        }
    }
    c.into_iter().find(|x| s.eq0(&i.sub(&Lin::a(*x))))
}
fn list_to_tm(s: &mut State, l: &[V]) -> (V, Vec<Lin>, Vec<(Lin, V)>) {
    let mut t = V::Undef;
    let mut facts = vec![];
    let mut ovl = vec![];
    for (k, v) in l.iter().enumerate() {
        if mentions_sk(v) {
            let a = match sk_equal(s, &Lin::c(k as i128)) {
                Some(x) => Lin::a(x),
                None => {
                    let a = Lin::a(atom(AK::Sym { tag: format!("sk_p{}", uniq()), lo: 0, hi: crate::models::VLEN, phi: true }));
                    s.assume_eq(a.addk(-(k as i128)));
                    a
                }
            };
            ovl.push((a, v.clone()));
            continue;
        }
        absorb(s, &mut t, &mut facts, &Lin::c(k as i128), v);
    }
    if let (V::Undef, Some(v)) = (&t, l.first()) {
        // only tracked elements so far: what they suggest, as nothing else has to obey it
        t = from_elem(s, &Lin::c(0), v);
        if mentions_sk(&t) || v_phi(&t) {
            t = fresh_like(v);
        }
    }
    (t, facts, ovl)
}
/// a template of the same structure, nothing known about the leaves
fn fresh_like(v: &V) -> V {
    let j = Lin::a(jj());
    match v {
        V::Int(l) => {
            if let Some(AK::App { f, .. }) = l.single().map(ak) {
                let g = new_fun(FunInfo { tag: format!("g{}", uniq()), lo: -(1 << 64), hi: 1 << 64, phi: true, ..Default::default() });
                return V::Int(Lin::a(atom(AK::App { f, arg: Lin::a(atom(AK::App { f: g, arg: j })) })));
            }
            let g = new_fun(FunInfo { tag: format!("g{}", uniq()), lo: -(1 << 64), hi: 1 << 64, phi: true, ..Default::default() });
            V::Int(Lin::a(atom(AK::App { f: g, arg: j })))
        }
        V::F(x) => {
            let f = new_fun(FunInfo { tag: format!("w{}", uniq()), nan: may_nan(*x), phi: true, ..Default::default() });
            V::F(ft(FN::App { f, arg: j }))
        }
        V::Agg(a) => V::Agg(Rc::new(a.iter().map(fresh_like).collect())),
        V::Bx(x, t) => V::Bx(Rc::new(fresh_like(x)), *t),
        _ => V::Unk,
    }
}

// ---------------------------------------------------------------- alignment
type E<T> = Result<T, String>;

/// bring the arrays of two values to the same representation
fn align(a: &mut State, b: &mut State, x: &V, y: &V) -> E<(V, V)> {
    fn go(a: &mut State, b: &mut State, p: &[V], q: &[V]) -> E<(Vec<V>, Vec<V>)> {
        let mut u = vec![];
        let mut w = vec![];
        for (x, y) in p.iter().zip(q.iter()) {
            let (m, n) = align(a, b, x, y)?;
            u.push(m);
            w.push(n);
        }
        Ok((u, w))
    }
    if v_eq(x, y) {
        return Ok((x.clone(), y.clone()));
    }
    match (x, y) {
        (V::Agg(p), V::Agg(q)) if p.len() == q.len() => {
            let (u, w) = go(a, b, p, q)?;
            Ok((V::Agg(Rc::new(u)), V::Agg(Rc::new(w))))
        }
        (V::Enum(k, p), V::Enum(_, q)) if p.len() == q.len() => {
            let (u, w) = go(a, b, p, q)?;
            Ok((V::Enum(*k, Rc::new(u)), V::Enum(*k, Rc::new(w))))
        }
        (V::Bx(p, t), V::Bx(q, _)) => {
            let (u, w) = align(a, b, p, q)?;
            Ok((V::Bx(Rc::new(u), *t), V::Bx(Rc::new(w), *t)))
        }
        (V::Opq(p), V::Opq(q)) if p.1.len() == q.1.len() => {
            let (u, w) = go(a, b, &p.1, &q.1)?;
            Ok((V::Opq(Rc::new((p.0.clone(), u))), V::Opq(Rc::new((p.0.clone(), w)))))
        }
        (V::Arr(p), V::Arr(q)) => {
            if let (AB::List(l), AB::List(m)) = (&p.body, &q.body) {
                if l.len() == m.len() {
                    let (u, w) = go(a, b, l, m)?;
                    return Ok((
                        V::Arr(Rc::new(Arr { len: p.len.clone(), body: AB::List(u) })),
                        V::Arr(Rc::new(Arr { len: q.len.clone(), body: AB::List(w) })),
                    ));
                }
            }
            if let Some(t) = common_template(p, q) {
                let tm = |p: &Arr| V::Arr(Rc::new(Arr { len: p.len.clone(), body: AB::Tm { t: t.clone(), facts: vec![], ovl: vec![] } }));
                return Ok((tm(p), tm(q)));
            }
            let tm = |s: &mut State, p: &Arr| -> (V, Vec<Lin>, Vec<(Lin, V)>) {
                match &p.body {
                    AB::List(l) => list_to_tm(s, l),
                    AB::Tm { t, facts, ovl } => (t.clone(), facts.clone(), ovl.clone()),
                }
            };
            let (t1, f1, mut o1) = tm(a, p);
            let (t2, f2, mut o2) = tm(b, q);
            // tracked overlays by name; those introduced in a loop by position
            let named = |o: &Vec<(Lin, V)>, i: &Lin| o.iter().any(|x| x.0 == *i);
            let stable = |i: &Lin| i.atoms().all(|a| !is_phi(a));
            let mut add1 = vec![];
            let mut add2 = vec![];
            for (i, _) in &o1 {
                if stable(i) && !named(&o2, i) {
                    add2.push(i.clone());
                }
            }
            for (i, _) in &o2 {
                if stable(i) && !named(&o1, i) {
                    add1.push(i.clone());
                }
            }
            for i in add1 {
                if matches!(t1, V::Undef) {
                    continue;
                }
                let v = a.inst_t(&t1, &f1, &i);
                o1.push((i, v));
            }
            for i in add2 {
                if matches!(t2, V::Undef) {
                    continue;
                }
                let v = b.inst_t(&t2, &f2, &i);
                o2.push((i, v));
            }
            let ord = |o: &mut Vec<(Lin, V)>| o.sort_by_key(|x| (!stable(&x.0), if stable(&x.0) { format!("{:?}", x.0) } else { String::new() }));
            ord(&mut o1);
            ord(&mut o2);
            // overlays without a partner are folded into the template
            let (mut t1, mut f1, mut t2, mut f2) = (t1, f1, t2, f2);
            let n1 = o1.iter().filter(|x| !stable(&x.0)).count();
            let n2 = o2.iter().filter(|x| !stable(&x.0)).count();
            if n1 != n2 {
                for k in 0..2 {
                    let (s, o, t, f): (&State, &mut Vec<(Lin, V)>, &mut V, &mut Vec<Lin>) = if k == 0 { (a, &mut o1, &mut t1, &mut f1) } else { (b, &mut o2, &mut t2, &mut f2) };
                    let m = if n1 < n2 { n1 } else { n2 };
                    let mut seen = 0;
                    let mut keep = vec![];
                    for (i, v) in o.drain(..) {
                        if stable(&i) {
                            keep.push((i, v));
                            continue;
                        }
                        seen += 1;
                        if seen <= m {
                            keep.push((i, v));
                        } else {
                            absorb(s, t, f, &i, &v);
                        }
                    }
                    *o = keep;
                }
            }
            if o1.len() != o2.len() {
                return Err("overlays differ".into());
            }
            let mut p1 = vec![];
            let mut p2 = vec![];
            for ((i, x), (j, y)) in o1.iter().zip(o2.iter()) {
                let (u, w) = align(a, b, x, y)?;
                p1.push((i.clone(), u));
                p2.push((j.clone(), w));
            }
            Ok((
                V::Arr(Rc::new(Arr { len: p.len.clone(), body: AB::Tm { t: t1, facts: f1, ovl: p1 } })),
                V::Arr(Rc::new(Arr { len: q.len.clone(), body: AB::Tm { t: t2, facts: f2, ovl: p2 } })),
            ))
        }
        _ => Ok((x.clone(), y.clone())),
    }
}

// ---------------------------------------------------------------- join proper
struct J<'a> {
    a: &'a State,
    b: &'a State,
    sig: HashMap<A, Lin>,
    fsig: HashMap<FT, FT>,
    psig: HashMap<Rc<str>, B>,
    gsig: HashMap<Fun, Lin>,
    gfsig: HashMap<Fun, FT>,
    clash: BTreeSet<A>,
    memo: Vec<(Lin, Lin, Lin)>,
    fmemo: Vec<(FT, FT, FT)>,
    bmemo: Vec<(B, B, B)>,
    newp: Vec<(A, Lin, Lin)>,
    newf: Vec<(FT, FT, FT)>,
    newg: Vec<(Lin, Lin, Lin)>, // template terms over J: (a, b, new)
    changed: bool,
}

impl<'a> J<'a> {
    fn sb(&self, l: &Lin) -> Lin {
        lin_subst_deep2(l, &|a| self.sig.get(&a).cloned(), &|f, arg| self.gsig.get(&f).map(|t| lin_subst_deep(t, &|a| if a == jj() { Some(arg.clone()) } else { None })))
    }
    fn fsb(&self, x: FT) -> FT {
        f_subst(x, &|l| self.sb(l), &|y| {
            if let Some(z) = self.fsig.get(&y) {
                return Some(*z);
            }
            if let FN::App { f, arg } = fnode(y) {
                if let Some(t) = self.gfsig.get(&f) {
                    return Some(inst_ft(*t, &self.sb(&arg)));
                }
            }
            None
        })
    }
    fn bsb(&self, b: &B) -> B {
        match b {
            B::Pred(p) => match self.psig.get(p) {
                Some(x) => x.clone(),
                None => {
                    if let Some(n) = p.strip_prefix("nan:") {
                        if let Ok(n) = n.parse::<u32>() {
                            let m = self.fsb(n);
                            return match nan_root(m) {
                                Some(r) => B::Pred(format!("nan:{r}").into()),
                                None => B::C(false),
                            };
                        }
                    }
                    b.clone()
                }
            },
            B::Not(x) => self.bsb(x).not(),
            o => map_b(o, &|l| self.sb(l), &|x| self.fsb(x)),
        }
    }
    /// value of B's term is expressible under the result's names
    fn b_stable(&self, l: &Lin) -> bool {
        let mut v = vec![];
        deep_atoms(l, &mut v);
        v.iter().all(|a| {
            self.sig.get(a).map_or(true, |x| *x == Lin::a(*a))
                && match ak(*a) {
                    AK::App { f, .. } => self.gsig.get(&f).map_or(true, |t| *t == Lin::a(atom(AK::App { f, arg: Lin::a(jj()) }))),
                    _ => true,
                }
        })
    }
    fn bf_stable(&self, x: FT) -> bool {
        let mut ok = true;
        f_lins(x, &mut |l| ok &= self.b_stable(l));
        ok && self.f_stable_(x)
    }
    fn f_stable_(&self, x: FT) -> bool {
        if self.fsig.get(&x).map_or(false, |y| *y != x) {
            return false;
        }
        match fnode(x) {
            FN::Add(a, b) | FN::Sub(a, b) | FN::Mul(a, b) | FN::Div(a, b) | FN::Bin(_, a, b) => self.f_stable_(a) && self.f_stable_(b),
            FN::Neg(a) | FN::Un(_, a) => self.f_stable_(a),
            FN::App { f, .. } => self.gfsig.get(&f).map_or(true, |t| f_same(*t, ft(FN::App { f, arg: Lin::a(jj()) }))),
            _ => true,
        }
    }

    // ---- pass 1: what does each join variable of A stand for in B
    fn collect(&mut self, x: &V, y: &V) -> E<()> {
        match (x, y) {
            (V::Int(a), V::Int(b)) => self.cint(a, b),
            (V::F(a), V::F(b)) => self.cf(*a, *b),
            (V::Bool(a), V::Bool(b)) => {
                if let B::Pred(p) = a {
                    if p.starts_with("phi:") {
                        self.psig.entry(p.clone()).or_insert(b.clone());
                    }
                }
            }
            (V::Agg(p), V::Agg(q)) | (V::Enum(_, p), V::Enum(_, q)) => {
                for (x, y) in p.iter().zip(q.iter()) {
                    self.collect(x, y)?;
                }
            }
            (V::Bx(p, _), V::Bx(q, _)) => self.collect(p, q)?,
            (V::Opq(p), V::Opq(q)) => {
                for (x, y) in p.1.iter().zip(q.1.iter()) {
                    self.collect(x, y)?;
                }
            }
            (V::Ptr(p), V::Ptr(q)) => {
                for (e, g) in p.proj.iter().zip(q.proj.iter()) {
                    if let (Pj::Elem(a), Pj::Elem(b)) = (e, g) {
                        self.cint(a, b);
                    }
                }
                if let (Meta::Slice(a, c), Meta::Slice(b, d)) = (&p.meta, &q.meta) {
                    self.cint(a, b);
                    self.cint(c, d);
                }
            }
            (V::Arr(p), V::Arr(q)) => {
                self.cint(&p.len, &q.len);
                match (&p.body, &q.body) {
                    (AB::List(l), AB::List(m)) => {
                        for (x, y) in l.iter().zip(m.iter()) {
                            self.collect(x, y)?;
                        }
                    }
                    (AB::Tm { t: t1, ovl: o1, .. }, AB::Tm { t: t2, ovl: o2, .. }) => {
                        if !matches!(t1, V::Undef) && !matches!(t2, V::Undef) {
                            self.collect_t(t1, t2);
                        }
                        for ((i, x), (j, y)) in o1.iter().zip(o2.iter()) {
                            self.cint(i, j);
                            self.collect(x, y)?;
                        }
                    }
                    _ => return Err("array representation".into()),
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn cint(&mut self, a: &Lin, b: &Lin) {
        if let Some(x) = a.single() {
            if is_phi(x) {
                match self.sig.get(&x) {
                    None => {
                        self.sig.insert(x, b.clone());
                    }
                    Some(c) if c == b => {}
                    Some(_) => {
                        self.clash.insert(x);
                    }
                }
            }
        }
    }
    fn cf(&mut self, a: FT, b: FT) {
        if let FN::Sym { phi: true, .. } = fnode(a) {
            self.fsig.entry(a).or_insert(b);
        }
    }
    fn collect_t(&mut self, x: &V, y: &V) {
        match (x, y) {
            (V::Int(a), V::Int(b)) => self.ct_int(a, b),
            (V::F(a), V::F(b)) => {
                if let FN::App { f, arg } = fnode(*a) {
                    if fun(f).phi && arg == Lin::a(jj()) {
                        let fi = fun(f);
                        let ok = (!fi.nonneg || self.b.fsign(*b).0) && (fi.nan || !may_nan(*b));
                        if ok {
                            self.gfsig.entry(f).or_insert(*b);
                        }
                        return;
                    }
                    if let FN::App { f: f2, arg: arg2 } = fnode(*b) {
                        if f2 == f {
                            self.ct_int(&arg, &arg2);
                        }
                    }
                }
            }
            (V::Agg(p), V::Agg(q)) | (V::Enum(_, p), V::Enum(_, q)) => {
                for (x, y) in p.iter().zip(q.iter()) {
                    self.collect_t(x, y);
                }
            }
            (V::Ptr(p), V::Ptr(q)) => {
                for (e, g) in p.proj.iter().zip(q.proj.iter()) {
                    if let (Pj::Elem(a), Pj::Elem(b)) = (e, g) {
                        self.ct_int(a, b);
                    }
                }
                if let (Meta::Slice(a, c), Meta::Slice(b, d)) = (&p.meta, &q.meta) {
                    self.ct_int(a, b);
                    self.ct_int(c, d);
                }
            }
            _ => {}
        }
    }
    fn ct_int(&mut self, a: &Lin, b: &Lin) {
        if let Some(x) = a.single() {
            if let AK::App { f, arg } = ak(x) {
                if fun(f).phi && arg == Lin::a(jj()) {
                    self.gsig.entry(f).or_insert(b.clone());
                    return;
                }
                if let Some(y) = b.single() {
                    if let AK::App { f: f2, arg: arg2 } = ak(y) {
                        if f2 == f {
                            self.ct_int(&arg, &arg2);
                        }
                    }
                }
            } else {
                self.cint(a, b);
            }
        }
    }

    // ---- pass 2: result values
    fn ji(&mut self, a: &Lin, b: &Lin) -> Lin {
        if std::env::var("SAMPLINT_PHI").is_ok() && a != b {
            eprintln!("PHI-int {a:?} | {b:?}");
        }
        let s = self.sb(a);
        if s == *b || self.b.eq0(&s.sub(b)) {
            return a.clone();
        }
        for (x, y, n) in &self.memo {
            if x == a && y == b {
                return n.clone();
            }
        }
        let (mut lo, mut hi) = (i128::MAX, i128::MIN);
        for (l, st) in [(a, self.a), (b, self.b)] {
            let (x, y) = range(st, l);
            lo = lo.min(x);
            hi = hi.max(y);
        }
        // keep the machine range only
        let lo = if lo >= 0 { 0 } else { -(1 << 64) };
        let hi = if hi <= crate::models::VLEN { crate::models::VLEN } else if hi <= u32::MAX as i128 { u32::MAX as i128 } else if hi <= i64::MAX as i128 { i64::MAX as i128 } else { 1 << 64 };
        let sk = is_sk(a) && is_sk(b);
        let p = fresh_phi(if sk { "skj" } else { "p" }, lo, hi);
        self.newp.push((p, a.clone(), b.clone()));
        let n = Lin::a(p);
        self.memo.push((a.clone(), b.clone(), n.clone()));
        self.changed = true;
        n
    }
    fn jf(&mut self, a: FT, b: FT) -> FT {
        let s = self.fsb(a);
        if f_same(s, b) || (!may_nan(s) && !may_nan(b) && matches!(self.b.fdecide(FR::Eq, s, b), Dec::True)) {
            return a;
        }
        for (x, y, n) in &self.fmemo {
            if *x == a && *y == b {
                return *n;
            }
        }
        // same function at two indices
        if std::env::var("SAMPLINT_PHI").is_ok() {
            eprintln!("PHI {} | {}  at {} le={:?} / {:?}", show_ft(a), show_ft(b), "", self.a.facts.le, self.b.facts.le);
        }
        let p = fresh_fphi("p", may_nan(a) || may_nan(b));
        self.newf.push((p, a, b));
        self.fmemo.push((a, b, p));
        self.changed = true;
        p
    }
    fn jb(&mut self, a: &B, b: &B) -> B {
        let s = self.bsb(a);
        if s == *b {
            return a.clone();
        }
        for (x, y, n) in &self.bmemo {
            if x == a && y == b {
                return n.clone();
            }
        }
        let n = B::Pred(format!("phi:{}", uniq()).into());
        self.bmemo.push((a.clone(), b.clone(), n.clone()));
        self.changed = true;
        n
    }
    fn jv(&mut self, x: &V, y: &V) -> E<V> {
        Ok(match (x, y) {
            (V::Int(a), V::Int(b)) => V::Int(self.ji(a, b)),
            (V::F(a), V::F(b)) => V::F(self.jf(*a, *b)),
            (V::Bool(a), V::Bool(b)) => V::Bool(self.jb(a, b)),
            (V::Str(a), V::Str(b)) => {
                if a == b {
                    x.clone()
                } else {
                    return Err("string values differ".into());
                }
            }
            (V::Agg(p), V::Agg(q)) => V::Agg(Rc::new(self.jvs(p, q)?)),
            (V::Enum(k, p), V::Enum(_, q)) => V::Enum(*k, Rc::new(self.jvs(p, q)?)),
            (V::Bx(p, t), V::Bx(q, _)) => V::Bx(Rc::new(self.jv(p, q)?), *t),
            (V::Opq(p), V::Opq(q)) => V::Opq(Rc::new((p.0.clone(), self.jvs(&p.1, &q.1)?))),
            (V::Ptr(p), V::Ptr(q)) => {
                let mut pj = vec![];
                for (e, g) in p.proj.iter().zip(q.proj.iter()) {
                    pj.push(match (e, g) {
                        (Pj::Elem(a), Pj::Elem(b)) => Pj::Elem(self.ji(a, b)),
                        (e, _) => e.clone(),
                    });
                }
                let meta = match (&p.meta, &q.meta) {
                    (Meta::Slice(a, c), Meta::Slice(b, d)) => Meta::Slice(self.ji(a, b), self.ji(c, d)),
                    (m, _) => m.clone(),
                };
                V::Ptr(Rc::new(PtrV { root: p.root.clone(), proj: pj, meta }))
            }
            (V::Arr(p), V::Arr(q)) => {
                let len = self.ji(&p.len, &q.len);
                let body = match (&p.body, &q.body) {
                    (AB::List(l), AB::List(m)) => AB::List(self.jvs(l, m)?),
                    (AB::Tm { t: t1, facts: f1, ovl: o1 }, AB::Tm { t: t2, facts: f2, ovl: o2 }) => {
                        let (t, facts) = match (t1, t2) {
                            (V::Undef, V::Undef) => (V::Undef, vec![]),
                            (V::Undef, t) => {
                                self.changed = true;
                                (self.adopt(t), f2.iter().filter(|f| self.b_stable(f)).cloned().collect())
                            }
                            (t, V::Undef) => (t.clone(), f1.clone()),
                            _ => {
                                let n0 = self.newg.len();
                                let t = self.jt(t1, t2);
                                let mut facts = vec![];
                                for f in f1 {
                                    if template_le(self.b, f2, &self.sb(f)) {
                                        facts.push(f.clone());
                                    } else {
                                        self.changed = true;
                                    }
                                }
                                for (x, y, n) in self.newg[n0..].to_vec() {
                                    let mut c: Vec<(Lin, Lin, Lin)> = vec![(x.neg(), y.neg(), n.neg())];
                                    for l in len_atoms(self.a) {
                                        let u = |z: &Lin| z.sub(&Lin::a(l)).addk(1);
                                        if self.sb(&Lin::a(l)) == Lin::a(l) {
                                            c.push((u(&x), u(&y), u(&n)));
                                        }
                                    }
                                    for (x, y, n) in c {
                                        if template_le(self.a, f1, &x) && template_le(self.b, f2, &y) {
                                            facts.push(n);
                                        }
                                    }
                                }
                                (t, facts)
                            }
                        };
                        let mut ovl = vec![];
                        for ((i, x), (j, y)) in o1.iter().zip(o2.iter()) {
                            let i2 = self.ji(i, j);
                            ovl.push((i2, self.jv(x, y)?));
                        }
                        AB::Tm { t, facts, ovl }
                    }
                    _ => return Err("array representation".into()),
                };
                V::Arr(Rc::new(Arr { len, body }))
            }
            (V::Undef, V::Undef) => V::Undef,
            (V::Unk, V::Unk) => V::Unk,
            (V::FnP(a), V::FnP(b)) if a == b => x.clone(),
            _ => return Err("values differ".into()),
        })
    }
    fn jvs(&mut self, p: &[V], q: &[V]) -> E<Vec<V>> {
        if p.len() != q.len() {
            return Err("arity".into());
        }
        p.iter().zip(q.iter()).map(|(x, y)| self.jv(x, y)).collect()
    }
    /// a template known only in B
    fn adopt(&mut self, t: &V) -> V {
        match t {
            V::Int(l) => {
                if self.b_stable(l) {
                    return t.clone();
                }
                if let Some(AK::App { f, .. }) = l.single().map(ak) {
                    if !self.gsig.contains_key(&f) {
                        return fresh_like(t);
                    }
                }
                let g = new_fun(FunInfo { tag: format!("g{}", uniq()), lo: -(1 << 64), hi: 1 << 64, phi: true, ..Default::default() });
                V::Int(Lin::a(atom(AK::App { f: g, arg: Lin::a(jj()) })))
            }
            V::F(x) => {
                if self.bf_stable(*x) {
                    t.clone()
                } else {
                    fresh_like(t)
                }
            }
            V::Agg(a) => V::Agg(Rc::new(a.iter().map(|x| self.adopt(x)).collect())),
            V::Enum(k, a) => V::Enum(*k, Rc::new(a.iter().map(|x| self.adopt(x)).collect())),
            V::Bx(x, k) => V::Bx(Rc::new(self.adopt(x)), *k),
            V::Bool(B::C(_)) | V::Str(S::C(_)) | V::FnP(_) | V::Undef => t.clone(),
            V::Ptr(p) if p.proj.iter().all(|e| if let Pj::Elem(l) = e { self.b_stable(l) } else { true }) && (if let Meta::Slice(a, b) = &p.meta { self.b_stable(a) && self.b_stable(b) } else { true }) => t.clone(),
            _ => V::Unk,
        }
    }
    fn jt_int(&mut self, a: &Lin, b: &Lin) -> Lin {
        let s = self.sb(a);
        if s == *b || self.b.eq0(&s.sub(b)) {
            return a.clone();
        }
        if let (Some(x), Some(y)) = (a.single(), b.single()) {
            if let (AK::App { f: f1, arg: g1 }, AK::App { f: f2, arg: g2 }) = (ak(x), ak(y)) {
                if f1 == f2 && !fun(f1).phi {
                    let n = self.jt_int(&g1, &g2);
                    return Lin::a(atom(AK::App { f: f1, arg: n }));
                }
            }
        }
        for (x, y, n) in &self.newg {
            if x == a && y == b {
                return n.clone();
            }
        }
        let f = new_fun(FunInfo { tag: format!("g{}", uniq()), lo: -(1 << 64), hi: 1 << 64, phi: true, ..Default::default() });
        let n = Lin::a(atom(AK::App { f, arg: Lin::a(jj()) }));
        self.newg.push((a.clone(), b.clone(), n.clone()));
        self.changed = true;
        n
    }
    fn jt(&mut self, x: &V, y: &V) -> V {
        match (x, y) {
            (V::Int(a), V::Int(b)) => V::Int(self.jt_int(a, b)),
            (V::F(a), V::F(b)) => {
                let s = self.fsb(*a);
                if f_same(s, *b) {
                    return x.clone();
                }
                if let (FN::App { f: f1, arg: g1 }, FN::App { f: f2, arg: g2 }) = (fnode(*a), fnode(*b)) {
                    if f1 == f2 && !fun(f1).phi {
                        let n = self.jt_int(&g1, &g2);
                        return V::F(ft(FN::App { f: f1, arg: n }));
                    }
                }
                let nn = self.a.fsign(*a).0 && self.b.fsign(*b).0;
                let f = new_fun(FunInfo { tag: format!("w{}", uniq()), nan: may_nan(*a) || may_nan(*b), nonneg: nn, phi: true, ..Default::default() });
                self.changed = true;
                V::F(ft(FN::App { f, arg: Lin::a(jj()) }))
            }
            (V::Agg(p), V::Agg(q)) if p.len() == q.len() => V::Agg(Rc::new(p.iter().zip(q.iter()).map(|(x, y)| self.jt(x, y)).collect())),
            (V::Bx(p, t), V::Bx(q, u)) if t == u => V::Bx(Rc::new(self.jt(p, q)), *t),
            (V::Enum(k, p), V::Enum(m, q)) if k == m && p.len() == q.len() => V::Enum(*k, Rc::new(p.iter().zip(q.iter()).map(|(x, y)| self.jt(x, y)).collect())),
            (V::Ptr(p), V::Ptr(q)) if p.root == q.root && p.proj.len() == q.proj.len() => {
                let mut pj = vec![];
                for (e, g) in p.proj.iter().zip(q.proj.iter()) {
                    pj.push(match (e, g) {
                        (Pj::Elem(a), Pj::Elem(b)) => Pj::Elem(self.jt_int(a, b)),
                        (e, g) if e == g => e.clone(),
                        _ => {
                            self.changed = true;
                            return V::Unk;
                        }
                    });
                }
                let meta = match (&p.meta, &q.meta) {
                    (Meta::Slice(a, c), Meta::Slice(b, d)) => Meta::Slice(self.jt_int(a, b), self.jt_int(c, d)),
                    (m, n) if m == n => m.clone(),
                    _ => {
                        self.changed = true;
                        return V::Unk;
                    }
                };
                V::Ptr(Rc::new(PtrV { root: p.root.clone(), proj: pj, meta }))
            }
            (V::Unk, _) => V::Unk,
            (x, y) if v_eq(x, y) => x.clone(),
            _ => {
                self.changed = true;
                V::Unk
            }
        }
    }
}

fn lin_subst_deep2(l: &Lin, m: &dyn Fn(A) -> Option<Lin>, g: &dyn Fn(Fun, &Lin) -> Option<Lin>) -> Lin {
    l.subst(&|a| {
        if let Some(r) = m(a) {
            return Some(r);
        }
        match ak(a) {
            AK::App { f, arg } => {
                let n = lin_subst_deep2(&arg, m, g);
                if let Some(r) = g(f, &n) {
                    return Some(r);
                }
                if n == arg {
                    None
                } else {
                    Some(Lin::a(atom(AK::App { f, arg: n })))
                }
            }
            AK::Nl { op, args, lo, hi } => {
                let n: Vec<Lin> = args.iter().map(|x| lin_subst_deep2(x, m, g)).collect();
                if n == args {
                    None
                } else {
                    Some(Lin::a(atom(AK::Nl { op, args: n, lo, hi })))
                }
            }
            _ => None,
        }
    })
}

fn range(s: &State, l: &Lin) -> (i128, i128) {
    if let Some(k) = l.is_const() {
        return (k, k);
    }
    let mut lo = l.k;
    let mut hi = l.k;
    for (a, c) in &l.t {
        let (x, y) = bounds(*a);
        if *c > 0 {
            lo = lo.saturating_add(x.saturating_mul(*c));
            hi = hi.saturating_add(y.saturating_mul(*c));
        } else {
            lo = lo.saturating_add(y.saturating_mul(*c));
            hi = hi.saturating_add(x.saturating_mul(*c));
        }
    }
    if lo < 0 && s.le0(&l.neg()) {
        lo = 0;
    }
    for t in [1i128 << 31, u32::MAX as i128, i64::MAX as i128] {
        if hi > t && s.le0_(&l.addk(-t), true) {
            hi = t;
            break;
        }
    }
    (lo, hi)
}

fn atoms_of(s: &State) -> Vec<A> {
    let mut v: Vec<A> = vec![];
    for f in &s.facts.le {
        for a in f.atoms() {
            if !v.contains(&a) {
                v.push(a);
            }
        }
    }
    v
}
fn val_lins(v: &V, out: &mut Vec<Lin>) {
    match v {
        V::Int(l) => {
            if !out.contains(l) {
                out.push(l.clone())
            }
        }
        V::Agg(a) | V::Enum(_, a) => a.iter().for_each(|x| val_lins(x, out)),
        V::Bx(x, _) => val_lins(x, out),
        V::Opq(o) => o.1.iter().for_each(|x| val_lins(x, out)),
        V::Arr(a) => {
            if !out.contains(&a.len) {
                out.push(a.len.clone());
            }
            match &a.body {
                AB::List(l) => l.iter().for_each(|x| val_lins(x, out)),
                AB::Tm { ovl, .. } => ovl.iter().for_each(|(i, x)| {
                    if !out.contains(i) {
                        out.push(i.clone());
                    }
                    val_lins(x, out)
                }),
            }
        }
        V::Ptr(p) => {
            for e in &p.proj {
                if let Pj::Elem(l) = e {
                    if !out.contains(l) {
                        out.push(l.clone());
                    }
                }
            }
            if let Meta::Slice(a, b) = &p.meta {
                for l in [a, b] {
                    if !out.contains(l) {
                        out.push(l.clone());
                    }
                }
            }
        }
        _ => {}
    }
}
fn val_fts(v: &V, out: &mut Vec<FT>) {
    match v {
        V::F(x) => {
            if !out.contains(x) {
                out.push(*x)
            }
        }
        V::Agg(a) | V::Enum(_, a) => a.iter().for_each(|x| val_fts(x, out)),
        V::Bx(x, _) => val_fts(x, out),
        V::Opq(o) => o.1.iter().for_each(|x| val_fts(x, out)),
        V::Arr(a) => match &a.body {
            AB::List(l) => l.iter().for_each(|x| val_fts(x, out)),
            AB::Tm { ovl, .. } => ovl.iter().for_each(|(_, x)| val_fts(x, out)),
        },
        _ => {}
    }
}

/// join B into invariant A. None: B is covered by A.
pub fn join(a0: &State, b0: &State, njoins: u32) -> E<Option<State>> {
    let mut a = a0.clone();
    let mut b = b0.clone();
    if a.frames.len() != b.frames.len() {
        return Err("frames".into());
    }
    for d in 0..a.frames.len() {
        if Rc::ptr_eq(&a.frames[d].locals, &b.frames[d].locals) {
            continue;
        }
        for l in 0..a.frames[d].locals.len() {
            let (x, y) = (a.frames[d].locals[l].clone(), b.frames[d].locals[l].clone());
            let (u, w) = align(&mut a, &mut b, &x, &y)?;
            a.set_local(d as u32, l as u32, u);
            b.set_local(d as u32, l as u32, w);
        }
    }
    let mut j = J {
        a: &a,
        b: &b,
        sig: Default::default(),
        fsig: Default::default(),
        psig: Default::default(),
        gsig: Default::default(),
        gfsig: Default::default(),
        clash: Default::default(),
        memo: vec![],
        fmemo: vec![],
        bmemo: vec![],
        newp: vec![],
        newf: vec![],
        newg: vec![],
        changed: false,
    };
    for d in 0..a.frames.len() {
        for l in 0..a.frames[d].locals.len() {
            j.collect(&a.frames[d].locals[l], &b.frames[d].locals[l])?;
        }
    }
    let mut r = a.clone();
    for d in 0..a.frames.len() {
        for l in 0..a.frames[d].locals.len() {
            let v = j.jv(&a.frames[d].locals[l], &b.frames[d].locals[l])?;
            r.set_local(d as u32, l as u32, v);
        }
    }
    let gh: Vec<u32> = a.ghost.keys().copied().collect();
    for k in gh {
        let (Some(x), Some(y)) = (a.ghost.get(&k), b.ghost.get(&k)) else { return Err("ghost".into()) };
        if !v_eq(x, y) {
            return Err("ghost".into());
        }
    }
    // ---- facts
    let mut nf = Facts::default();
    let mut lost: Vec<A> = vec![];
    for f in &a.facts.le {
        let s = j.sb(f);
        if b.le0(&s) {
            nf.le.push(f.clone());
            continue;
        }
        j.changed = true;
        for x in f.atoms() {
            if !lost.contains(&x) {
                lost.push(x);
            }
        }
        // threshold relaxation
        let base = Lin { k: 0, t: s.t.clone() };
        if let Some(m) = b.max_of(&base) {
            // f: t + k <= 0; b: t_b + s.k... shift by the constant the substitution introduced
            let shift = s.k - f.k;
            for th in [-1i128, 0, 1] {
                // want t <= th in both
                if -f.k <= th && m + shift <= th {
                    nf.le.push(Lin { k: -th, t: f.t.clone() });
                    break;
                }
            }
        }
    }
    for f in &a.facts.ne {
        if b.ne0(&j.sb(f)) {
            nf.ne.push(f.clone());
        } else {
            j.changed = true;
        }
    }
    for f in &a.facts.fl {
        let (x, y) = (j.fsb(f.a), j.fsb(f.b));
        let ok = match b.fdecide(f.rel, x, y) {
            Dec::True => !f.neg,
            Dec::False => f.neg,
            _ => false,
        };
        if ok {
            nf.fl.push(f.clone());
        } else {
            j.changed = true;
            // weaken < to <=
            if f.rel == FR::Lt && matches!(b.fdecide(FR::Le, x, y), Dec::True) {
                nf.fl.push(FFact { rel: FR::Le, neg: false, a: f.a, b: f.b });
            }
        }
    }
    nf.absent = a.facts.absent.iter().filter(|x| b.facts.absent.contains(x)).cloned().collect();
    for (p, v) in &a.facts.preds {
        let q = j.bsb(&B::Pred(p.clone()));
        let ok = match b.decide(&q) {
            Dec::True => *v,
            Dec::False => !*v,
            _ => false,
        };
        if ok {
            nf.preds.insert(p.clone(), *v);
        } else {
            j.changed = true;
        }
    }
    if !j.changed && a0.frames.iter().zip(a.frames.iter()).all(|(x, y)| Rc::ptr_eq(&x.locals, &y.locals) || x.locals.iter().zip(y.locals.iter()).all(|(p, q)| v_eq(p, q))) {
        return Ok(None);
    }
    // ---- relations of the new join variables
    let newp = j.newp.clone();
    if !newp.is_empty() {
        // equalities between variables that advance in step
        let deltas: Vec<Lin> = newp.iter().map(|(_, x, y)| y.sub(&j.sb(x))).collect();
        let mut piv: Vec<usize> = vec![];
        'o: for i in 0..newp.len() {
            for &q in &piv {
                let (dq, di) = (&deltas[q], &deltas[i]);
                let e = if dq == di && !dq.t.is_empty() {
                    // p_i - a_i = p_q - a_q
                    Some(Lin::a(newp[i].0).sub(&newp[i].1).sub(&Lin::a(newp[q].0)).add(&newp[q].1))
                } else if let (Some(a), Some(b)) = (dq.is_const(), di.is_const()) {
                    // a*(p_i - x_i) = b*(p_q - x_q)
                    Some(Lin::a(newp[i].0).sub(&newp[i].1).scale(a).sub(&Lin::a(newp[q].0).sub(&newp[q].1).scale(b)))
                } else {
                    None
                };
                if let Some(e) = e {
                    // valid in B as well only if the entry values mean the same there
                    let back = |l: &Lin| l.subst(&|t| newp.iter().find(|n| n.0 == t).map(|n| n.2.clone()));
                    let eb = {
                        let x = back(&e);
                        // A-atoms inside are read through sigma
                        let mut vars: BTreeMap<A, Lin> = BTreeMap::new();
                        for (k, v) in &j.sig {
                            vars.insert(*k, v.clone());
                        }
                        let pa: Vec<A> = newp.iter().map(|n| n.0).collect();
                        let mut r = Lin::c(e.k);
                        for (t, c) in &e.t {
                            if let Some(n) = newp.iter().find(|n| n.0 == *t) {
                                r = r.add_scaled(&n.2, *c);
                            } else {
                                r = r.add_scaled(&j.sb(&Lin::a(*t)), *c);
                            }
                        }
                        let _ = (x, pa);
                        r
                    };
                    if b.eq0(&eb) {
                        nf.le.push(e.clone());
                        nf.le.push(e.neg());
                        continue 'o;
                    }
                }
            }
            piv.push(i);
        }
        // difference bounds against constants, other variables and live terms
        let mut terms: Vec<(Lin, Lin, Lin)> = vec![(Lin::c(0), Lin::c(0), Lin::c(0))]; // (result, in A, in B)
        for (p, x, y) in &newp {
            terms.push((Lin::a(*p), x.clone(), y.clone()));
        }
        for at in atoms_of(&a) {
            let l = Lin::a(at);
            let s = j.sb(&l);
            terms.push((l.clone(), l, s));
        }
        let mut lens = vec![];
        for f in r.frames.iter() {
            for v in f.locals.iter() {
                val_lins(v, &mut lens);
            }
        }
        for l in lens {
            if l.t.is_empty() || terms.iter().any(|t| t.0 == l) || l.atoms().any(|x| newp.iter().any(|n| n.0 == x)) {
                continue;
            }
            let s = j.sb(&l);
            terms.push((l.clone(), l, s));
        }
        if terms.len() > 60 {
            terms.truncate(60);
        }
        let mut cands: Vec<Lin> = vec![];
        for (n, (p, x, y)) in newp.iter().enumerate() {
            for (k, (t, ta, tb)) in terms.iter().enumerate() {
                if k >= 1 && k <= n + 1 {
                    continue; // itself, or handled from the other side
                }
                for sgn in [1i128, -1] {
                    let (da, db) = (x.sub(ta).scale(sgn), y.sub(tb).scale(sgn));
                    let ma = match da.is_const() {
                        Some(k) => Some(k),
                        None => a.max_of(&da),
                    };
                    let Some(ma) = ma else { continue };
                    if ma > 64 {
                        continue;
                    }
                    let mb = match db.is_const() {
                        Some(k) => Some(k),
                        None => b.max_of(&db),
                    };
                    let Some(mb) = mb else { continue };
                    let c = ma.max(mb);
                    if c > 64 || c < -64 {
                        continue;
                    }
                    let f = Lin::a(*p).sub(t).scale(sgn).addk(-c);
                    if f.t.len() == 1 && f.t[0].1 == -1 && f.k <= 0 && bounds(*p).0 >= 0 && c >= 0 {
                        continue;
                    }
                    if !cands.contains(&f) {
                        cands.push(f);
                    }
                }
            }
        }
        // keep only those the others do not imply
        cands.sort_by_key(|f| (f.t.len(), f.k.abs()));
        let mut tmp = r.clone();
        tmp.facts = Rc::new(Facts { le: nf.le.clone(), ..Default::default() });
        for f in cands {
            if !tmp.le0(&f) {
                Rc::make_mut(&mut tmp.facts).le.push(f.clone());
                nf.le.push(f);
            }
        }
        let _ = njoins;
    }
    // a bound on a tracked index was lost: relate it to the loop variables instead
    {
        let sks: Vec<A> = lost.iter().copied().filter(|x| is_sk(&Lin::a(*x))).collect();
        if !sks.is_empty() {
            let mut vars: Vec<A> = vec![];
            for x in atoms_of(&a) {
                if matches!(ak(x), AK::Sym { phi: true, .. }) && !is_sk(&Lin::a(x)) && !vars.contains(&x) {
                    vars.push(x);
                }
            }
            let mut tmp = r.clone();
            tmp.facts = Rc::new(Facts { le: nf.le.clone(), ..Default::default() });
            for k in sks {
                for v in &vars {
                    for sgn in [1i128, -1] {
                        let d = Lin::a(k).sub(&Lin::a(*v)).scale(sgn);
                        let (Some(x), Some(y)) = (a.max_of(&d), b.max_of(&j.sb(&d))) else { continue };
                        let c = x.max(y);
                        let f = d.addk(-c);
                        if c.abs() <= 1 && !tmp.le0(&f) {
                            Rc::make_mut(&mut tmp.facts).le.push(f.clone());
                            nf.le.push(f);
                        }
                    }
                }
            }
        }
    }
    let newf = j.newf.clone();
    if !newf.is_empty() {
        let zero = fc(0.0);
        let mut terms: Vec<(FT, FT, FT)> = vec![(zero, zero, zero)];
        for (p, x, y) in &newf {
            terms.push((*p, *x, *y));
        }
        let mut live = vec![];
        for f in r.frames.iter() {
            for v in f.locals.iter() {
                val_fts(v, &mut live);
            }
        }
        for x in live.into_iter().take(24) {
            if terms.iter().any(|t| t.0 == x) || newf.iter().any(|n| f_depends(x, n.0)) || fconst(x) == Some(0.0) {
                continue;
            }
            terms.push((x, x, j.fsb(x)));
        }
        for (n, (p, x, y)) in newf.iter().enumerate() {
            for (k, (t, ta, tb)) in terms.iter().enumerate() {
                if k >= 1 && k <= n + 1 {
                    continue;
                }
                if may_nan(*x) || may_nan(*y) || may_nan(*ta) || may_nan(*tb) {
                    continue;
                }
                let le = |s: &State, r: FR, u: FT, v: FT| matches!(s.fdecide(r, u, v), Dec::True);
                if le(&a, FR::Lt, *x, *ta) && le(&b, FR::Lt, *y, *tb) {
                    nf.fl.push(FFact { rel: FR::Lt, neg: false, a: *p, b: *t });
                } else if le(&a, FR::Le, *x, *ta) && le(&b, FR::Le, *y, *tb) {
                    nf.fl.push(FFact { rel: FR::Le, neg: false, a: *p, b: *t });
                }
                if le(&a, FR::Lt, *ta, *x) && le(&b, FR::Lt, *tb, *y) {
                    nf.fl.push(FFact { rel: FR::Lt, neg: false, a: *t, b: *p });
                } else if le(&a, FR::Le, *ta, *x) && le(&b, FR::Le, *tb, *y) {
                    nf.fl.push(FFact { rel: FR::Le, neg: false, a: *t, b: *p });
                }
            }
        }
    }
    nf.le.sort();
    nf.le.dedup();
    r.facts = Rc::new(nf);
    r.nuid = a.nuid.max(b.nuid);
    r.iforks = a.iforks.max(b.iforks);
    if r.taint.is_none() {
        r.taint = b.taint.clone();
    }
    Ok(Some(r))
}
