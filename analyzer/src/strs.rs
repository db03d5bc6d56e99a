//! Strings: concatenations of constants and unknown words; facts about them.
use crate::lin::*;
use crate::state::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local! {
    static UNK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    /// predicate name -> what it says
    static REG: RefCell<HashMap<Rc<str>, (&'static str, S, S)>> = RefCell::new(HashMap::new());
}

pub fn cs(x: &str) -> S {
    S::C(x.into())
}
/// an unknown text of at least one character, none of which is a blank, ':' or '='
pub fn is_word(s: &S) -> bool {
    matches!(s, S::Sym(t) if t.starts_with("word"))
}
/// an unknown text without surrounding blanks
fn is_trimmed(s: &S) -> bool {
    matches!(s, S::Sym(t) if t.starts_with("str") || t.starts_with("word")) || matches!(s, S::App("trim", _))
}
fn barrier(c: char) -> bool {
    c.is_whitespace() || c == ':' || c == '='
}
pub fn chunks(s: &S) -> Vec<S> {
    match s {
        S::C(c) if c.is_empty() => vec![],
        S::App("cat", v) => v.clone(),
        o => vec![o.clone()],
    }
}
pub fn cat(v: Vec<S>) -> S {
    let mut r: Vec<S> = vec![];
    for x in v.iter().flat_map(chunks) {
        match (r.last_mut(), &x) {
            (Some(S::C(a)), S::C(b)) => *a = format!("{a}{b}").into(),
            _ => r.push(x),
        }
    }
    match r.len() {
        0 => cs(""),
        1 => r.pop().unwrap(),
        _ => S::App("cat", r),
    }
}
pub fn len(s: &S) -> Lin {
    match s {
        S::C(c) => Lin::c(c.len() as i128),
        S::App("cat", v) => v.iter().fold(Lin::c(0), |a, x| a.add(&len(x))),
        o => Lin::a(atom(AK::Nl { op: "strlen", args: vec![Lin::c(crate::interp::str_id(o) as i128)], lo: is_word(o) as i128, hi: 1 << 31 })),
    }
}
/// every occurrence of `p` (chunk, offset); None: not known
fn occurrences(v: &[S], p: &str) -> Option<Vec<(usize, usize)>> {
    if p.is_empty() || (v.iter().any(|x| !matches!(x, S::C(_))) && !(p.chars().all(barrier) && v.iter().all(|x| matches!(x, S::C(_)) || is_word(x)))) {
        return None;
    }
    let mut r = vec![];
    for (k, x) in v.iter().enumerate() {
        if let S::C(c) = x {
            r.extend(c.match_indices(p).map(|(i, _)| (k, i)));
        }
    }
    Some(r)
}
fn sub(v: &[S], from: (usize, usize), to: (usize, usize)) -> S {
    let mut r = vec![];
    for k in from.0..=to.0.min(v.len().wrapping_sub(1)) {
        if k >= v.len() {
            break;
        }
        match &v[k] {
            S::C(c) => {
                let a = if k == from.0 { from.1 } else { 0 };
                let b = if k == to.0 { to.1 } else { c.len() };
                r.push(cs(&c[a..b]));
            }
            x if k == to.0 && to.1 == 0 => drop(x),
            x => r.push(x.clone()),
        }
    }
    cat(r)
}
fn end(v: &[S]) -> (usize, usize) {
    (v.len(), 0)
}
pub fn split(s: &S, p: &str, max: Option<usize>) -> Option<Vec<S>> {
    let v = chunks(s);
    let occ = occurrences(&v, p)?;
    let (mut r, mut at) = (vec![], (0, 0));
    for o in occ {
        if max.map_or(false, |m| r.len() + 1 >= m) {
            break;
        }
        r.push(sub(&v, at, o));
        at = (o.0, o.1 + p.len());
    }
    r.push(sub(&v, at, end(&v)));
    Some(r)
}
pub fn split_once(s: &S, p: &str, last: bool) -> Option<Option<(S, S)>> {
    let v = chunks(s);
    let occ = occurrences(&v, p)?;
    Some(if last { occ.last() } else { occ.first() }.map(|o| (sub(&v, (0, 0), *o), sub(&v, (o.0, o.1 + p.len()), end(&v)))))
}
pub fn find(s: &S, p: &str, last: bool) -> Option<Option<Lin>> {
    let v = chunks(s);
    let occ = occurrences(&v, p)?;
    Some(if last { occ.last() } else { occ.first() }.map(|o| len(&sub(&v, (0, 0), *o))))
}
/// the part between two positions that fall into constants or on a boundary
pub fn slice(s: &S, from: &Lin, to: &Lin) -> Option<S> {
    let v = chunks(s);
    let pos = |x: &Lin| {
        let mut at = Lin::c(0);
        for k in 0..=v.len() {
            let d = x.sub(&at);
            if let Some(d) = d.is_const() {
                if d == 0 {
                    return Some((k, 0));
                }
                if let Some(S::C(c)) = v.get(k) {
                    if d > 0 && d < c.len() as i128 && c.is_char_boundary(d as usize) {
                        return Some((k, d as usize));
                    }
                }
            }
            at = at.add(&len(v.get(k)?));
        }
        None
    };
    let (a, b) = (pos(from)?, pos(to)?);
    if a > b {
        return None;
    }
    Some(sub(&v, a, b))
}
pub fn trim(s: &S, front: bool, back: bool) -> S {
    let mut v = chunks(s);
    let mut rest = vec![];
    let (mut f, mut b) = (front, back);
    while f && !v.is_empty() {
        match &v[0] {
            S::C(c) => {
                let t = c.trim_start();
                if t.is_empty() {
                    v.remove(0);
                } else {
                    v[0] = cs(t);
                    f = false;
                }
            }
            x if is_word(x) || (v.len() == 1 && is_trimmed(x)) => f = false,
            _ => break,
        }
    }
    while b && !v.is_empty() {
        let n = v.len() - 1;
        match &v[n] {
            S::C(c) => {
                let t = c.trim_end();
                if t.is_empty() {
                    v.pop();
                } else {
                    v[n] = cs(t);
                    b = false;
                }
            }
            x if is_word(x) || (v.len() == 1 && is_trimmed(x)) => b = false,
            _ => break,
        }
    }
    v.append(&mut rest);
    let r = cat(v.clone());
    if v.is_empty() || !(f || b) {
        return r;
    }
    match (f, b) {
        (true, true) => S::App("trim", vec![r]),
        (true, false) => S::App("trim_start", vec![r]),
        _ => S::App("trim_end", vec![r]),
    }
}
/// no number is written with blanks, ':' or '='
pub fn never_number(s: &S) -> bool {
    chunks(s).iter().any(|x| matches!(x, S::C(t) if t.chars().any(barrier)))
}
fn never_empty(s: &S) -> bool {
    chunks(s).iter().any(|x| matches!(x, S::C(_)) || is_word(x))
}
fn reg(op: &'static str, a: S, c: S) -> B {
    let n: Rc<str> = format!("{op}:{}:{}", a.show(), c.show()).into();
    REG.with(|r| {
        r.borrow_mut().entry(n.clone()).or_insert((op, a, c));
    });
    B::Pred(n)
}
/// removes what both begin with; false: they differ right there
fn strip(a: &mut Vec<S>, c: &mut Vec<S>) -> bool {
    while let (Some(x), Some(y)) = (a.first().cloned(), c.first().cloned()) {
        match (&x, &y) {
            _ if x == y => {
                a.remove(0);
                c.remove(0);
            }
            (S::C(p), S::C(q)) => {
                let n = p.chars().zip(q.chars()).take_while(|(m, n)| m == n).map(|(m, _)| m.len_utf8()).sum::<usize>();
                if n < p.len() && n < q.len() {
                    return false;
                }
                for (v, t) in [(&mut *a, &p[n..]), (&mut *c, &q[n..])] {
                    if t.is_empty() {
                        v.remove(0);
                    } else {
                        v[0] = cs(t);
                    }
                }
            }
            (S::C(p), w) | (w, S::C(p)) if is_word(w) && barrier(p.chars().next().unwrap()) => return false,
            _ => break,
        }
    }
    true
}
pub fn eq(a: &S, c: &S) -> B {
    // rendered texts are not told apart: nothing is known about their equality
    if [a, c].iter().any(|x| chunks(x).iter().any(|y| matches!(y, S::App("fmt" | "tostring", _)))) {
        return B::Pred(format!("unk:text{}", UNK.with(|u| u.replace(u.get() + 1))).into());
    }
    let (mut x, mut y) = (chunks(a), chunks(c));
    if !strip(&mut x, &mut y) {
        return B::C(false);
    }
    x.reverse();
    y.reverse();
    while let (Some(p), Some(q)) = (x.first(), y.first()) {
        if p == q {
            x.remove(0);
            y.remove(0);
        } else {
            break;
        }
    }
    x.reverse();
    y.reverse();
    if x.is_empty() && y.is_empty() {
        return B::C(true);
    }
    let (a, c) = (cat(x), cat(y));
    for (p, q) in [(&a, &c), (&c, &a)] {
        if let S::C(t) = p {
            if t.is_empty() && never_empty(q) || is_word(q) && t.chars().any(barrier) || is_trimmed(q) && t.trim() != &**t {
                return B::C(false);
            }
        }
        if let S::C(t) = p {
            // the constant parts have to occur in the constant, in order
            let mut rest = &**t;
            for x in chunks(q) {
                if let S::C(x) = x {
                    match rest.find(&*x) {
                        Some(i) => rest = &rest[i + x.len()..],
                        None => return B::C(false),
                    }
                }
            }
        }
        if is_word(p) && chunks(q).iter().any(|x| matches!(x, S::C(t) if t.chars().any(barrier))) {
            return B::C(false);
        }
    }
    let (a, c) = if a.show() <= c.show() { (a, c) } else { (c, a) };
    reg("streq", a, c)
}
pub fn starts_with(s: &S, p: &S) -> (B, Option<S>) {
    let (mut x, mut y) = (chunks(s), chunks(p));
    if !strip(&mut x, &mut y) {
        return (B::C(false), None);
    }
    if y.is_empty() {
        return (B::C(true), Some(cat(x)));
    }
    if x.is_empty() && y.iter().any(|c| matches!(c, S::C(_)) || is_word(c)) {
        return (B::C(false), None);
    }
    (reg("starts_with", cat(x), cat(y)), None)
}
pub fn ends_with(s: &S, p: &S) -> B {
    match (chunks(s).last(), p) {
        _ if s == p => B::C(true),
        (_, S::C(q)) if q.is_empty() => B::C(true),
        (Some(S::C(c)), S::C(q)) if c.len() >= q.len() => B::C(c.ends_with(&**q)),
        (None, p) if never_empty(p) => B::C(false),
        (Some(w), S::C(q)) if is_word(w) && barrier(q.chars().last().unwrap()) => B::C(false),
        _ => reg("ends_with", s.clone(), p.clone()),
    }
}
pub fn contains(s: &S, p: &S) -> B {
    match p {
        _ if s == p => B::C(true),
        S::C(q) if q.is_empty() => B::C(true),
        S::C(q) => match occurrences(&chunks(s), q) {
            Some(v) => B::C(!v.is_empty()),
            None => reg("contains", s.clone(), p.clone()),
        },
        _ => reg("contains", s.clone(), p.clone()),
    }
}

fn eval(op: &str, a: &str, c: &str) -> bool {
    match op {
        "streq" => a == c,
        "starts_with" => a.starts_with(c),
        "ends_with" => a.ends_with(c),
        _ => a.contains(c),
    }
}
impl State {
    fn str_facts(&self) -> Vec<(&'static str, S, S, bool)> {
        REG.with(|r| {
            let r = r.borrow();
            self.facts.preds.iter().filter_map(|(p, v)| r.get(p).map(|(o, a, c)| (*o, a.clone(), c.clone(), *v))).collect()
        })
    }
    /// the known constant equal to `s`, if there is one
    pub fn str_norm(&self, s: &S) -> S {
        if matches!(s, S::C(_)) {
            return s.clone();
        }
        let facts = self.str_facts();
        let v = chunks(s).iter().map(|x| class(&facts, x).into_iter().find(|y| matches!(y, S::C(_))).unwrap_or(x.clone())).collect();
        cat(v)
    }
    /// consequences of what is known about the strings a predicate is about
    pub fn str_decide(&self, p: &Rc<str>) -> Option<bool> {
        let (op, a, c) = REG.with(|r| r.borrow().get(p).cloned())?;
        let facts = self.str_facts();
        let (ca, cc) = (class(&facts, &a), class(&facts, &c));
        if ca.iter().any(|x| cc.contains(x)) {
            return Some(true);
        }
        let konst = |v: &[S]| v.iter().find_map(|x| if let S::C(t) = x { Some(t.to_string()) } else { None });
        let (ka, kc) = (konst(&ca), konst(&cc));
        if let (Some(x), Some(y)) = (&ka, &kc) {
            return Some(eval(op, x, y));
        }
        // the empty text is in every text
        if op != "streq" && kc.as_deref() == Some("") {
            return Some(true);
        }
        if op == "streq" {
            for (k, u) in [(&ka, &cc), (&kc, &ca)] {
                if k.as_deref() == Some("") && facts.iter().any(|(o, _, y, v)| *o != "streq" && !*v && u.contains(y)) {
                    return Some(false);
                }
            }
        }
        for (o, x, y, v) in &facts {
            let same = ca.contains(x) && cc.contains(y);
            let swapped = ca.contains(y) && cc.contains(x);
            if same && (*o == op) || swapped && op == "streq" && *o == "streq" {
                return Some(*v);
            }
            // equal texts begin with, end in and contain one another
            if !*v && op == "streq" && (same || swapped) {
                return Some(false);
            }
        }
        // a text that another, constant one begins with: one of finitely many
        for (unk, kon, left) in [(&cc, &ka, false), (&ca, &kc, true)] {
            let Some(kon) = kon.as_ref() else { continue };
            let prefixes = |t: &str| -> Vec<String> { t.char_indices().map(|(i, _)| t[..i].to_string()).chain([t.to_string()]).collect() };
            let fits = |t: &String| {
                !(unk.iter().any(is_word) && (t.is_empty() || t.chars().any(barrier)))
                    && !(unk.iter().any(is_trimmed) && t.trim() != t)
                    && facts.iter().all(|(o, x, y, v)| {
                        let (lx, ly) = (unk.contains(x), unk.contains(y));
                        if lx && ly {
                            return true;
                        }
                        if lx {
                            return konst(&class(&facts, y)).map_or(true, |k| eval(o, t, &k) == *v);
                        }
                        if ly {
                            return konst(&class(&facts, x)).map_or(true, |k| eval(o, &k, t) == *v);
                        }
                        true
                    })
            };
            // could it be so at all?
            if op == "streq" && !(fits(kon) && unk.iter().all(|u| self.parse_fits(u, kon))) || op == "starts_with" && !left && !prefixes(kon).iter().any(fits) {
                return Some(false);
            }
            let mut cand: Option<Vec<String>> = None;
            for (o, x, y, v) in &facts {
                if *o == "starts_with" && *v && unk.contains(y) {
                    if let Some(t) = konst(&class(&facts, x)) {
                        cand = Some(prefixes(&t));
                        break;
                    }
                }
            }
            let Some(cand) = cand else { continue };
            let cand: Vec<String> = cand.into_iter().filter(fits).collect();
            let mut r = cand.iter().map(|t| if left { eval(op, t, kon) } else { eval(op, kon, t) });
            if let Some(first) = r.next() {
                if r.all(|x| x == first) {
                    return Some(first);
                }
            }
        }
        None
    }
}
/// does `t` read as a value of type `ty`?
pub fn reads(ty: &str, t: &str) -> Option<bool> {
    Some(match ty {
        "f32" | "f64" => t.parse::<f64>().is_ok(),
        "u8" => t.parse::<u8>().is_ok(),
        "u16" => t.parse::<u16>().is_ok(),
        "u32" => t.parse::<u32>().is_ok(),
        "u64" | "usize" => t.parse::<u64>().is_ok(),
        "u128" => t.parse::<u128>().is_ok(),
        "i8" => t.parse::<i8>().is_ok(),
        "i16" => t.parse::<i16>().is_ok(),
        "i32" => t.parse::<i32>().is_ok(),
        "i64" | "isize" => t.parse::<i64>().is_ok(),
        "i128" => t.parse::<i128>().is_ok(),
        _ => return None,
    })
}
const NUMERIC: [&str; 14] = ["f32", "f64", "u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128"];
impl State {
    fn parse_fits(&self, u: &S, k: &str) -> bool {
        NUMERIC.iter().all(|ty| {
            let p: Rc<str> = format!("parse-ok:{ty}:{}", u.show()).into();
            self.facts.preds.get(&p).map_or(true, |v| reads(ty, k).map_or(true, |r| r == *v))
        })
    }
    /// a text turns out to be a constant: so do the numbers read from it
    pub fn str_learn(&mut self, p: &Rc<str>) {
        let Some(("streq", a, c)) = REG.with(|r| r.borrow().get(p).cloned()) else { return };
        let facts = self.str_facts();
        let cl = class(&facts, &a);
        drop(c);
        let Some(k) = cl.iter().find_map(|x| if let S::C(t) = x { Some(t.clone()) } else { None }) else { return };
        for m in cl.iter().filter(|m| !matches!(m, S::C(_))) {
            for ty in NUMERIC {
                let n: Rc<str> = format!("parse-ok:{ty}:{}", m.show()).into();
                if self.facts.preds.get(&n) != Some(&true) {
                    continue;
                }
                if ty.starts_with('f') {
                    let Ok(x) = k.parse::<f64>() else { continue };
                    if x.is_nan() {
                        continue;
                    }
                    let v = ft(FN::Sym { tag: format!("f64parse:{}", m.show()), nan: false, phi: false });
                    self.assume(&B::F(FR::Eq, v, fc(x)), true);
                    self.assume(&B::F(FR::Eq, ft(FN::Un("cast", v)), fc(x as f32 as f64)), true);
                } else if let Ok(x) = k.parse::<i128>() {
                    let (lo, hi) = crate::models::range_of_name(ty);
                    let v = atom(AK::Sym { tag: format!("parse:{ty}:{}", m.show()), lo, hi, phi: false });
                    self.assume(&B::Eq(Lin::a(v).addk(-x)), true);
                }
            }
        }
    }
}
fn class(facts: &[(&'static str, S, S, bool)], s: &S) -> Vec<S> {
    let mut v = vec![s.clone()];
    let mut i = 0;
    while i < v.len() {
        let x = v[i].clone();
        for (o, a, c, t) in facts {
            if *o == "streq" && *t {
                for (p, q) in [(a, c), (c, a)] {
                    if *p == x && !v.contains(q) {
                        v.push(q.clone());
                    }
                }
            }
        }
        i += 1;
    }
    v
}
