//! The abstract interpreter: bodies, statements, calls.
use crate::ir::*;
use crate::join;
use crate::lin::*;
use crate::state::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Default, Clone)]
pub struct Ob {
    pub proved: u64,
    pub open: u64,
    pub why: BTreeSet<String>,
    pub violation: Option<String>,
    pub reached: u64,
}

pub struct Interp {
    pub exact: bool,
    pub peel: u32,
    /// proof mode: passes through a loop analysed before its invariant is looked for
    pub unroll: u32,
    /// summarised sorts by contents and comparator
    pub sorts: std::collections::HashMap<String, crate::lin::Fun>,
    pub obs: BTreeMap<String, Ob>,
    pub fails: BTreeMap<String, u64>,
    pub taints: BTreeSet<String>,
    pub funcs: BTreeMap<String, BTreeSet<usize>>,
    pub std_funcs: BTreeSet<String>,
    pub models: Rc<HashMap<String, FnDef>>,
    pub model_used: BTreeSet<String>,
    pub prims_used: BTreeSet<String>,
    pub steps: u64,
    pub states: u64,
    pub joins: u64,
    pub deadline: Instant,
    pub depth: usize,
    pub target_crate: String,
    pub verbose: bool,
    pub panic_obl: bool,
    pub calls: u64,
    pub prof: HashMap<String, (std::time::Duration, u64)>,
    pub prof_nested: std::time::Duration,
    pub max_steps: u64,
    pub ob_prefix: Option<String>,
    pub templates: HashMap<String, V>,
    pub lists: bool,
    pub beam: usize,
    pub thinned: u64,
    pub deep: bool,
    /// paths of the exact phase that were not followed to the end
    pub cut: u64,
}

pub type Outs = Vec<(State, V)>;

pub enum Loc {
    P(PtrV),
    Vl(V),
}

struct Work {
    block: usize,
    from: usize,
    st: State,
    lin: Rc<Vec<(usize, usize, u32)>>,
}

pub struct Inv {
    under: Vec<(usize, usize, u32)>,
    pub shape: String,
    pub st: State,
    pub ver: u32,
    pub joins: u32,
}

impl State {
    pub fn local(&self, f: u32, l: u32) -> &V {
        &self.frames[f as usize].locals[l as usize]
    }
    pub fn set_local(&mut self, f: u32, l: u32, v: V) {
        Rc::make_mut(&mut self.frames[f as usize].locals)[l as usize] = v;
    }
    pub fn read(&mut self, p: &PtrV) -> R<V> {
        let root = match &p.root {
            Root::Local(f, l) => {
                if *f as usize >= self.frames.len() {
                    return fail("dangling pointer");
                }
                self.local(*f, *l).clone()
            }
            Root::Const(c) => c.0.clone(),
        };
        self.walk(&root, &p.proj)
    }
    pub fn walk(&mut self, v: &V, pj: &[Pj]) -> R<V> {
        if pj.is_empty() {
            return Ok(v.clone());
        }
        if let V::Unk = v {
            return Ok(V::Unk);
        }
        match &pj[0] {
            Pj::Field(i) => match v {
                V::Agg(a) | V::Enum(_, a) => match a.get(*i as usize) {
                    Some(x) => self.walk(x, &pj[1..]),
                    None => fail(format!("field {i} of {} fields", a.len())),
                },
                V::Undef => fail("read of undefined value"),
                V::Opq(_) => Ok(V::Unk),
                o if *i == 0 => self.walk(&o.clone(), &pj[1..]),
                o => fail(format!("field of {o:?}")),
            },
            Pj::Boxed => match v {
                V::Bx(b, _) => self.walk(b, &pj[1..]),
                V::Undef => fail("read of undefined box"),
                o => fail(format!("unbox of {o:?}")),
            },
            Pj::Elem(i) => match v {
                V::Arr(a) => {
                    let e = self.arr_get(a, i)?;
                    self.walk(&e, &pj[1..])
                }
                V::Undef => fail("read of undefined array"),
                o => fail(format!("index of {o:?}")),
            },
            Pj::MapVal(k) => match v {
                V::Opq(o) if (*k as usize) < o.1.len() => self.walk(&o.1[*k as usize], &pj[1..]),
                o => fail(format!("component of {o:?}")),
            },
        }
    }
    pub fn write(&mut self, p: &PtrV, new: V) -> R<()> {
        match &p.root {
            Root::Local(f, l) => {
                if p.proj.is_empty() {
                    self.set_local(*f, *l, new);
                    return Ok(());
                }
                let root = self.local(*f, *l).clone();
                let n = self.upd(&root, &p.proj, new)?;
                self.set_local(*f, *l, n);
                Ok(())
            }
            Root::Const(_) => fail("write to constant"),
        }
    }
    fn upd(&mut self, v: &V, pj: &[Pj], new: V) -> R<V> {
        if pj.is_empty() {
            return Ok(new);
        }
        match &pj[0] {
            Pj::Field(i) => match v {
                V::Agg(a) | V::Enum(_, a) => {
                    let i = *i as usize;
                    let mut a2 = (**a).clone();
                    if i >= a2.len() {
                        a2.resize(i + 1, V::Undef);
                    }
                    a2[i] = self.upd(&a2[i].clone(), &pj[1..], new)?;
                    Ok(match v {
                        V::Agg(_) => V::Agg(Rc::new(a2)),
                        V::Enum(k, _) => V::Enum(*k, Rc::new(a2)),
                        _ => unreachable!(),
                    })
                }
                V::Undef => {
                    let mut a2 = vec![V::Undef; *i as usize + 1];
                    a2[*i as usize] = self.upd(&V::Undef, &pj[1..], new)?;
                    Ok(V::Agg(Rc::new(a2)))
                }
                V::Unk => Ok(V::Unk),
                o if *i == 0 => self.upd(&o.clone(), &pj[1..], new),
                o => fail(format!("write field of {o:?}")),
            },
            Pj::Boxed => match v {
                V::Bx(b, t) => Ok(V::Bx(Rc::new(self.upd(b, &pj[1..], new)?), *t)),
                o => fail(format!("write box of {o:?}")),
            },
            Pj::Elem(i) => match v {
                V::Arr(a) => {
                    let old = if pj.len() > 1 { self.arr_get(a, i)? } else { V::Undef };
                    let n = self.upd(&old, &pj[1..], new)?;
                    Ok(V::Arr(Rc::new(self.arr_set(a, i, n)?)))
                }
                V::Unk => Ok(V::Unk),
                o => fail(format!("write index of {o:?}")),
            },
            Pj::MapVal(k) => match v {
                V::Opq(o) if (*k as usize) < o.1.len() => {
                    let mut c = o.1.clone();
                    let old = c[*k as usize].clone();
                    c[*k as usize] = self.upd(&old, &pj[1..], new)?;
                    Ok(V::Opq(Rc::new((o.0.clone(), c))))
                }
                o => fail(format!("write component of {o:?}")),
            },
        }
    }
    pub fn mark_visited(&mut self, idx: &Lin) {
        if self.visited.is_empty() {
            return;
        }
        let m = Rc::make_mut(&mut self.visited);
        for v in m.values_mut() {
            if !v.contains(idx) {
                v.push(idx.clone());
                v.sort();
            }
        }
    }
    pub fn arr_get(&mut self, a: &Arr, i: &Lin) -> R<V> {
        match &a.body {
            AB::List(v) => {
                if let Some(k) = i.is_const() {
                    return match v.get(k as usize) {
                        Some(x) => Ok(x.clone()),
                        None => fail("index out of list"),
                    };
                }
                for (k, x) in v.iter().enumerate() {
                    if k + 1 == v.len() || self.test_eq(i, &Lin::c(k as i128))? {
                        return Ok(x.clone());
                    }
                }
                fail("index into empty list")
            }
            AB::Tm { t, facts, ovl } => {
                for (j, x) in ovl.iter().rev() {
                    if self.test_eq(i, j)? {
                        if is_sk(j) {
                            self.mark_visited(j);
                        }
                        return Ok(x.clone());
                    }
                }
                Ok(self.inst_t(t, facts, i))
            }
        }
    }
    pub fn inst_t(&mut self, t: &V, facts: &[Lin], i: &Lin) -> V {
        let j = atom(AK::BoundJ);
        for f in facts {
            let g = lin_subst_deep(f, &|a| if a == j { Some(i.clone()) } else { None });
            self.assume_le(g);
        }
        inst_v(t, i)
    }
    pub fn arr_set(&mut self, a: &Arr, i: &Lin, new: V) -> R<Arr> {
        match &a.body {
            AB::List(v) => {
                if let Some(k) = i.is_const() {
                    let mut v2 = v.clone();
                    if (k as usize) >= v2.len() {
                        return fail("write out of list");
                    }
                    v2[k as usize] = new;
                    return Ok(Arr { len: a.len.clone(), body: AB::List(v2) });
                }
                for k in 0..v.len() {
                    if k + 1 == v.len() || self.test_eq(i, &Lin::c(k as i128))? {
                        let mut v2 = v.clone();
                        v2[k] = new;
                        return Ok(Arr { len: a.len.clone(), body: AB::List(v2) });
                    }
                }
                fail("write into empty list")
            }
            AB::Tm { t, facts, ovl } => {
                let mut o2 = ovl.clone();
                for k in (0..ovl.len()).rev() {
                    if self.test_eq(i, &ovl[k].0)? {
                        if is_sk(&ovl[k].0) {
                            self.mark_visited(&ovl[k].0);
                            if !v_eq(&ovl[k].1, &new) {
                                // written: kept apart from states where it still has its old value
                                self.mark_visited(&ovl[k].0.addk(1 << 40));
                            }
                        }
                        o2[k].1 = new;
                        return Ok(Arr { len: a.len.clone(), body: AB::Tm { t: t.clone(), facts: facts.clone(), ovl: o2 } });
                    }
                }
                o2.push((i.clone(), new));
                Ok(Arr { len: a.len.clone(), body: AB::Tm { t: t.clone(), facts: facts.clone(), ovl: o2 } })
            }
        }
    }
    pub fn uid(&mut self) -> u64 {
        self.nuid += 1;
        self.nuid
    }
    /// nondeterministic choice; deterministic name so that a retried step sees the same one
    pub fn choose(&mut self, tag: &str) -> R<bool> {
        let n = self.uid();
        let p: Rc<str> = format!("ch:{tag}:{n}").into();
        self.test(&B::Pred(p))
    }
}

/// index built from skolem constants only
pub fn is_sk(l: &Lin) -> bool {
    !l.t.is_empty()
        && l.t.iter().all(|(a, _)| match ak(*a) {
            AK::Sym { tag, .. } => tag.starts_with("sk"),
            _ => false,
        })
}
pub fn inst_v(t: &V, i: &Lin) -> V {
    let j = atom(AK::BoundJ);
    let m = |a: A| if a == j { Some(i.clone()) } else { None };
    map_v(t, &|l| lin_subst_deep(l, &m), &|x| f_subst(x, &|l| lin_subst_deep(l, &m), &|_| None))
}
pub fn map_v(t: &V, ml: &dyn Fn(&Lin) -> Lin, mf: &dyn Fn(FT) -> FT) -> V {
    match t {
        V::Int(l) => V::Int(ml(l)),
        V::F(x) => V::F(mf(*x)),
        V::Bool(b) => V::Bool(map_b(b, ml, mf)),
        V::Agg(a) => V::Agg(Rc::new(a.iter().map(|x| map_v(x, ml, mf)).collect())),
        V::Enum(k, a) => V::Enum(*k, Rc::new(a.iter().map(|x| map_v(x, ml, mf)).collect())),
        V::Bx(b, t) => V::Bx(Rc::new(map_v(b, ml, mf)), *t),
        V::Opq(o) => V::Opq(Rc::new((o.0.clone(), o.1.iter().map(|x| map_v(x, ml, mf)).collect()))),
        V::Ptr(p) => {
            let pj = p
                .proj
                .iter()
                .map(|e| match e {
                    Pj::Elem(l) => Pj::Elem(ml(l)),
                    o => o.clone(),
                })
                .collect();
            let meta = match &p.meta {
                Meta::Slice(a, b) => Meta::Slice(ml(a), ml(b)),
                o => o.clone(),
            };
            V::Ptr(Rc::new(PtrV { root: p.root.clone(), proj: pj, meta }))
        }
        V::Arr(a) => match &a.body {
            AB::List(v) => V::Arr(Rc::new(Arr { len: ml(&a.len), body: AB::List(v.iter().map(|x| map_v(x, ml, mf)).collect()) })),
            AB::Tm { .. } => t.clone(),
        },
        o => o.clone(),
    }
}
pub fn map_b(b: &B, ml: &dyn Fn(&Lin) -> Lin, mf: &dyn Fn(FT) -> FT) -> B {
    match b {
        B::Le(l) => B::Le(ml(l)),
        B::Eq(l) => B::Eq(ml(l)),
        B::F(r, x, y) => B::F(*r, mf(*x), mf(*y)),
        B::Not(x) => B::Not(Rc::new(map_b(x, ml, mf))),
        o => o.clone(),
    }
}

pub fn ptr_push(p: &PtrV, e: Pj) -> PtrV {
    let mut q = p.clone();
    q.proj.push(e);
    q.meta = Meta::None;
    q
}
pub fn vptr(p: PtrV) -> V {
    V::Ptr(Rc::new(p))
}
pub fn none() -> V {
    en(0, vec![])
}
pub fn some(v: V) -> V {
    en(1, vec![v])
}

/// keep an evenly spread part (alarm refinement only: fewer paths, never a wrong one)
fn thin<T>(v: &mut Vec<T>, keep: usize) {
    let n = v.len();
    let mut i = 0usize;
    v.retain(|_| {
        i += 1;
        (i * keep) / n != ((i - 1) * keep) / n
    });
}

impl Interp {
    pub fn step_guard(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.max_steps || (self.steps % 256 == 0 && Instant::now() > self.deadline) {
            return fail("budget exhausted");
        }
        Ok(())
    }

    // ------------------------------------------------------------ function bodies
    pub fn run(&mut self, mut st: State, inst: Instance, args: Vec<V>) -> Outs {
        let Some(bi) = body_of(inst) else {
            self.fail(&mut st, format!("no body for {}", inst.name()));
            return vec![];
        };
        self.calls += 1;
        if self.depth > 90 {
            self.fail(&mut st, "call depth".into());
            return vec![];
        }
        if bi.krate == self.target_crate {
            self.funcs.entry(bi.name.to_string()).or_default();
        } else if bi.krate != "vmodels" && !bi.krate.starts_with("vdrv") {
            self.std_funcs.insert(bi.name.to_string());
        }
        let d = st.frames.len() as u32;
        let mut locals = vec![V::Undef; bi.body.locals().len()];
        let na = bi.body.arg_locals().len();
        if na != args.len() {
            self.fail(&mut st, format!("arity of {}: {} vs {}", bi.name, na, args.len()));
            return vec![];
        }
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        st.frames.push(Frame { name: bi.name.clone(), locals: Rc::new(locals) });
        self.depth += 1;
        let t0 = Instant::now();
        let n0 = self.prof_nested;
        self.prof_nested = std::time::Duration::ZERO;
        let r = self.run_body(st, &bi, d);
        let el = t0.elapsed();
        let e = self.prof.entry(bi.name.to_string()).or_default();
        e.0 += el.saturating_sub(self.prof_nested);
        e.1 += 1;
        self.prof_nested = n0 + el;
        self.depth -= 1;
        r
    }

    fn run_body(&mut self, st: State, bi: &Rc<BodyInfo>, d: u32) -> Outs {
        let mut wl: Vec<Work> = vec![Work { block: 0, from: usize::MAX, st, lin: Rc::new(vec![]) }];
        let mut invs: HashMap<usize, Vec<Inv>> = HashMap::new();
        let mut outs: Vec<(State, V, Rc<Vec<(usize, usize, u32)>>)> = vec![];
        while !wl.is_empty() {
            // lowest order first
            let mut bi_ = 0;
            for i in 1..wl.len() {
                if bi.order[wl[i].block] < bi.order[wl[bi_].block] {
                    bi_ = i;
                }
            }
            let w = wl.remove(bi_);
            let stale = |l: &Vec<(usize, usize, u32)>, invs: &HashMap<usize, Vec<Inv>>| l.iter().any(|(h, i, v)| invs[h][*i].ver != *v);
            if stale(&w.lin, &invs) {
                continue;
            }
            let Work { block, from, mut st, mut lin } = w;
            if let Err(Stop::Fail(m)) = self.step_guard() {
                self.fail(&mut st, m);
                return vec![];
            }
            if bi.heads.contains(&block) {
                let lb = &bi.loop_blocks[&block];
                let back = lb.contains(&from);
                // dead locals
                {
                    let live = &bi.live_in[block];
                    let ls = Rc::make_mut(&mut st.frames[d as usize].locals);
                    for (i, v) in ls.iter_mut().enumerate() {
                        if !live[i] && !bi.addr_taken[i] {
                            *v = V::Undef;
                        }
                    }
                }
                let key = (d, block);
                if !back {
                    Rc::make_mut(&mut st.visited).insert(key, vec![]);
                    Rc::make_mut(&mut st.peel).insert(key, (0, st.iforks));
                }
                let (cnt, ifk) = st.peel.get(&key).copied().unwrap_or((0, 0));
                let iforks = st.iforks;
                Rc::make_mut(&mut st.peel).insert(key, (cnt + 1, iforks));
                if self.exact {
                    let lim = if back && iforks == ifk { self.peel.max(80) } else { self.peel };
                    if cnt > lim {
                        self.cut += 1;
                        continue;
                    }
                } else if cnt < self.unroll {
                    // first passes kept apart from the invariant
                } else if back && iforks == ifk && cnt < 80 {
                    // deterministic iteration of a concrete loop: keep apart
                } else {
                    let mut nst = st.clone();
                    join::normalize(&mut nst);
                    join::forget_dead(&mut nst);
                    let sh = join::shape(&nst);
                    // the invariants this state descends from: a state is only joined with (or subsumed by) an
                    // invariant of the same descent, which is explored for as long as this state counts
                    let mut under: Vec<_> = lin.iter().filter(|x| !lb.contains(&x.0)).cloned().collect();
                    under.sort();
                    let list = invs.entry(block).or_default();
                    match list.iter().position(|i| i.shape == sh && i.under == under) {
                        None => {
                            list.push(Inv { shape: sh, st: nst.clone(), ver: 0, joins: 0, under: under.clone() });
                            under.push((block, list.len() - 1, 0));
                            lin = Rc::new(under);
                            st = nst;
                        }
                        Some(k) => {
                            self.joins += 1;
                            let inv = &mut list[k];
                            match join::join(&inv.st, &nst, inv.joins) {
                                Err(m) => {
                                    let mut s = nst;
                                    self.fail(&mut s, format!("join in {}: {m}", bi.name));
                                    continue;
                                }
                                Ok(None) => continue, // subsumed
                                Ok(Some(mut ns)) => {
                                    join::forget_dead(&mut ns);
                                    inv.joins += 1;
                                    if inv.joins > 25 {
                                        let mut s = ns;
                                        self.fail(&mut s, format!("no convergence in {}", bi.name));
                                        continue;
                                    }
                                    inv.ver += 1;
                                    inv.st = ns.clone();
                                    if self.verbose {
                                        eprintln!("    [{}] bb{} inv {} v{} vis={:?} le={:?} fl={:?}", bi.name, block, k, inv.ver, ns.visited, ns.facts.le, ns.facts.fl);
                                    }
                                    under.push((block, k, inv.ver));
                                    lin = Rc::new(under);
                                    st = ns;
                                }
                            }
                        }
                    }
                }
            }
            // execute block
            let res = self.exec_block(st, bi, d, block);
            self.states += res.len() as u64;
            for (mut s, next) in res {
                match next {
                    None => {
                        let v = std::mem::replace(&mut Rc::make_mut(&mut s.frames[d as usize].locals)[0], V::Undef);
                        s.frames.truncate(d as usize);
                        if s.visited.keys().any(|k| k.0 >= d) {
                            Rc::make_mut(&mut s.visited).retain(|k, _| k.0 < d);
                        }
                        if s.peel.keys().any(|k| k.0 >= d) {
                            Rc::make_mut(&mut s.peel).retain(|k, _| k.0 < d);
                        }
                        outs.push((s, v, lin.clone()));
                    }
                    Some(t) => {
                        // leaving a loop drops its bookkeeping
                        for (h, lb) in &bi.loop_blocks {
                            if lb.contains(&block) && !lb.contains(&t) {
                                if s.visited.contains_key(&(d, *h)) {
                                    Rc::make_mut(&mut s.visited).remove(&(d, *h));
                                }
                                if s.peel.contains_key(&(d, *h)) {
                                    Rc::make_mut(&mut s.peel).remove(&(d, *h));
                                }
                            }
                        }
                        wl.push(Work { block: t, from: block, st: s, lin: lin.clone() });
                    }
                }
            }
            if self.exact && wl.len() > self.beam {
                thin(&mut wl, self.beam / 2);
                self.thinned += 1;
            }
            if self.exact && outs.len() > self.beam {
                thin(&mut outs, self.beam / 2);
                self.thinned += 1;
            }
            if wl.len() > (if self.deep { 40_000 } else { 4000 }) {
                let mut s = wl.pop().unwrap().st;
                self.fail(&mut s, "too many states".into());
                return vec![];
            }
        }
        outs.into_iter().filter(|(_, _, l)| !l.iter().any(|(h, i, v)| invs[h][*i].ver != *v)).map(|(s, v, _)| (s, v)).collect()
    }

    pub fn fail(&mut self, st: &mut State, m: String) {
        if self.verbose {
            eprintln!("  FAIL {m}");
            eprintln!("{}", show_trace(st));
            for f in &st.frames {
                eprintln!("     in {}", f.name);
            }
        }
        *self.fails.entry(m).or_insert(0) += 1;
    }

    fn exec_block(&mut self, st: State, bi: &Rc<BodyInfo>, d: u32, block: usize) -> Vec<(State, Option<usize>)> {
        if bi.krate == self.target_crate {
            if let Some(s) = self.funcs.get_mut(&*bi.name) {
                s.insert(block);
            }
        }
        let mut outs = vec![];
        let mut stack: Vec<(State, usize)> = vec![(st, 0)];
        let blk = &bi.body.blocks[block];
        let mut forks = 0;
        while let Some((st, i)) = stack.pop() {
            if i < blk.statements.len() {
                let mut s2 = st.clone();
                match self.stmt(&mut s2, bi, d, &blk.statements[i]) {
                    Ok(()) => stack.push((s2, i + 1)),
                    Err(Stop::Fork(b)) => {
                        forks += 1;
                        self.fork(st, &b, bi, blk.statements[i].source_info.span, &mut |s| stack.push((s, i)));
                    }
                    Err(Stop::Infeasible) => {}
                    Err(Stop::Fail(m)) => {
                        let mut s = st;
                        self.fail(&mut s, format!("{m} @ {}", loc_of(bi, blk.statements[i].source_info.span)));
                    }
                }
            } else {
                match self.term(&st, bi, d, &blk.terminator) {
                    Ok(v) => outs.extend(v),
                    Err(Stop::Fork(b)) => {
                        forks += 1;
                        self.fork(st, &b, bi, blk.terminator.source_info.span, &mut |s| stack.push((s, i)));
                    }
                    Err(Stop::Infeasible) => {}
                    Err(Stop::Fail(m)) => {
                        let mut s = st;
                        self.fail(&mut s, format!("{m} @ {}", loc_of(bi, blk.terminator.source_info.span)));
                    }
                }
            }
            if forks > 3000 {
                let mut s = State::new();
                self.fail(&mut s, format!("fork explosion in {}", bi.name));
                return vec![];
            }
        }
        outs
    }

    fn fork(&mut self, st: State, b: &B, bi: &BodyInfo, span: Span, push: &mut dyn FnMut(State)) {
        let intf = matches!(b, B::Le(_) | B::Eq(_));
        for v in [false, true] {
            let mut s = st.clone();
            s.assume(b, v);
            if intf {
                s.iforks += 1;
                // both sides of an undecided `<=` are possible; only sharpened disequalities can refute one
                if !(matches!(b, B::Le(_)) && st.facts.ne.is_empty()) && s.infeasible_near(b) {
                    continue;
                }
            }
            if self.exact || self.verbose {
                if bi.krate == self.target_crate {
                    s.note(format!("{}: {} is {}", loc_of(bi, span), b.show(), v));
                } else {
                    s.note(format!("  ({}) {} is {}", short(&bi.name), b.show(), v));
                }
            }
            push(s);
        }
    }

    // ------------------------------------------------------------ places and operands
    pub fn place(&mut self, st: &mut State, bi: &BodyInfo, d: u32, p: &Place) -> R<Loc> {
        let mut loc = Loc::P(PtrV { root: Root::Local(d, p.local as u32), proj: vec![], meta: Meta::None });
        let mut ty = bi.body.locals()[p.local].ty;
        for e in &p.projection {
            let nty = e.ty(ty).ok();
            match e {
                ProjectionElem::Deref => {
                    let v = match loc {
                        Loc::P(ref q) => st.read(q)?,
                        Loc::Vl(ref v) => v.clone(),
                    };
                    loc = match v {
                        V::Ptr(q) => Loc::P((*q).clone()),
                        V::Bx(_, t) => match loc {
                            Loc::P(q) => {
                                let mut n = ptr_push(&q, Pj::Boxed);
                                if let Some(t) = t {
                                    n.meta = Meta::Dyn(t);
                                }
                                Loc::P(n)
                            }
                            _ => return fail("deref of box value"),
                        },
                        V::Str(_) => Loc::Vl(v),
                        V::Unk => Loc::Vl(V::Unk),
                        V::Undef => return fail("deref of undefined value"),
                        o => Loc::Vl(o),
                    };
                }
                ProjectionElem::Field(i, _) => {
                    let h = head(ty);
                    loc = match loc {
                        Loc::P(q) => {
                            if h == "Box" && *i == 0 {
                                let v = st.read(&q)?;
                                match v {
                                    V::Bx(_, t) => {
                                        let mut n = ptr_push(&q, Pj::Boxed);
                                        if let Some(t) = t {
                                            n.meta = Meta::Dyn(t);
                                        }
                                        Loc::Vl(vptr(n))
                                    }
                                    o => Loc::Vl(o),
                                }
                            } else if h == "Unique" || h == "NonNull" {
                                Loc::Vl(st.read(&q)?)
                            } else {
                                Loc::P(ptr_push(&q, Pj::Field(*i as u32)))
                            }
                        }
                        Loc::Vl(v) => {
                            if h == "Unique" || h == "NonNull" || h == "Box" {
                                Loc::Vl(v)
                            } else {
                                Loc::Vl(st.walk(&v, &[Pj::Field(*i as u32)])?)
                            }
                        }
                    };
                }
                ProjectionElem::Downcast(_) | ProjectionElem::OpaqueCast(_) => {}
                ProjectionElem::Index(l) => {
                    let V::Int(i) = st.local(d, *l as u32).clone() else { return fail("index value") };
                    loc = match loc {
                        Loc::P(q) => {
                            let off = match &q.meta {
                                Meta::Slice(o, _) => o.add(&i),
                                _ => i,
                            };
                            Loc::P(ptr_push(&q, Pj::Elem(off)))
                        }
                        Loc::Vl(v) => Loc::Vl(st.walk(&v, &[Pj::Elem(i)])?),
                    };
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let Loc::P(q) = loc else { return fail("const index of value") };
                    let (o, n) = self.slice_bounds(st, &q)?;
                    let i = if *from_end { o.add(&n).addk(-(*offset as i128)) } else { o.addk(*offset as i128) };
                    loc = Loc::P(ptr_push(&q, Pj::Elem(i)));
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let Loc::P(q) = loc else { return fail("subslice of value") };
                    let (o, n) = self.slice_bounds(st, &q)?;
                    let lo = o.addk(*from as i128);
                    let len = if *from_end { n.addk(-(*from as i128) - *to as i128) } else { Lin::c(*to as i128 - *from as i128) };
                    let mut r = q.clone();
                    r.meta = Meta::Slice(lo, len);
                    loc = Loc::P(r);
                }
            }
            if let Some(t) = nty {
                ty = t;
            }
        }
        Ok(loc)
    }
    /// offset and length of the array or slice a pointer designates
    pub fn slice_bounds(&mut self, st: &mut State, q: &PtrV) -> R<(Lin, Lin)> {
        match &q.meta {
            Meta::Slice(o, n) => Ok((o.clone(), n.clone())),
            _ => match st.read(q)? {
                V::Arr(a) => Ok((Lin::c(0), a.len.clone())),
                _ => fail("slice bounds"),
            },
        }
    }
    pub fn rdloc(&mut self, st: &mut State, l: &Loc) -> R<V> {
        match l {
            Loc::P(q) => match &q.meta {
                Meta::Slice(..) => fail("read of unsized place"),
                _ => st.read(q),
            },
            Loc::Vl(v) => Ok(v.clone()),
        }
    }
    pub fn operand(&mut self, st: &mut State, bi: &BodyInfo, d: u32, o: &Operand) -> R<V> {
        match o {
            Operand::Copy(p) => {
                let l = self.place(st, bi, d, p)?;
                let v = self.rdloc(st, &l)?;
                // a box is only ever copied to reach what it points to
                if let (V::Bx(_, t), Loc::P(q)) = (&v, &l) {
                    if o.ty(bi.body.locals()).map_or(false, |t| head(t) == "Box") {
                        let mut n = ptr_push(q, Pj::Boxed);
                        if let Some(t) = t {
                            n.meta = Meta::Dyn(*t);
                        }
                        return Ok(vptr(n));
                    }
                }
                Ok(v)
            }
            Operand::Move(p) => {
                let l = self.place(st, bi, d, p)?;
                let v = self.rdloc(st, &l)?;
                if p.projection.is_empty() {
                    st.set_local(d, p.local as u32, V::Undef);
                }
                Ok(v)
            }
            Operand::Constant(c) => const_val(&c.const_),
            Operand::RuntimeChecks(RuntimeChecks::OverflowChecks) => Ok(V::Bool(B::C(true))),
            Operand::RuntimeChecks(_) => Ok(V::Bool(B::C(false))),
        }
    }
    fn oty(&self, bi: &BodyInfo, o: &Operand) -> Ty {
        o.ty(bi.body.locals()).unwrap()
    }

    // ------------------------------------------------------------ statements
    fn stmt(&mut self, st: &mut State, bi: &BodyInfo, d: u32, s: &Statement) -> R<()> {
        match &s.kind {
            StatementKind::Assign(p, rv) => {
                let v = self.rvalue(st, bi, d, rv)?;
                match self.place(st, bi, d, p)? {
                    Loc::P(q) => st.write(&q, v),
                    Loc::Vl(V::Unk) => {
                        st.taint("write through an unknown pointer");
                        Ok(())
                    }
                    Loc::Vl(_) => fail("assignment to a value"),
                }
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let Loc::P(q) = self.place(st, bi, d, place)? else { return fail("set discriminant") };
                let cur = st.read(&q).unwrap_or(V::Undef);
                let f = match cur {
                    V::Enum(_, f) | V::Agg(f) => f,
                    _ => Rc::new(vec![]),
                };
                use rustc_public_bridge::IndexedVal;
                st.write(&q, V::Enum(variant_index.to_index() as u32, f))
            }
            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                if !matches!(st.local(d, *l as u32), V::Undef) {
                    st.set_local(d, *l as u32, V::Undef);
                }
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                if let V::Bool(b) = self.operand(st, bi, d, o)? {
                    st.assume(&b, true);
                }
                Ok(())
            }
            StatementKind::Intrinsic(_) => fail("copy_nonoverlapping"),
            _ => Ok(()),
        }
    }

    fn rvalue(&mut self, st: &mut State, bi: &BodyInfo, d: u32, rv: &Rvalue) -> R<V> {
        match rv {
            Rvalue::Use(o, _) => self.operand(st, bi, d, o),
            Rvalue::CopyForDeref(p) => {
                let l = self.place(st, bi, d, p)?;
                self.rdloc(st, &l)
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                if let Rvalue::Reborrow(..) = rv {
                    // reborrow of the reference held in the place
                    let l = self.place(st, bi, d, p)?;
                    return self.rdloc(st, &l);
                }
                match self.place(st, bi, d, p)? {
                    Loc::P(q) => {
                        // references to unsized str places are the string itself
                        Ok(vptr(q))
                    }
                    Loc::Vl(V::Str(s)) => Ok(V::Str(s)),
                    Loc::Vl(V::Unk) => Ok(V::Unk),
                    Loc::Vl(v) => Ok(cptr(v)),
                }
            }
            Rvalue::Len(p) => {
                let Loc::P(q) = self.place(st, bi, d, p)? else { return fail("len") };
                Ok(V::Int(self.slice_bounds(st, &q)?.1))
            }
            Rvalue::Discriminant(p) => {
                let l = self.place(st, bi, d, p)?;
                let v = self.rdloc(st, &l)?;
                let ty = p.ty(bi.body.locals()).unwrap();
                self.discr(&v, ty)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops {
                    v.push(match o {
                        // optimised library code copies what is moved: a box among the parts is the box itself
                        Operand::Copy(p) => {
                            let l = self.place(st, bi, d, p)?;
                            self.rdloc(st, &l)?
                        }
                        o => self.operand(st, bi, d, o)?,
                    });
                }
                use rustc_public_bridge::IndexedVal;
                Ok(match k {
                    AggregateKind::Array(_) => list(v),
                    AggregateKind::Adt(def, vi, _, _, af) => {
                        if def.kind() == AdtKind::Enum {
                            en(vi.to_index() as u32, v)
                        } else if def.kind() == AdtKind::Union {
                            let _ = af;
                            agg(v)
                        } else {
                            agg(v)
                        }
                    }
                    AggregateKind::RawPtr(..) => {
                        // data pointer, metadata
                        match (&v[0], v.get(1)) {
                            (V::Ptr(p), Some(V::Int(n))) => {
                                let mut q = (**p).clone();
                                let off = match q.proj.last() {
                                    Some(Pj::Elem(i)) => {
                                        let i = i.clone();
                                        q.proj.pop();
                                        i
                                    }
                                    _ => match &q.meta {
                                        Meta::Slice(o, _) => o.clone(),
                                        _ => Lin::c(0),
                                    },
                                };
                                q.meta = Meta::Slice(off, n.clone());
                                vptr(q)
                            }
                            (p, _) => p.clone(),
                        }
                    }
                    _ => agg(v),
                })
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, bi, d, o)?;
                let n = n.eval_target_usize().map_err(|_| Stop::Fail("repeat".into()))?;
                if n > 64 {
                    return fail("large array");
                }
                Ok(list(vec![v; n as usize]))
            }
            Rvalue::Cast(k, o, t) => {
                let v = self.operand(st, bi, d, o)?;
                let from = self.oty(bi, o);
                self.cast(st, k, v, from, *t)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, bi, d, o)?;
                match (op, v) {
                    (UnOp::Not, V::Bool(b)) => Ok(V::Bool(b.not())),
                    (UnOp::Not, V::Int(l)) => {
                        let (lo, hi) = int_range(self.oty(bi, o)).unwrap_or((0, USIZE_MAX));
                        if lo == 0 {
                            Ok(V::Int(Lin::c(hi).sub(&l)))
                        } else {
                            Ok(V::Int(l.neg().addk(-1)))
                        }
                    }
                    (UnOp::Neg, V::F(x)) => Ok(V::F(f_neg(x))),
                    (UnOp::Neg, V::Int(l)) => Ok(V::Int(l.neg())),
                    (UnOp::PtrMetadata, V::Ptr(p)) => match &p.meta {
                        Meta::Slice(_, n) => Ok(V::Int(n.clone())),
                        _ => Ok(unit()),
                    },
                    (UnOp::PtrMetadata, V::Str(s)) => Ok(V::Int(str_len(&s))),
                    _ => Ok(V::Unk),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let ty = self.oty(bi, a);
                let (x, y) = (self.operand(st, bi, d, a)?, self.operand(st, bi, d, b)?);
                if self.verbose && (matches!(x, V::Unk | V::Ptr(_)) || matches!(y, V::Unk)) {
                    eprintln!("  {op:?} in {}", bi.name);
                }
                self.binop(st, *op, x, y, ty)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ty = self.oty(bi, a);
                let (x, y) = (self.operand(st, bi, d, a)?, self.operand(st, bi, d, b)?);
                let (V::Int(x), V::Int(y)) = (&x, &y) else { return Ok(agg(vec![V::Unk, V::Bool(B::C(false))])) };
                let r = self.int_arith(st, *op, x, y)?;
                let (lo, hi) = int_range(ty).unwrap_or((0, USIZE_MAX));
                let ovf = if lo == 0 && matches!(op, BinOp::Sub) {
                    B::Le(r.addk(1))
                } else if lo == 0 {
                    B::Le(Lin::c(hi + 1).sub(&r))
                } else {
                    // signed: outside [lo, hi]
                    match st.decide(&B::Le(r.addk(-hi))) {
                        Dec::True => B::Le(r.addk(1 - lo)),
                        _ => B::Le(Lin::c(hi + 1).sub(&r)),
                    }
                };
                Ok(agg(vec![V::Int(r), V::Bool(ovf)]))
            }
            Rvalue::ThreadLocalRef(_) => fail("thread local"),
        }
    }

    pub fn discr(&mut self, v: &V, ty: Ty) -> R<V> {
        match v {
            V::Enum(k, _) => match rigid(ty) {
                RigidTy::Adt(def, _) => {
                    let vs = def.variants();
                    let Some(x) = vs.get(*k as usize) else { return fail("variant") };
                    let dv = def.discriminant_for_variant(x.idx());
                    // sign-extend
                    let val = match rigid(dv.ty) {
                        RigidTy::Int(i) => {
                            let sh = 128 - 8 * i.num_bytes() as u32;
                            ((dv.val << sh) as i128) >> sh
                        }
                        _ => dv.val as i128,
                    };
                    Ok(int(val))
                }
                _ => Ok(int(*k as i128)),
            },
            V::Bool(b) => Ok(V::Bool(b.clone())),
            V::Int(l) => Ok(V::Int(l.clone())),
            V::Unk => Ok(V::Unk),
            V::Undef => {
                // a type with one inhabited variant is never written
                if let Ok(l) = ty.layout() {
                    if let rustc_public::abi::VariantsShape::Single { index } = &l.shape().variants {
                        use rustc_public_bridge::IndexedVal;
                        return self.discr(&V::Enum(index.to_index() as u32, Rc::new(vec![])), ty);
                    }
                }
                fail("discriminant of undefined")
            }
            _ => Ok(V::Unk),
        }
    }

    pub fn int_arith(&mut self, st: &mut State, op: BinOp, x: &Lin, y: &Lin) -> R<Lin> {
        use BinOp::*;
        Ok(match op {
            Add | AddUnchecked => x.add(y),
            Sub | SubUnchecked => x.sub(y),
            Mul | MulUnchecked => {
                if let Some(k) = x.is_const() {
                    y.scale(k)
                } else if let Some(k) = y.is_const() {
                    x.scale(k)
                } else {
                    let (a, b) = if x <= y { (x, y) } else { (y, x) };
                    Lin::a(atom(AK::Nl { op: "mul", args: vec![a.clone(), b.clone()], lo: 0, hi: i128::MAX >> 8 }))
                }
            }
            Div => match (x.is_const(), y.is_const()) {
                (Some(a), Some(b)) if b != 0 => Lin::c(a / b),
                (_, Some(b)) if b > 0 && st.le0(&x.neg()) => {
                    let q = Lin::a(atom(AK::Nl { op: "div", args: vec![x.clone(), y.clone()], lo: 0, hi: USIZE_MAX }));
                    st.assume_le(q.scale(b).sub(x));
                    st.assume_le(x.sub(&q.scale(b)).addk(1 - b));
                    q
                }
                _ => Lin::a(atom(AK::Nl { op: "div", args: vec![x.clone(), y.clone()], lo: 0, hi: USIZE_MAX })),
            },
            Rem => match (x.is_const(), y.is_const()) {
                (Some(a), Some(b)) if b != 0 => Lin::c(a % b),
                (_, Some(b)) if b > 0 && st.le0(&x.neg()) => {
                    let q = Lin::a(atom(AK::Nl { op: "div", args: vec![x.clone(), y.clone()], lo: 0, hi: USIZE_MAX }));
                    st.assume_le(q.scale(b).sub(x));
                    st.assume_le(x.sub(&q.scale(b)).addk(1 - b));
                    x.sub(&q.scale(b))
                }
                _ => {
                    let r = Lin::a(atom(AK::Nl { op: "rem", args: vec![x.clone(), y.clone()], lo: 0, hi: USIZE_MAX }));
                    if st.le0(&y.neg().addk(1)) {
                        st.assume_le(r.sub(y).addk(1));
                    }
                    r
                }
            },
            o => match (x.is_const(), y.is_const()) {
                (Some(a), Some(b)) => Lin::c(match o {
                    BitXor => a ^ b,
                    BitAnd => a & b,
                    BitOr => a | b,
                    Shl | ShlUnchecked => a << (b & 63),
                    Shr | ShrUnchecked => a >> (b & 127),
                    _ => return fail("int op"),
                }),
                (_, Some(b)) if matches!(o, Shl | ShlUnchecked) && b < 60 => x.scale(1 << b),
                (_, Some(b)) if matches!(o, Shr | ShrUnchecked) && b < 60 => return self.int_arith(st, Div, x, &Lin::c(1 << b)),
                _ => {
                    let name = match o {
                        BitXor => "xor",
                        BitAnd => "and",
                        BitOr => "or",
                        Shl | ShlUnchecked => "shl",
                        _ => "shr",
                    };
                    Lin::a(atom(AK::Nl { op: name, args: vec![x.clone(), y.clone()], lo: 0, hi: USIZE_MAX }))
                }
            },
        })
    }

    pub fn binop(&mut self, st: &mut State, op: BinOp, x: V, y: V, ty: Ty) -> R<V> {
        use BinOp::*;
        match (&x, &y) {
            (V::Int(a), V::Int(b)) => Ok(match op {
                Eq => V::Bool(B::Eq(a.sub(b))).simp(),
                Ne => V::Bool(B::Eq(a.sub(b)).not()).simp(),
                Lt => V::Bool(B::Le(a.sub(b).addk(1))).simp(),
                Le => V::Bool(B::Le(a.sub(b))).simp(),
                Gt => V::Bool(B::Le(b.sub(a).addk(1))).simp(),
                Ge => V::Bool(B::Le(b.sub(a))).simp(),
                Cmp => ord(st.cmp(a, b)?),
                Offset => V::Int(a.add(b)),
                o => {
                    let r = self.int_arith(st, o, a, b)?;
                    // unchecked-by-type arithmetic wraps
                    let (lo, hi) = int_range(ty).unwrap_or((0, USIZE_MAX));
                    if matches!(o, Add | Sub | Mul | Shl) {
                        if st.le0(&r.addk(-hi)) && st.le0(&r.neg().addk(lo)) {
                            V::Int(r)
                        } else {
                            V::Int(Lin::a(atom(AK::Nl { op: "wrap", args: vec![r], lo, hi })))
                        }
                    } else {
                        V::Int(r)
                    }
                }
            }),
            (V::F(a), V::F(b)) => {
                let (a, b) = (*a, *b);
                Ok(match op {
                    Eq => V::Bool(B::F(FR::Eq, a, b)).simp(),
                    Ne => V::Bool(B::F(FR::Eq, a, b).not()).simp(),
                    Lt => V::Bool(B::F(FR::Lt, a, b)).simp(),
                    Le => V::Bool(B::F(FR::Le, a, b)).simp(),
                    Gt => V::Bool(B::F(FR::Lt, b, a)).simp(),
                    Ge => V::Bool(B::F(FR::Le, b, a)).simp(),
                    Add => V::F(f_bin("add", a, b)),
                    Sub => V::F(f_bin("sub", a, b)),
                    Mul => V::F(f_bin("mul", a, b)),
                    Div => V::F(f_bin("div", a, b)),
                    Rem => V::F(f_bin("rem", a, b)),
                    _ => return fail("float op"),
                })
            }
            (V::Bool(a), V::Bool(b)) => {
                let p = st.test(a)?;
                match op {
                    BitAnd if !p => return Ok(V::Bool(B::C(false))),
                    BitAnd => return Ok(V::Bool(b.clone())),
                    BitOr if p => return Ok(V::Bool(B::C(true))),
                    BitOr => return Ok(V::Bool(b.clone())),
                    BitXor | Ne => return Ok(V::Bool(if p { b.clone().not() } else { b.clone() })),
                    Eq => return Ok(V::Bool(if p { b.clone() } else { b.clone().not() })),
                    _ => {}
                }
                let q = st.test(b)?;
                Ok(match op {
                    Lt => V::Bool(B::C(!p & q)),
                    Le => V::Bool(B::C(p <= q)),
                    Gt => V::Bool(B::C(p & !q)),
                    Ge => V::Bool(B::C(p >= q)),
                    Cmp => ord(p.cmp(&q)),
                    _ => return fail("bool op"),
                })
            }
            (V::Ptr(a), V::Ptr(b)) => match op {
                Eq => Ok(V::Bool(B::C(a == b))),
                Ne => Ok(V::Bool(B::C(a != b))),
                _ => fail("pointer op"),
            },
            (V::Ptr(a), V::Int(k)) if matches!(op, Offset) => {
                let mut q = (**a).clone();
                match q.proj.last_mut() {
                    Some(Pj::Elem(i)) => *i = i.add(k),
                    _ => return fail("pointer offset"),
                }
                Ok(vptr(q))
            }
            (a, b) => {
                if matches!(op, Eq | Ne | Lt | Le | Gt | Ge) {
                    if self.verbose {
                        eprintln!("  compare {} with {}", crate::models::kind_of(a), crate::models::kind_of(b));
                    }
                    st.taint("comparison of unknown values");
                    let n = st.uid();
                    Ok(V::Bool(B::Pred(format!("unk:{n}").into())))
                } else {
                    Ok(V::Unk)
                }
            }
        }
    }

    pub fn cast(&mut self, st: &mut State, k: &CastKind, v: V, from: Ty, to: Ty) -> R<V> {
        match k {
            CastKind::IntToInt => match v {
                V::Int(l) => {
                    let (lo, hi) = int_range(to).unwrap_or((0, USIZE_MAX));
                    let (flo, fhi) = int_range(from).unwrap_or((0, USIZE_MAX));
                    if (lo <= flo && fhi <= hi) || (st.le0(&l.addk(-hi)) && st.le0(&l.neg().addk(lo))) {
                        return Ok(V::Int(l));
                    }
                    if let Some(c) = l.is_const() {
                        let n = hi - lo + 1;
                        if n > 0 {
                            let mut c = (c - lo).rem_euclid(n) + lo;
                            if c > hi {
                                c -= n;
                            }
                            return Ok(int(c));
                        }
                    }
                    Ok(V::Int(Lin::a(atom(AK::Nl { op: "cast", args: vec![l, Lin::c(lo), Lin::c(hi)], lo, hi }))))
                }
                V::Bool(b) => {
                    let t = st.test(&b)?;
                    Ok(int(t as i128))
                }
                V::Enum(k, f) => {
                    let d = self.discr(&V::Enum(k, f), from)?;
                    Ok(d)
                }
                o => Ok(o),
            },
            CastKind::IntToFloat => match v {
                V::Int(l) => Ok(V::F(match l.is_const() {
                    Some(c) => fc(c as f32 as f64),
                    None => ft(FN::I2F(l)),
                })),
                _ => Ok(V::Unk),
            },
            CastKind::FloatToInt => match v {
                V::F(x) => {
                    let (lo, hi) = int_range(to).unwrap_or((0, USIZE_MAX));
                    if let Some(c) = fconst(x) {
                        return Ok(int((c as i128).clamp(lo, hi)));
                    }
                    let n = Lin::a(atom(AK::F2I { x, lo, hi }));
                    if lo == 0 {
                        // truncation; saturating, and zero for NaN
                        if !st.test(&B::F(FR::Le, fc(1.0), x))? {
                            return Ok(int(0));
                        }
                        if !st.test(&B::F(FR::Lt, x, fc((hi + 1) as f64)))? {
                            return Ok(int(hi));
                        }
                        st.assume_le(n.neg().addk(1));
                        st.assume(&B::F(FR::Le, ft(FN::I2F(n.clone())), x), true);
                        st.assume(&B::F(FR::Lt, x, ft(FN::Add(ft(FN::I2F(n.clone())), fc(1.0)))), true);
                    }
                    Ok(V::Int(n))
                }
                _ => Ok(V::Unk),
            },
            CastKind::FloatToFloat => match v {
                V::F(x) => {
                    let narrow = matches!(rigid(to), RigidTy::Float(FloatTy::F32)) && matches!(rigid(from), RigidTy::Float(FloatTy::F64));
                    if narrow {
                        if let Some(c) = fconst(x) {
                            return Ok(V::F(fc(c as f32 as f64)));
                        }
                        if is_f32_term(x) {
                            return Ok(V::F(x));
                        }
                        return Ok(V::F(ft(FN::Un("cast", x))));
                    }
                    Ok(V::F(x))
                }
                _ => Ok(V::Unk),
            },
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::Unsize => self.unsize(st, v, from, to),
                PointerCoercion::ReifyFnPointer(_) => match rigid(from) {
                    RigidTy::FnDef(def, args) => match Instance::resolve_for_fn_ptr(def, &args) {
                        Ok(i) => Ok(V::FnP(i)),
                        Err(_) => fail("fn pointer"),
                    },
                    _ => Ok(v),
                },
                PointerCoercion::ClosureFnPointer(_) => match rigid(from) {
                    RigidTy::Closure(def, args) => match Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                        Ok(i) => Ok(V::FnP(i)),
                        Err(_) => fail("closure fn pointer"),
                    },
                    _ => Ok(v),
                },
                PointerCoercion::ArrayToPointer => match v {
                    V::Ptr(p) => Ok(vptr(ptr_push(&p, Pj::Elem(Lin::c(0))))),
                    o => Ok(o),
                },
                _ => Ok(v),
            },
            CastKind::PtrToPtr => {
                // UnsafeCell<T> -> T
                if let (V::Ptr(p), Some(a), Some(b)) = (&v, pointee(from), pointee(to)) {
                    if is_adt(a, "UnsafeCell") && !is_adt(b, "UnsafeCell") {
                        let m = p.meta.clone();
                        let mut q = ptr_push(p, Pj::Field(0));
                        if let Meta::Slice(..) = m {
                            q.meta = m;
                        }
                        return Ok(vptr(q));
                    }
                    // slice pointer to element pointer
                    if let Meta::Slice(o, _) = &p.meta {
                        if !matches!(rigid(b), RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..)) {
                            let o = o.clone();
                            return Ok(vptr(ptr_push(p, Pj::Elem(o))));
                        }
                    }
                }
                Ok(v)
            }
            CastKind::Transmute => {
                match (&v, rigid(to)) {
                    (V::F(x), RigidTy::Uint(_) | RigidTy::Int(_)) => {
                        // to_bits
                        if let Some(c) = fconst(*x) {
                            return Ok(int(match rigid(to) {
                                RigidTy::Uint(UintTy::U64) | RigidTy::Int(IntTy::I64) => c.to_bits() as i128,
                                _ => (c as f32).to_bits() as i128,
                            }));
                        }
                        let (lo, hi) = int_range(to).unwrap();
                        Ok(V::Int(Lin::a(atom(AK::F2I { x: ft(FN::Un("bits", *x)), lo, hi }))))
                    }
                    (V::Int(l), RigidTy::Float(_)) => {
                        if let Some(a) = l.single() {
                            if let AK::F2I { x, .. } = ak(a) {
                                if let FN::Un("bits", y) = fnode(x) {
                                    return Ok(V::F(y));
                                }
                            }
                        }
                        Ok(V::Unk)
                    }
                    (V::Agg(a), RigidTy::RawPtr(..) | RigidTy::Ref(..)) if a.len() == 1 => Ok(a[0].clone()),
                    _ => Ok(v),
                }
            }
            CastKind::BoxDerefTransmute => Ok(v),
            CastKind::Subtype => Ok(v),
            _ => match v {
                V::Ptr(_) | V::FnP(_) => Ok(v),
                _ => Ok(V::Unk),
            },
        }
    }

    fn unsize(&mut self, st: &mut State, v: V, from: Ty, to: Ty) -> R<V> {
        match v {
            V::Ptr(p) => {
                let (Some(a), Some(b)) = (pointee(from), pointee(to)) else { return fail("unsize") };
                match (rigid(a), rigid(b)) {
                    (RigidTy::Array(_, n), RigidTy::Slice(_)) => {
                        let n = n.eval_target_usize().map_err(|_| Stop::Fail("array len".into()))?;
                        let mut q = (*p).clone();
                        q.meta = Meta::Slice(Lin::c(0), Lin::c(n as i128));
                        Ok(vptr(q))
                    }
                    (RigidTy::Dynamic(..), _) => Ok(V::Ptr(p)),
                    (_, RigidTy::Dynamic(..)) => {
                        let mut q = (*p).clone();
                        q.meta = Meta::Dyn(a);
                        Ok(vptr(q))
                    }
                    _ => {
                        let mut q = (*p).clone();
                        q.meta = Meta::Dyn(a);
                        Ok(vptr(q))
                    }
                }
            }
            V::Bx(b, None) => {
                let a = match rigid(from) {
                    RigidTy::Adt(_, args) => ty_args(&args).first().copied(),
                    _ => None,
                };
                let t = match rigid(to) {
                    RigidTy::Adt(_, args) => ty_args(&args).first().copied(),
                    _ => None,
                };
                if let (Some(RigidTy::Array(..)), Some(RigidTy::Slice(_))) = (a.map(rigid), t.map(rigid)) {
                    return Ok(V::Bx(b, None));
                }
                Ok(V::Bx(b, a))
            }
            V::Bx(b, t) => Ok(V::Bx(b, t)),
            V::Unk => Ok(V::Unk),
            V::Str(s) => Ok(V::Str(s)),
            o => {
                let _ = st;
                fail(format!("unsize of {o:?}"))
            }
        }
    }

    // ------------------------------------------------------------ terminators
    fn term(&mut self, st0: &State, bi: &Rc<BodyInfo>, d: u32, t: &Terminator) -> R<Vec<(State, Option<usize>)>> {
        let mut st = st0.clone();
        match &t.kind {
            TerminatorKind::Goto { target } => Ok(vec![(st, Some(*target))]),
            TerminatorKind::Return => Ok(vec![(st, None)]),
            TerminatorKind::Unreachable => Ok(vec![]),
            TerminatorKind::Resume | TerminatorKind::Abort => Ok(vec![]),
            TerminatorKind::Drop { place, target, .. } => {
                if place.projection.is_empty() && !bi.addr_taken[place.local] {
                    st.set_local(d, place.local as u32, V::Undef);
                }
                Ok(vec![(st, Some(*target))])
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(&mut st, bi, d, discr)?;
                match v {
                    V::Bool(b) => {
                        let x = st.test(&b)? as u128;
                        for (v, t) in targets.branches() {
                            if v == x {
                                return Ok(vec![(st, Some(t))]);
                            }
                        }
                        Ok(vec![(st, Some(targets.otherwise()))])
                    }
                    V::Int(l) => {
                        let (lo, _) = int_range(self.oty(bi, discr)).unwrap_or((0, 0));
                        for (v, t) in targets.branches() {
                            let k = if lo < 0 {
                                let n = match rigid(self.oty(bi, discr)) {
                                    RigidTy::Int(i) => i.num_bytes() as u32,
                                    _ => 16,
                                };
                                let sh = 128 - 8 * n;
                                ((v << sh) as i128) >> sh
                            } else {
                                v as i128
                            };
                            if st.test_eq(&l, &Lin::c(k))? {
                                return Ok(vec![(st, Some(t))]);
                            }
                        }
                        Ok(vec![(st, Some(targets.otherwise()))])
                    }
                    V::Unk => {
                        st.taint("branch on unknown value");
                        self.taints.insert(format!("branch on unknown value in {}", bi.name));
                        Ok(targets.all_targets().into_iter().map(|t| (st.clone(), Some(t))).collect())
                    }
                    o => fail(format!("switch on {o:?}")),
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(&mut st, bi, d, cond)?;
                let V::Bool(b) = v else {
                    st.taint("assertion on unknown value");
                    return Ok(vec![(st, Some(*target))]);
                };
                if st.test(&b)? == *expected {
                    self.panic_ok(bi, &assert_kind(msg));
                    Ok(vec![(st, Some(*target))])
                } else {
                    self.panic(&mut st, bi, &assert_kind(msg), t.source_info.span);
                    Ok(vec![])
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.oty(bi, func);
                let mut av = vec![];
                let mut at = vec![];
                for a in args {
                    at.push(self.oty(bi, a));
                    av.push(self.operand(&mut st, bi, d, a)?);
                }
                let dest_ty = destination.ty(bi.body.locals()).unwrap();
                let outs = match rigid(fty) {
                    RigidTy::FnDef(def, ga) => self.call_def(st, bi, t.source_info.span, def, ga, av, at, dest_ty)?,
                    RigidTy::FnPtr(_) => {
                        let f = self.operand(&mut st, bi, d, func)?;
                        match f {
                            V::FnP(i) => self.call_inst(st, bi, t.source_info.span, i, av, dest_ty)?,
                            _ => {
                                st.taint("call through unknown function pointer");
                                vec![(st, V::Unk)]
                            }
                        }
                    }
                    _ => return fail("callee type"),
                };
                let Some(tg) = target else {
                    return Ok(vec![]);
                };
                let mut r = vec![];
                for (mut s, v) in outs {
                    match self.place(&mut s, bi, d, destination)? {
                        Loc::P(q) => s.write(&q, v)?,
                        _ => return fail("call destination"),
                    }
                    r.push((s, Some(*tg)));
                }
                Ok(r)
            }
            TerminatorKind::InlineAsm { .. } => fail("inline asm"),
        }
    }

    // ------------------------------------------------------------ obligations
    pub fn panic(&mut self, st: &mut State, bi: &BodyInfo, kind: &str, span: Span) {
        // attribute to the innermost frame of the crate under analysis
        let mut who = None;
        for f in st.frames.iter().rev() {
            if f.name.contains(&self.target_crate) {
                who = Some(f.name.to_string());
                break;
            }
        }
        let Some(who) = who else {
            // the driver's own assertion
            let key = format!("driver-panic {} {}", bi.name, kind);
            *self.fails.entry(key).or_insert(0) += 1;
            return;
        };
        if !self.panic_obl {
            return;
        }
        let id = format!("panic-free:{}:{}", short(&who), kind);
        if self.verbose {
            eprintln!("  PANIC {id} at {}", loc_of(bi, span));
        }
        self.open(st, &id, format!("{kind} reachable at {} in {}", loc_of(bi, span), who));
    }
    pub fn panic_ok(&mut self, bi: &BodyInfo, kind: &str) {
        if self.panic_obl && bi.krate == self.target_crate {
            let id = format!("panic-free:{}:{}", short(&bi.name), kind);
            let o = self.obs.entry(id).or_default();
            o.proved += 1;
            o.reached += 1;
        }
    }
    pub fn open(&mut self, st: &mut State, id: &str, why: String) {
        let exact = self.exact && st.taint.is_none();
        let tr = if exact { Some(format!("{why}\n{}", show_trace(st))) } else { None };
        let o = self.obs.entry(id.to_string()).or_default();
        o.open += 1;
        o.reached += 1;
        if o.why.len() < 4 {
            let t = st.taint.as_ref().map(|t| format!(" (imprecise: {t})")).unwrap_or_default();
            o.why.insert(format!("{why}{t}"));
        }
        if exact && o.violation.is_none() {
            if st.really_feasible() {
                o.violation = tr;
            } else {
                o.why.insert("candidate path refuted by the float domain".into());
            }
        }
    }
    pub fn discharge(&mut self, id: &str) {
        let o = self.obs.entry(id.to_string()).or_default();
        o.proved += 1;
        o.reached += 1;
    }
}

impl V {
    pub fn simp(self) -> V {
        match &self {
            V::Bool(B::Le(l)) if l.t.is_empty() => V::Bool(B::C(l.k <= 0)),
            V::Bool(B::Eq(l)) if l.t.is_empty() => V::Bool(B::C(l.k == 0)),
            V::Bool(B::Not(x)) => match &**x {
                B::Eq(l) if l.t.is_empty() => V::Bool(B::C(l.k != 0)),
                _ => self,
            },
            _ => self,
        }
    }
}
pub fn ord(o: std::cmp::Ordering) -> V {
    use std::cmp::Ordering::*;
    en(
        match o {
            Less => 0,
            Equal => 1,
            Greater => 2,
        },
        vec![],
    )
}
/// a term whose value is representable as f32 by construction
pub fn is_f32_term(x: FT) -> bool {
    thread_local! { static MEMO: std::cell::RefCell<HashMap<FT, bool>> = Default::default() }
    if let Some(b) = MEMO.with(|m| m.borrow().get(&x).copied()) {
        return b;
    }
    let b = match fnode(x) {
        FN::Sym { tag, .. } => !tag.starts_with("f64"),
        FN::App { .. } => true,
        FN::Un(o, y) => o == "cast" || is_f32_term(y),
        FN::Neg(y) => is_f32_term(y),
        FN::Add(a, b) | FN::Sub(a, b) | FN::Mul(a, b) | FN::Div(a, b) | FN::Bin(_, a, b) => is_f32_term(a) && is_f32_term(b),
        FN::I2F(_) => true,
        FN::C(b) => (f64::from_bits(b) as f32) as f64 == f64::from_bits(b),
        _ => false,
    };
    MEMO.with(|m| m.borrow_mut().insert(x, b));
    b
}
pub fn str_len(s: &S) -> Lin {
    crate::strs::len(s)
}
pub fn str_id(s: &S) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.show().hash(&mut h);
    h.finish() >> 16
}
pub fn short(n: &str) -> String {
    n.replace("llm_samplers::", "").replace("std::", "")
}
pub fn assert_kind(m: &AssertMessage) -> String {
    match m {
        AssertMessage::BoundsCheck { .. } => "index out of bounds".into(),
        AssertMessage::Overflow(o, ..) => format!("arithmetic overflow ({o:?})"),
        AssertMessage::OverflowNeg(_) => "negation overflow".into(),
        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "division by zero".into(),
        _ => "assertion".into(),
    }
}
pub fn loc_of(bi: &BodyInfo, span: Span) -> String {
    let f: String = span.get_filename().to_string();
    let l = span.get_lines();
    let base = f.rsplit("/src/").next().unwrap_or(&f).to_string();
    if bi.krate == "llm_samplers" {
        format!("src/{}:{} ({})", base, l.start_line, short(&bi.name))
    } else {
        format!("{}:{} ({})", f.rsplit('/').next().unwrap_or(&f), l.start_line, short(&bi.name))
    }
}
pub fn show_trace(st: &State) -> String {
    let mut v = vec![];
    let mut t = st.trace.clone();
    while let Some(x) = t {
        v.push(x.msg.clone());
        t = x.prev.clone();
    }
    v.reverse();
    if v.len() > 60 {
        let n = v.len() - 60;
        v.drain(0..n);
    }
    v.join("\n")
}
