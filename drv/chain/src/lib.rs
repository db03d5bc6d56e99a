#![allow(dead_code, unused)]
#[path = "../../common.rs"]
#[macro_use]
mod common;
use common::*;
use llm_samplers::{configure::*, prelude::*, types::{Interruption, LogitsError}};
use std::sync::{Arc, Mutex};

/// a resource provider on which samplers leave their marks
#[derive(Debug)]
struct Trail {
    marks: Vec<u32>,
}
impl HasSamplerResources for Trail {
    fn with_last_tokens_mut(&mut self, fun: &mut dyn FnMut(&mut Vec<u32>)) -> Result<(), SamplerError> {
        fun(&mut self.marks);
        Ok(())
    }
}
fn mark(res: &mut dyn HasSamplerResources, x: u32) {
    let _ = res.with_last_tokens_mut(&mut |m| m.push(x));
}
/// errors of every kind, told apart by what they carry
fn fault(kind: u32, n: u32) -> SamplerError {
    match kind {
        0 => SamplerError::LogitsError(LogitsError::InvalidLogit(n as usize)),
        1 => SamplerError::Interrupted(Interruption::NewTokensGvien(vec![n])),
        2 => SamplerError::MissingResource(String::from("probe")),
        3 => SamplerError::LogitsError(LogitsError::InternalError(String::from("probe"))),
        _ => SamplerError::InternalError(String::from("probe")),
    }
}
fn is_fault(e: &SamplerError, kind: u32, n: u32) -> bool {
    match e {
        SamplerError::LogitsError(LogitsError::InvalidLogit(k)) => kind == 0 && *k == n as usize,
        SamplerError::Interrupted(Interruption::NewTokensGvien(v)) => kind == 1 && v.len() == 1 && v[0] == n,
        SamplerError::MissingResource(s) => kind == 2 && s.as_str() == "probe",
        SamplerError::LogitsError(LogitsError::InternalError(s)) => kind == 3 && s.as_str() == "probe",
        SamplerError::InternalError(s) => kind > 3 && s.as_str() == "probe",
        _ => false,
    }
}
/// candidates that are already there: arbitrary, in no order, and marked as anything
fn here(n: usize) -> Logits {
    let mut l = Logits::default();
    for k in 0..n {
        l.push(Logit { token_id: vm::any_u32(), logit: vm::any_f32(), prob: vm::any_f32() });
    }
    l.set_sorted(choose());
    l.set_softmax(choose());
    l
}
/// on a list with nothing on it, and on one with candidates
fn either(f: impl Fn(usize)) {
    if choose() {
        f(0)
    } else {
        f(2)
    }
}
fn still_here(l: &Logits, o: &Logits) {
    prove(l.len() >= o.len(), "nothing is done to the candidates but what the samplers do");
    if l.len() >= o.len() {
        for k in 0..o.len() {
            let (a, b) = (&l[k], &o[k]);
            prove(a.token_id == b.token_id && a.logit == b.logit && a.prob == b.prob, "nothing is done to the candidates but what the samplers do");
        }
        prove(l.get_sorted() == o.get_sorted() && l.get_softmax() == o.get_softmax(), "nothing is done to the marks but what the samplers do");
    }
}
/// what one run of a probe comes to
#[derive(Debug, Clone, Copy)]
struct Run {
    fails: bool,
    picks: bool,
    token: u32,
}
/// A sampler of which nothing is known but its number: it marks the resources and the candidates with
/// its number, and then fails, picks a token, or picks none, as its next run says.
#[derive(Debug, Clone)]
struct Probe {
    id: u32,
    now: Run,
    later: Run,
    picked: Option<u32>,
}
impl Sampler for Probe {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        mark(res, self.id)
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        mark(res, self.id);
        logits.push(Logit { token_id: self.id, logit: 0.0, prob: 0.0 });
        let r = self.now;
        self.now = self.later;
        if r.fails {
            self.picked = None;
            return Err(fault(self.id, r.token));
        }
        self.picked = if r.picks { Some(r.token) } else { None };
        Ok(logits)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.picked
    }
}
fn run() -> Run {
    Run { fails: choose(), picks: choose(), token: vm::any_u32() }
}
fn ok_run() -> Run {
    Run { fails: false, picks: choose(), token: vm::any_u32() }
}
fn probe(id: u32) -> Probe {
    Probe { id, now: run(), later: run(), picked: if choose() { Some(vm::any_u32()) } else { None } }
}
fn outcome(r: Run) -> Option<u32> {
    if r.picks { Some(r.token) } else { None }
}

/// a probe made of numbers only: fails when `bad` is 0, and picks its own number
#[derive(Debug, Clone)]
struct Counter {
    id: u32,
    bad: usize,
}
impl Sampler for Counter {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        mark(res, self.id)
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        mark(res, self.id);
        logits.push(Logit { token_id: self.id, logit: 0.0, prob: 0.0 });
        if self.bad == 0 {
            return Err(SamplerError::MissingResource(String::from("probe")));
        }
        Ok(logits)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        Some(self.id)
    }
}

/// a run over `ps` did what it should
fn right<'a>(ps: &[Run], ids: &[u32], err: Option<SamplerError>, marks: &Vec<u32>, l: &Logits, o: &Logits, token: Option<u32>) {
    let ok = err.is_none();
    let mut ran = ps.len();
    let mut want = None;
    let mut fine = true;
    let mut k = 0;
    while k < ps.len() {
        if fine {
            if ps[k].fails {
                fine = false;
                ran = k + 1;
                want = None;
            } else {
                want = outcome(ps[k]);
            }
        }
        k += 1;
    }
    prove(ok == fine, "the run fails just when one of the samplers fails");
    prove(marks.len() == ran, "every sampler up to the first failure runs once");
    prove(l.len() == o.len() + ran, "all run on the same candidates");
    still_here(l, o);
    if marks.len() == ran && l.len() == o.len() + ran {
        for k in 0..ran {
            prove(marks[k] == ids[k], "in the order in which they were added");
            prove(l[o.len() + k].token_id == ids[k], "in the order in which they were added");
        }
    }
    if let Some(e) = err {
        prove(ran > 0 && is_fault(&e, ids[ran - 1], ps[ran - 1].token), "the error is the sampler's own");
    }
    prove(token == want, "the token of the last sampler, none after a failure");
}
fn twice(mut c: SamplerChain, ps: &[Probe], n: usize) {
    let ids: Vec<u32> = ps.iter().map(|p| p.id).collect();
    let first: Vec<Run> = ps.iter().map(|p| p.now).collect();
    let mut ran = Vec::new();
    let mut all = true;
    // the runs that come second: those that ran take their second outcome
    let mut second = Vec::new();
    for p in ps {
        second.push(if all { p.later } else { p.now });
        if p.now.fails {
            all = false;
        }
    }
    let (mut t, mut l) = (Trail { marks: Vec::new() }, here(n));
    let o = l.clone();
    let err = c.sample(&mut t, &mut l).err();
    right(&first, &ids, err, &t.marks, &l, &o, c.sampled_token_id());
    ran.clear();
    ran.extend(second.iter().copied());
    let (mut t, mut l) = (Trail { marks: Vec::new() }, here(n));
    let o = l.clone();
    let (err, tok) = match c.sample_token(&mut t, &mut l) {
        Ok(x) => (None, x),
        Err(e) => (Some(e), None),
    };
    prove(err.is_some() || tok == c.sampled_token_id(), "the token returned is the token reported");
    right(&ran, &ids, err, &t.marks, &l, &o, c.sampled_token_id());
}
fn prepends(c: SamplerChain, ids: &[u32]) {
    let mut t = Trail { marks: Vec::new() };
    c.sample_prepend(&mut t);
    prove(t.marks.len() == ids.len(), "every sampler is asked once to prepend");
    if t.marks.len() == ids.len() {
        for k in 0..ids.len() {
            prove(t.marks[k] == ids[k], "in the order in which they were added");
        }
    }
}
fn none_on(n: usize) {
    twice(SamplerChain::new(), &[], n);
    twice(SamplerChain::default(), &[], n);
}
fn one_on(n: usize) {
    let p = probe(1);
    let mut c = SamplerChain::new();
    c.push_sampler(p.clone());
    twice(c, &[p], n);
}
fn two_on(n: usize) {
    let (p, q) = (probe(1), probe(2));
    let mut c = SamplerChain::new();
    c.push_sampler(p.clone()).push_sampler(q.clone());
    twice(c, &[p, q], n);
}
fn added_on(n: usize) {
    let (p, q) = (probe(1), probe(2));
    let mut c = SamplerChain::new();
    c += p.clone();
    c += q.clone();
    twice(c, &[p, q], n);
}
fn grown_on(n: usize) {
    // a token of an earlier run is not reported for a chain that has grown since
    let (p, q) = (probe(1), probe(2));
    let mut c = SamplerChain::new();
    c.push_sampler(p.clone());
    let (mut t, mut l) = (Trail { marks: Vec::new() }, Logits::default());
    let _ = c.sample(&mut t, &mut l);
    c.push_sampler(q.clone());
    prove(c.sampled_token_id().is_none(), "no token of an earlier run");
    let mut p2 = p.clone();
    p2.now = p.later;
    twice(c, &[p2, q], n);
}
pub mod c16 {
    use super::*;
    pub fn none() { either(none_on) }
    pub fn one() { either(one_on) }
    pub fn two() { either(two_on) }
    pub fn three() {
        let n = 2;
        let (p, q, r) = (probe(1), probe(2), probe(3));
        let c = SamplerChain::new() + p.clone() + q.clone() + r.clone();
        twice(c, &[p, q, r], n);
    }
    pub fn added() { either(added_on) }
    pub fn grown() { either(grown_on) }
    pub fn nested() {
        let n = 2;
        let (p, q, r) = (probe(1), probe(2), probe(3));
        let mut inner = SamplerChain::new();
        inner += q.clone();
        inner += r.clone();
        let mut c = SamplerChain::new();
        c += p.clone();
        c += inner;
        twice(c, &[p, q, r], n);
    }
    pub fn prepend() {
        prepends(SamplerChain::new(), &[]);
        prepends(SamplerChain::new() + probe(1), &[1]);
        prepends(SamplerChain::new() + probe(1) + probe(2), &[1, 2]);
        prepends(SamplerChain::new() + probe(1) + probe(2) + probe(3), &[1, 2, 3]);
    }
    pub fn any_length_prepend() {
        let ids = vm::any_vec::<u32>();
        let mut c = SamplerChain::new();
        for i in ids.iter() {
            c.push_sampler(Counter { id: *i, bad: 1 });
        }
        let mut t = Trail { marks: Vec::new() };
        c.sample_prepend(&mut t);
        prove(t.marks.len() == ids.len(), "every sampler is asked once to prepend");
        if ids.len() > 0 && t.marks.len() == ids.len() {
            let k = skolem(ids.len());
            prove(t.marks[k] == ids[k], "in the order in which they were added");
        }
    }
    pub fn any_length() {
        let mut bads = vm::any_vec::<usize>();
        let n = bads.len();
        let mut c = SamplerChain::new();
        for k in 0..n {
            c.push_sampler(Counter { id: k as u32, bad: bads[k] });
        }
        let (mut t, mut l) = (Trail { marks: Vec::new() }, Logits::default());
        let ok = c.sample(&mut t, &mut l).is_ok();
        let ran = t.marks.len();
        prove(ran <= n && l.len() == ran, "every sampler runs at most once");
        prove(!ok || ran == n, "every sampler of a run that succeeds runs once");
        prove(ok || ran > 0 && bads[ran - 1] == 0, "the run fails just when one of the samplers fails");
        if ran > 0 && l.len() == ran {
            let k = skolem(ran);
            prove(t.marks[k] == k as u32, "in the order in which they were added");
            prove(l[k].token_id == k as u32, "in the order in which they were added");
        }
        match c.sampled_token_id() {
            Some(x) => prove(ok && n > 0 && x == (n - 1) as u32, "the token of the last sampler, none after a failure"),
            None => prove(!ok || n == 0, "the token of the last sampler, none after a failure"),
        }
    }
    pub fn any_length_first_failure() {
        let mut bads = vm::any_vec::<usize>();
        let n = bads.len();
        assume(n > 0);
        let k = skolem(n);
        let b = bads[k];
        assume(b == 0);
        let mut c = SamplerChain::new();
        for i in 0..n {
            c.push_sampler(Counter { id: i as u32, bad: bads[i] });
        }
        let (mut t, mut l) = (Trail { marks: Vec::new() }, Logits::default());
        let ok = c.sample(&mut t, &mut l).is_ok();
        prove(!ok || b != 0, "the run fails when one of the samplers fails");
        prove(t.marks.len() <= k + 1, "no sampler runs after the one that fails");
    }
    pub fn long_chain() {
        let rule = "a long chain runs like a short one";
        if !long(400, rule) {
            return;
        }
        let at = if choose() { 300 } else { 150 };
        let mut c = SamplerChain::new();
        let mut k = 0;
        while k < 300 {
            c += Counter { id: k, bad: if k == at { 0 } else { 1 } };
            k += 1;
        }
        let (mut t, mut l) = (Trail { marks: Vec::new() }, Logits::default());
        let ok = c.sample(&mut t, &mut l).is_ok();
        prove(ok == (at == 300), rule);
        let ran = if ok { 300 } else { 151 };
        prove(t.marks.len() == ran && l.len() == ran, rule);
        let mut k = 0;
        while k < t.marks.len() {
            prove(t.marks[k] == k as u32, rule);
            k += 1;
        }
        prove(c.sampled_token_id() == if ok { Some(299) } else { None }, rule);
    }
}

/// a sampler that tells its operations apart
#[derive(Debug)]
struct Spy {
    kind: u32,
    run: Run,
    picked: Option<u32>,
    direct: Option<u32>,
}
impl Sampler for Spy {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        mark(res, 1)
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        mark(res, 2);
        logits.push(Logit { token_id: 2, logit: 0.0, prob: 0.0 });
        self.picked = Some(self.run.token);
        if self.run.fails {
            Err(fault(self.kind, self.run.token))
        } else {
            Ok(logits)
        }
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.picked
    }
    fn sample_token(&mut self, res: &mut dyn HasSamplerResources, logits: &mut Logits) -> Result<Option<u32>, SamplerError> {
        mark(res, 3);
        logits.push(Logit { token_id: 3, logit: 0.0, prob: 0.0 });
        if self.run.fails {
            Err(fault(self.kind, self.run.token))
        } else {
            Ok(self.direct)
        }
    }
}
impl HasSamplerMetadata<usize, f32> for Spy {}
impl ConfigurableSampler<usize, f32> for Spy {}
fn maybe() -> Option<u32> {
    if choose() { Some(vm::any_u32()) } else { None }
}
fn spy() -> Spy {
    Spy { kind: if choose() { if choose() { 0 } else { 1 } } else if choose() { 2 } else if choose() { 3 } else { 4 }, run: run(), picked: maybe(), direct: maybe() }
}
fn one_mark(t: &Trail, x: u32) {
    prove(t.marks.len() == 1, "the operation reaches the sampler inside once, with the same resources");
    if t.marks.len() == 1 {
        prove(t.marks[0] == x, "the operation that is called is the one that is forwarded");
    }
}
fn one_candidate(l: &Logits, o: &Logits, x: u32) {
    prove(l.len() == o.len() + 1, "the operation reaches the sampler inside once, with the same candidates");
    still_here(l, o);
    if l.len() == o.len() + 1 {
        prove(l[o.len()].token_id == x, "the operation that is called is the one that is forwarded");
    }
}
fn prepares<W: Sampler>(wrap: impl Fn(Spy) -> W) {
    let w = wrap(spy());
    let mut t = Trail { marks: Vec::new() };
    w.sample_prepend(&mut t);
    one_mark(&t, 1);
}
fn reports<W: Sampler>(wrap: impl Fn(Spy) -> W) {
    let s = spy();
    let p = s.picked;
    prove(wrap(s).sampled_token_id() == p, "the token of the sampler inside is reported");
}
fn samples<W: Sampler>(wrap: impl Fn(Spy) -> W, n: usize) {
    let s = spy();
    let (r, kind) = (s.run, s.kind);
    let mut w = wrap(s);
    let (mut t, mut l) = (Trail { marks: Vec::new() }, here(n));
    let o = l.clone();
    match w.sample(&mut t, &mut l) {
        Ok(x) => {
            prove(!r.fails, "the result of the sampler inside is returned");
            one_candidate(x, &o, 2);
        }
        Err(e) => {
            prove(r.fails, "the result of the sampler inside is returned");
            prove(is_fault(&e, kind, r.token), "the error of the sampler inside is returned");
        }
    }
    one_mark(&t, 2);
    one_candidate(&l, &o, 2);
    prove(w.sampled_token_id() == Some(r.token), "the sampler inside is run in place");
}
fn tokens<W: Sampler>(wrap: impl Fn(Spy) -> W, n: usize) {
    let s = spy();
    let (r, d, p, kind) = (s.run, s.direct, s.picked, s.kind);
    let mut w = wrap(s);
    let (mut t, mut l) = (Trail { marks: Vec::new() }, here(n));
    let o = l.clone();
    match w.sample_token(&mut t, &mut l) {
        Ok(x) => prove(!r.fails && x == d, "the result of the sampler inside is returned"),
        Err(e) => {
            prove(r.fails, "the result of the sampler inside is returned");
            prove(is_fault(&e, kind, r.token), "the error of the sampler inside is returned");
        }
    }
    one_mark(&t, 3);
    one_candidate(&l, &o, 3);
    prove(w.sampled_token_id() == p, "nothing but the operation called is run");
}
fn boxed(s: Spy) -> Box<dyn Sampler> {
    Box::new(s)
}
fn shared(s: Spy) -> Arc<Mutex<dyn Sampler>> {
    Arc::new(Mutex::new(s))
}
fn built(s: Spy) -> Box<dyn BuildableSampler<usize, f32>> {
    Box::new(s)
}
macro_rules! forwards {
    ($m:ident; $($w:ident $a:ident $b:ident $c:ident $d:ident $e:ident),*) => {
        pub mod $m {
            use super::*;
            $(
                pub fn $a() { prepares($w) }
                pub fn $b() { reports($w) }
                pub fn $c() { either(|n| samples($w, n)) }
                pub fn $d() { either(|n| tokens($w, n)) }
                pub fn $e() {
                    // in a chain
                    let n = 2;
                    let s = spy();
                    let r = s.run;
                    let mut c = SamplerChain::new();
                    c += $w(s);
                    let (mut t, mut l) = (Trail { marks: Vec::new() }, here(n));
                    let o = l.clone();
                    let ok = c.sample(&mut t, &mut l).is_ok();
                    prove(ok != r.fails, "the result of the sampler inside is returned");
                    one_mark(&t, 2);
                    one_candidate(&l, &o, 2);
                    prove(!ok || c.sampled_token_id() == Some(r.token), "the token of the sampler inside is reported");
                }
            )*
        }
    };
}
forwards! { c17;
    boxed boxed_prepend boxed_report boxed_sample boxed_token boxed_in_chain,
    shared shared_prepend shared_report shared_sample shared_token shared_in_chain,
    built built_prepend built_report built_sample built_token built_in_chain
}

// C39
/// a sampler with nothing of its own but `sample`
#[derive(Debug)]
struct Bare {
    kind: u32,
    run: Run,
}
impl Sampler for Bare {
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        mark(res, 2);
        logits.push(Logit { token_id: 2, logit: 0.0, prob: 0.0 });
        if self.run.fails {
            Err(fault(self.kind, self.run.token))
        } else {
            Ok(logits)
        }
    }
}
/// a sampler that leaves `sample_token` as the crate provides it
#[derive(Debug)]
struct Plain(Spy);
impl Sampler for Plain {
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.0.sample(res, logits)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.0.sampled_token_id()
    }
}
fn list_sample_on(n: usize) {
    let s = spy();
    let (r, kind) = (s.run, s.kind);
    let mut s = s;
    let (mut t, mut l) = (Trail { marks: Vec::new() }, here(n));
    let o = l.clone();
    match l.sample(&mut t, &mut s) {
        Ok(x) => {
            prove(!r.fails, "the result of the sampler is returned");
            one_candidate(x, &o, 2);
        }
        Err(e) => {
            prove(r.fails && is_fault(&e, kind, r.token), "the error of the sampler is returned");
        }
    }
    one_mark(&t, 2);
    one_candidate(&l, &o, 2);
    prove(s.sampled_token_id() == Some(r.token), "the sampler is run in place");
}
fn list_token_on(n: usize) {
    let s = spy();
    let (r, d, p, kind) = (s.run, s.direct, s.picked, s.kind);
    let mut s = s;
    let (mut t, mut l) = (Trail { marks: Vec::new() }, here(n));
    let o = l.clone();
    match l.sample_token(&mut t, &mut s) {
        Ok(x) => prove(!r.fails && x == d, "the sampler's own way of sampling a token is used"),
        Err(e) => {
            prove(r.fails && is_fault(&e, kind, r.token), "the error of the sampler is returned");
        }
    }
    one_mark(&t, 3);
    one_candidate(&l, &o, 3);
    prove(s.sampled_token_id() == p, "nothing but the operation called is run");
}
fn default_token_on(n: usize) {
    let s = spy();
    let (r, kind) = (s.run, s.kind);
    let mut s = Plain(s);
    let (mut t, mut l) = (Trail { marks: Vec::new() }, here(n));
    let o = l.clone();
    match s.sample_token(&mut t, &mut l) {
        Ok(x) => prove(!r.fails && x == Some(r.token), "sampling a token is sampling and then reporting the token"),
        Err(e) => {
            prove(r.fails && is_fault(&e, kind, r.token), "the error of the sampler is returned");
        }
    }
    one_mark(&t, 2);
    one_candidate(&l, &o, 2);
}
fn default_rest_on(n: usize) {
    let mut s = Bare { kind: 2, run: run() };
    let r = s.run;
    let mut t = Trail { marks: Vec::new() };
    s.sample_prepend(&mut t);
    prove(t.marks.len() == 0, "by default nothing is done to prepare");
    prove(s.sampled_token_id().is_none(), "by default no token is reported");
    let mut l = here(n);
    let o = l.clone();
    match s.sample_token(&mut t, &mut l) {
        Ok(x) => prove(!r.fails && x.is_none(), "by default no token is reported"),
        Err(e) => {
            prove(r.fails && is_fault(&e, 2, r.token), "the error of the sampler is returned");
        }
    }
    one_mark(&t, 2);
    one_candidate(&l, &o, 2);
}
pub mod c39 {
    use super::*;
    pub fn list_sample() { either(list_sample_on) }
    pub fn list_token() { either(list_token_on) }
    pub fn default_token() { either(default_token_on) }
    pub fn default_rest() { either(default_rest_on) }
}
