#![allow(dead_code, unused)]
#[path = "../../common.rs"]
#[macro_use]
mod common;
use common::*;
use llm_samplers::{configure::*, prelude::*};

/// is `t` the token id of a candidate in the list that passes the test?
fn of_a_candidate(t: u32, l: &Logits, test: impl Fn(&Logit) -> bool) -> bool {
    if vm::exact() {
        let mut found = false;
        for c in l.iter() {
            if c.token_id == t && test(c) {
                found = true;
            }
        }
        found
    } else {
        match vm::origin_u32(&t, &l[..]) {
            Some(k) => k < l.len() && l[k].token_id == t && test(&l[k]),
            None => false,
        }
    }
}
/// a list with exactly one candidate
fn one_logit() -> Logits {
    let mut l = Logits::default();
    l.push(Logit { token_id: vm::any_u32(), logit: vm::any_f32(), prob: vm::any_f32() });
    l
}
macro_rules! pickers {
    ($m:ident, $f:path) => {
        pickers! { $m, $f, $f }
    };
    ($m:ident, $f:path, $g:path) => {
        pub mod $m {
            use super::*;
            pub fn greedy() { $f(&mut SampleGreedy::new()) }
            pub fn rand_distrib() { $f(&mut SampleRandDistrib::new()) }
            pub fn mirostat1() { $g(&mut any_mirostat1()) }
            pub fn mirostat2() { $g(&mut any_mirostat2()) }
        }
    };
}

// C10
fn picks<S: Sampler>(s: &mut S, always: bool, warm: bool) {
    if warm {
        let _ = s.sample(&mut full_res(), &mut one_logit());
    }
    let mut l = flagged_logits();
    let n = l.len();
    let mut res = any_res();
    let ok = s.sample(&mut res, &mut l).is_ok();
    match s.sampled_token_id() {
        None => {
            if always {
                prove(!ok || n == 0, "a successful pick is reported");
            }
        }
        Some(t) => {
            prove(ok, "no token after a failed run");
            prove(n > 0, "no token from an empty list");
            if n > 0 && ok {
                prove(of_a_candidate(t, &l, |c| true), "the token belongs to a surviving candidate");
            }
        }
    }
}
fn picks_through<S: Sampler>(s: &mut S) {
    let mut l = flagged_logits();
    let mut res = any_res();
    let r = s.sample_token(&mut res, &mut l);
    let last = s.sampled_token_id();
    match r {
        Ok(Some(t)) => prove(last == Some(t), "the token returned is the token remembered"),
        Ok(None) => prove(last.is_none(), "the token returned is the token remembered"),
        Err(_) => (),
    }
}
pub mod c10 {
    use super::*;
    pub fn greedy() { picks(&mut SampleGreedy::new(), true, false) }
    pub fn greedy_again() { picks(&mut SampleGreedy::new(), true, true) }
    pub fn rand_distrib() { picks(&mut SampleRandDistrib::new(), true, false) }
    pub fn rand_distrib_again() { picks(&mut SampleRandDistrib::new(), true, true) }
    pub fn mirostat1() { picks(&mut any_mirostat1(), false, false) }
    pub fn mirostat1_again() { picks(&mut any_mirostat1(), false, true) }
    pub fn mirostat1_always() {
        let m = vm::any_usize();
        assume(m > 0);
        picks(&mut any_mirostat1().m(m), true, false)
    }
    pub fn mirostat2() { picks(&mut any_mirostat2(), true, false) }
    pub fn mirostat2_again() { picks(&mut any_mirostat2(), true, true) }
    pub fn greedy_token() { picks_through(&mut SampleGreedy::new()) }
    pub fn rand_distrib_token() { picks_through(&mut SampleRandDistrib::new()) }
    pub fn mirostat2_token() { picks_through(&mut any_mirostat2()) }
    pub fn mirostat1_token() { picks_through(&mut any_mirostat1()) }
}

const LONG: &str = "a long list is treated like a short one";

// C11
pub mod c11 {
    use super::*;
    pub fn highest() {
        vm::depth(4);
        let mut l = flagged_logits();
        let n = l.len();
        assume(n > 0);
        let i = skolem(n);
        let o = l[i].clone();
        let mut s = SampleGreedy::new();
        let r = s.sample(&mut any_res(), &mut l).is_ok();
        prove(r, "succeeds");
        prove(l.len() == n, "as many candidates as before");
        if l.len() == n {
            prove(l[i].token_id == o.token_id && l[i].logit == o.logit, "every candidate as it was");
        }
        match s.sampled_token_id() {
            None => prove(false, "something is picked"),
            Some(t) => prove(of_a_candidate(t, &l, |c| c.logit >= o.logit), "no candidate exceeds the picked one"),
        }
    }
    pub fn long_list() {
        if !long(3000, LONG) {
            return;
        }
        let x = vm::any_f32();
        assume(x > 3000.0);
        for at in [0, 300, 1700, 2999] {
            let mut l = super::long_list(3000, |i| (if i == at { x } else { ((i * 467) % 3000) as f32 }, 0.0));
            let mut s = SampleGreedy::new();
            let _ = s.sample(&mut res_with(Vec::new()), &mut l);
            prove(s.sampled_token_id() == Some(at as u32) && l.len() == 3000, LONG);
        }
        vm::reached("sampled");
    }
}

// C12
fn no_randomness<S: Sampler>(s: &mut S) {
    let mut l = flagged_logits();
    let mut res = any_res();
    let _ = s.sample(&mut res, &mut l);
    prove(res.rng_calls == 0 && res.rng.draws == 0, "asks for no randomness");
    prove(res.mut_calls == 0, "asks for no mutable history");
    vm::reached("sampled");
}
fn one_draw<S: Sampler>(s: &mut S) {
    let mut l = flagged_logits();
    let mut res = any_res();
    let ok = s.sample(&mut res, &mut l).is_ok();
    let picked = ok && s.sampled_token_id().is_some();
    prove(res.mut_calls == 0, "asks for no mutable history");
    if picked {
        prove(res.rng_calls == 1, "asks for the generator once per pick");
        prove(res.rng.draws == 1, "draws once per pick");
    } else {
        prove(res.rng.draws == 0, "draws only to pick");
    }
}
each_sampler! { c12, no_randomness, no_randomness, no_or_one }
trait Picks {
    fn draws(&self) -> bool;
}
impl Picks for SampleGreedy { fn draws(&self) -> bool { false } }
impl Picks for SampleRandDistrib { fn draws(&self) -> bool { true } }
impl Picks for SampleMirostat1 { fn draws(&self) -> bool { true } }
impl Picks for SampleMirostat2 { fn draws(&self) -> bool { true } }
fn no_or_one<S: Sampler + Picks>(s: &mut S) {
    if s.draws() { one_draw(s) } else { no_randomness(s) }
}

// C13
fn never_fails<S: Sampler>(s: &mut S) {
    let mut l = truthful_logits();
    let mut res = any_res();
    let r = s.sample(&mut res, &mut l).is_ok();
    prove(r, "succeeds whatever resources there are");
    vm::reached("sampled");
}
fn needs<S: Sampler>(s: &mut S, need: impl Fn(&AnyRes, usize) -> bool) {
    let mut l = truthful_logits();
    let n = l.len();
    let mut res = any_res();
    match s.sample(&mut res, &mut l) {
        Ok(_) => prove(!need(&res, n), "a missing resource is reported"),
        Err(e) => {
            prove(need(&res, n), "fails only for a missing resource");
            prove(matches!(e, SamplerError::MissingResource(_)), "the error names the missing resource");
        }
    }
}
pub mod c13 {
    use super::*;
    pub fn top_k() { never_fails(&mut SampleTopK::new(vm::any_usize(), vm::any_usize())) }
    pub fn top_p() { never_fails(&mut SampleTopP::new(vm::any_f32(), vm::any_usize())) }
    pub fn top_a() { never_fails(&mut SampleTopA::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
    pub fn min_p() { never_fails(&mut SampleMinP::new(vm::any_f32(), vm::any_usize())) }
    pub fn tail_free() { never_fails(&mut SampleTailFree::new(vm::any_f32(), vm::any_usize())) }
    pub fn locally_typical() { never_fails(&mut SampleLocallyTypical::new(vm::any_f32(), vm::any_usize())) }
    pub fn temperature() { never_fails(&mut SampleTemperature::new(vm::any_f32())) }
    pub fn flat_bias() { never_fails(&mut SampleFlatBias::new(vm::any_vec::<(u32, f32)>())) }
    pub fn greedy() { never_fails(&mut SampleGreedy::new()) }
    pub fn rand_distrib() { needs(&mut SampleRandDistrib::new(), |r, n| n > 0 && !r.has_rng) }
    pub fn mirostat2() { needs(&mut any_mirostat2(), |r, n| n > 0 && !r.has_rng) }
    pub fn mirostat1() {
        let m = vm::any_usize();
        let v = vm::any_usize();
        assume(v > 0);
        needs(&mut SampleMirostat1::new(v, vm::any_f32(), vm::any_f32()).m(m).mu(vm::any_f32()), |r, n| n > 0 && m > 0 && !r.has_rng)
    }
    pub fn repetition() {
        let (p, k) = (vm::any_f32(), vm::any_usize());
        needs(&mut SampleRepetition::new(p, k), |r, n| n > 0 && p > 1.0 && k > 0 && !r.has_last)
    }
    pub fn freq_presence() {
        let (f, p, k) = (vm::any_f32(), vm::any_f32(), vm::any_usize());
        needs(&mut SampleFreqPresence::new(f, p, k), |r, n| n > 0 && (f != 0.0 || p != 0.0) && k > 0 && !r.has_last)
    }
    pub fn seq_repetition() {
        let (f, p, m, k) = (vm::any_f32(), vm::any_f32(), vm::any_usize(), vm::any_usize());
        needs(&mut SampleSeqRepetition::new(f, p, m, vm::any_usize(), vm::any_usize(), k), |r, n| {
            n > 0 && (f != 0.0 || p != 0.0) && m >= 2 && k >= m && !r.has_last
        })
    }
}

// C15
fn uint_of<S: HasSamplerMetadata<usize, f32>>(s: &S, k: usize) -> usize {
    match &s.sampler_options()[k].1 {
        Some(SamplerOptionValue::UInt(v)) => *v,
        _ => 0,
    }
}
fn float_of<S: HasSamplerMetadata<usize, f32>>(s: &S, k: usize) -> f32 {
    match &s.sampler_options()[k].1 {
        Some(SamplerOptionValue::Float(v)) => *v,
        _ => 0.0,
    }
}
fn same_options<S: HasSamplerMetadata<usize, f32> + Clone>(a: &S, b: &S, free: &str) {
    let n = a.sampler_options().len();
    prove(b.sampler_options().len() == n, "as many options as before");
    for k in 0..n {
        let x = a.sampler_options();
        let y = b.sampler_options();
        if x[k].0.key != free {
            match (&x[k].1, &y[k].1) {
                (Some(SamplerOptionValue::UInt(v)), Some(SamplerOptionValue::UInt(w))) => prove(v == w, "every option as it was"),
                (Some(SamplerOptionValue::Float(v)), Some(SamplerOptionValue::Float(w))) => prove(v == w, "every option as it was"),
                (None, None) => (),
                _ => prove(false, "every option as it was"),
            }
        }
    }
}
fn kept<S: Sampler + HasSamplerMetadata<usize, f32> + Clone>(s: &mut S) {
    kept_but(s, "")
}
fn kept_but<S: Sampler + HasSamplerMetadata<usize, f32> + Clone>(s: &mut S, free: &str) {
    let o = s.clone();
    let mut l = flagged_logits();
    let mut res = any_res();
    let _ = s.sample(&mut res, &mut l);
    same_options(&o, s, free);
}
pub mod c15 {
    use super::*;
    pub fn top_k() { kept(&mut SampleTopK::new(vm::any_usize(), vm::any_usize())) }
    pub fn top_p() { kept(&mut SampleTopP::new(vm::any_f32(), vm::any_usize())) }
    pub fn top_a() { kept(&mut SampleTopA::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
    pub fn min_p() { kept(&mut SampleMinP::new(vm::any_f32(), vm::any_usize())) }
    pub fn tail_free() { kept(&mut SampleTailFree::new(vm::any_f32(), vm::any_usize())) }
    pub fn locally_typical() { kept(&mut SampleLocallyTypical::new(vm::any_f32(), vm::any_usize())) }
    pub fn temperature() { kept(&mut SampleTemperature::new(vm::any_f32())) }
    pub fn repetition() { kept(&mut SampleRepetition::new(vm::any_f32(), vm::any_usize())) }
    pub fn freq_presence() { kept(&mut SampleFreqPresence::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
    pub fn seq_repetition_f() { kept(&mut any_seq_repetition(true)) }
    pub fn seq_repetition_s() { kept(&mut any_seq_repetition(false)) }
    pub fn mirostat1() { kept_but(&mut any_mirostat1(), "mu") }
    pub fn mirostat2() { kept_but(&mut any_mirostat2(), "mu") }
    pub fn flat_bias() {
        let bias = vm::any_vec::<(u32, f32)>();
        let o = bias.clone();
        let mut s = SampleFlatBias::new(bias);
        let mut l = flagged_logits();
        let _ = s.sample(&mut any_res(), &mut l);
        prove(s.len() == o.len(), "as many biases as before");
        if s.len() == o.len() && o.len() > 0 {
            let k = skolem(o.len());
            prove(s[k].0 == o[k].0 && s[k].1 == o[k].1, "every bias as it was");
        }
    }
}

// C31
fn option(o: &SamplerOptions<SamplerOptionValue<'_, usize, f32>>, key: &str) -> f32 {
    for (md, v) in o.iter() {
        if md.key == key {
            if let Some(SamplerOptionValue::Float(x)) = v {
                return *x;
            }
        }
    }
    vm::any_f32()
}
fn feedback<S: Sampler + HasSamplerMetadata<usize, f32>>(s: &mut S) {
    let (mu, tau, eta) = {
        let o = s.sampler_options();
        (option(&o, "mu"), option(&o, "tau"), option(&o, "eta"))
    };
    let mut l = flagged_logits();
    let mut res = any_res();
    let ok = s.sample(&mut res, &mut l).is_ok();
    let now = option(&s.sampler_options(), "mu");
    match s.sampled_token_id() {
        Some(t) if ok => {
            let right = of_a_candidate(t, &l, |c| now == mu - eta * (-c.prob.log2() - tau));
            prove(right, "mu moves by eta times the difference of tau and the surprise");
        }
        _ => prove(now == mu, "no pick, no change of mu"),
    }
}
pub mod c31 {
    use super::*;
    pub fn mirostat1() { feedback(&mut any_mirostat1()) }
    pub fn mirostat2() { feedback(&mut any_mirostat2()) }
}

// C37
fn list() -> Logits {
    if choose() { any_logits() } else { sorted_logits() }
}
pub mod c37 {
    use super::*;
    pub fn ranking() {
        let mut l = list();
        let n = l.len();
        assume(n > 1);
        let (i, j) = (skolem(n), skolem(n));
        assume(i < j);
        if !vm::exact() {
            let _ = l.ensure_sorted();
            track(&mut l, i);
            track(&mut l, j);
        }
        let r = l.ensure_softmax().is_ok();
        prove(r && l.len() == n, "every candidate is still there");
        prove(l.get_softmax() && l.get_sorted(), "marked sorted, with probabilities");
        if l.len() == n {
            prove(l[i].logit >= l[j].logit, "descending order");
            prove(l[i].prob >= l[j].prob, "a higher logit has no lower probability");
            prove(l[j].prob >= 0.0, "probabilities are not negative");
            prove(l[i].prob * (l[j].logit - l[0].logit).exp() == l[j].prob * (l[i].logit - l[0].logit).exp(),
                  "probabilities are proportional to the exponentials of the logits");
        }
    }
    pub fn identity() {
        let mut l = list();
        let o = l.clone();
        let n = l.len();
        assume(n > 0);
        let r = l.ensure_softmax().is_ok();
        if l.len() == n {
            let i = skolem(n);
            prove(of_a_candidate(l[i].token_id, &o, |c| c.logit == l[i].logit), "every candidate keeps its token and its logit");
        }
    }
    pub fn total() {
        vm::depth(5);
        let mut l = list();
        let n = l.len();
        assume(n > 0);
        let i = skolem(n);
        if !vm::exact() {
            let _ = l.ensure_sorted();
            track(&mut l, i);
        }
        let r = l.ensure_softmax().is_ok();
        let mut sum = 0f32;
        if l.len() == n {
            for c in l.iter() {
                sum += (c.logit - l[0].logit).exp();
            }
            prove(l[i].prob == (l[i].logit - l[0].logit).exp() / sum, "exponential over the sum of exponentials");
        }
    }
    pub fn empty() {
        let mut l = Logits::default();
        let r = l.ensure_softmax().is_ok();
        prove(r && l.len() == 0, "an empty list stays empty");
    }
    pub fn long_list() {
        if !long(3000, LONG) {
            return;
        }
        let x = vm::any_f32();
        let mut l = super::long_list(3000, |_| (x, 0.0));
        let _ = l.ensure_softmax();
        prove(l.len() == 3000 && l.get_softmax(), LONG);
        let mut i = 0;
        while i < l.len() {
            prove(l[i].prob * 3000.0 == 1.0, LONG);
            i += 1;
        }
        vm::reached("normalised");
    }
}

// C40
fn weighs<S: Sampler>(s: &mut S) {
    let mut l = flagged_logits();
    assume(l.len() > 0);
    let mut o: vm::Draw<f32> = vm::Draw { times: 0, w: Vec::new(), k: 0 };
    vm::watch(&mut o);
    let ok = s.sample(&mut full_res(), &mut l).is_ok();
    if ok {
        match s.sampled_token_id() {
            Some(t) => {
                if o.times > 0 {
                    vm::reached("a weighted draw");
                    prove(o.times == 1, "one draw decides");
                    prove(l.get_softmax(), "the probabilities of the list are up to date");
                    prove(o.w.len() == l.len(), "as many weights as candidates");
                    if o.w.len() == l.len() {
                        let j = skolem(l.len());
                        let k = o.k;
                        prove(k < l.len(), "the position drawn is that of a candidate");
                        if k < l.len() {
                            prove(o.w[j] * l[k].prob == o.w[k] * l[j].prob, "the weights are in proportion to the probabilities");
                            prove(t == l[k].token_id, "the candidate at the position drawn is picked");
                        }
                    }
                }
            }
            None => {}
        }
    }
}
pub mod c40 {
    use super::*;
    pub fn rand_distrib() { weighs(&mut SampleRandDistrib::new()) }
    pub fn mirostat1() { weighs(&mut any_mirostat1()) }
    pub fn mirostat2() { weighs(&mut any_mirostat2()) }
    pub fn long_list() {
        if !long(3000, LONG) {
            return;
        }
        let (x, y) = (vm::any_f32(), vm::any_f32());
        assume(x >= 0.0 && y >= 0.0 && x + y > 0.0);
        let of = |i: usize| (0.0, if i % 3 == 1 { x } else { y });
        let mut l = long_current(300, of);
        let mut o: vm::Draw<f32> = vm::Draw { times: 0, w: Vec::new(), k: 0 };
        vm::watch(&mut o);
        let mut s = SampleRandDistrib::new();
        let ok = s.sample(&mut res_with(Vec::new()), &mut l).is_ok();
        if ok && o.times > 0 {
            prove(o.times == 1 && o.w.len() == 300, LONG);
            if o.w.len() == 300 {
                for i in [1, 64, 100, 130, 257, 298, 299] {
                    prove(o.w[i] * of(0).1 == o.w[0] * of(i).1, LONG);
                }
            }
        }
        vm::reached("sampled");
    }
}

// C44
/// in descending order and marked so
fn ranked_logits() -> Logits {
    let mut l = any_logits();
    if vm::exact() {
        assume(l.len() <= 3);
    }
    for i in 1..l.len() {
        assume(l[i - 1].logit >= l[i].logit);
    }
    l.set_sorted(true);
    l
}
pub mod c44 {
    use super::*;
    pub fn cut() {
        let (v, m, mu) = (vm::any_usize(), vm::any_usize(), vm::any_f32());
        assume(v > 1 && m > 1);
        let mut l = ranked_logits();
        let n = l.len();
        assume(n > 1);
        if vm::exact() {
            assume(n <= 3);
        }
        let mut o = l.clone();
        let mut s = SampleMirostat1::new(v, vm::any_f32(), vm::any_f32()).m(m).mu(mu);
        let ok = s.sample(&mut full_res(), &mut l).is_ok();
        if ok {
            let _ = o.ensure_softmax();
            let (mut tb, mut tt) = (0f32, 0f32);
            let mut i = 0;
            while i + 1 < n && i + 1 < m {
                let t = ((i as f32 + 2f32) / (i as f32 + 1f32)).ln();
                tb += t * (o[i].prob / o[i + 1].prob).ln();
                tt += t * t;
                i += 1;
            }
            let s_hat = tb / tt;
            let eps = s_hat - 1f32;
            let k = (eps * 2f32.powf(mu) / (1f32 - (v as f32).powf(-eps))).powf(1f32 / s_hat);
            let kept = l.len();
            if kept > 1 {
                prove(kept as f32 <= k * (1025.0 / 1024.0), "no more candidates are kept than the estimate says");
            }
            if kept < n {
                prove(!(k * (1023.0 / 1024.0) >= kept as f32 + 1f32), "no fewer candidates are kept than the estimate says");
            }
        }
        vm::reached("sampled");
    }
    pub fn long_list() {
        if !long(300, LONG) {
            return;
        }
        let (v, m, mu) = (vm::any_usize(), if choose() { 35 } else { 1000 }, vm::any_f32());
        assume(v > 1);
        let n = 40;
        let of = |i: usize| (200.0 - i as f32, (256 - i) as f32 / 65536.0);
        let mut l = long_current(n, of);
        let mut s = SampleMirostat1::new(v, vm::any_f32(), vm::any_f32()).m(m).mu(mu);
        let ok = s.sample(&mut res_with(Vec::new()), &mut l).is_ok();
        if ok {
            let (mut tb, mut tt) = (0f32, 0f32);
            let mut i = 0;
            while i + 1 < n && i + 1 < m {
                let t = ((i as f32 + 2f32) / (i as f32 + 1f32)).ln();
                tb += t * (of(i).1 / of(i + 1).1).ln();
                tt += t * t;
                i += 1;
            }
            let s_hat = tb / tt;
            let eps = s_hat - 1f32;
            let k = (eps * 2f32.powf(mu) / (1f32 - (v as f32).powf(-eps))).powf(1f32 / s_hat);
            let kept = l.len();
            prove(kept >= 1 && kept <= n, LONG);
            if kept > 1 {
                prove(kept as f32 <= k * (1025.0 / 1024.0), "no more candidates are kept than the estimate says");
            }
            if kept < n {
                prove(!(k * (1023.0 / 1024.0) >= kept as f32 + 1f32), "no fewer candidates are kept than the estimate says");
            }
        }
        vm::reached("sampled");
    }
}

// C47
pub mod c47 {
    use super::*;
    pub fn cut() {
        let mu = vm::any_f32();
        let mut s = SampleMirostat2::new(vm::any_f32(), vm::any_f32()).mu(mu);
        let mut l = current_logits();
        let n = l.len();
        assume(n > 0);
        let i = skolem(n);
        if vm::exact() {
            for k in 1..n {
                assume(l[k - 1].prob >= l[k].prob);
            }
        } else {
            track(&mut l, i);
        }
        let o = l.clone();
        let _ = s.sample(&mut any_res(), &mut l);
        let kept = l.len();
        prove(kept >= 1, "one candidate is kept");
        if kept > 1 && i < kept {
            prove(!(-o[i].prob.log2() > mu), "no candidate beyond the first is kept with a surprise above mu, and none follows it");
        }
        if kept < n {
            prove(-o[kept].prob.log2() > mu || (kept == 1 && -o[0].prob.log2() > mu), "the list is cut where the surprise exceeds mu");
        }
        vm::reached("sampled");
    }
    pub fn fresh() {
        let mu = vm::any_f32();
        let mut s = SampleMirostat2::new(vm::any_f32(), vm::any_f32()).mu(mu);
        let mut l = ranked_logits();
        let n = l.len();
        assume(n > 0);
        let mut o = l.clone();
        let _ = o.ensure_softmax();
        let _ = s.sample(&mut any_res(), &mut l);
        let kept = l.len();
        if kept < n && o.len() == n {
            prove(-o[kept].prob.log2() > mu || (kept == 1 && -o[0].prob.log2() > mu), "the list is cut where the surprise exceeds mu");
        }
        if kept > 1 && kept <= o.len() {
            prove(!(-o[kept - 1].prob.log2() > mu), "no candidate beyond the first is kept with a surprise above mu, and none follows it");
        }
        vm::reached("sampled");
    }
    pub fn long_list() {
        if !long(700, LONG) {
            return;
        }
        let (mu, x, y) = (vm::any_f32(), vm::any_f32(), vm::any_f32());
        assume(x > 0.0 && y > 0.0 && x > y);
        assume(!(-x.log2() > mu) && -y.log2() > mu);
        let mut s = SampleMirostat2::new(vm::any_f32(), vm::any_f32()).mu(mu);
        let mut l = long_current(700, |i| (if i < 530 { 1.0 } else { 0.0 }, if i < 530 { x } else { y }));
        let _ = s.sample(&mut res_with(Vec::new()), &mut l);
        prove(l.len() == 530, LONG);
        vm::reached("sampled");
    }
}

// C46
mod keeps {
    use super::*;
    use llm_samplers::configure::*;
    fn num<S: ConfigurableSampler<usize, f32>>(s: &S, key: &str) -> f64 {
        match s.get_option(key) {
            Ok(SamplerOptionValue::Float(x)) => x,
            _ => {
                prove(false, "the setting can be read");
                0.0
            }
        }
    }
    fn count<S: ConfigurableSampler<usize, f32>>(s: &S, key: &str) -> u64 {
        match s.get_option(key) {
            Ok(SamplerOptionValue::UInt(x)) => x,
            _ => {
                prove(false, "the setting can be read");
                0
            }
        }
    }
    pub fn settings<S: Sampler + ConfigurableSampler<usize, f32>>(s: &mut S, counts: &[&'static str]) {
        let (tau, eta) = (num(s, "tau"), num(s, "eta"));
        let (m, v) = if counts.len() > 0 { (count(s, "m"), count(s, "n_vocab")) } else { (0, 0) };
        let mut l = flagged_logits();
        let _ = s.sample(&mut any_res(), &mut l);
        prove(num(s, "tau") == tau && num(s, "eta") == eta, "sampling leaves tau and eta as they were");
        if counts.len() > 0 {
            prove(count(s, "m") == m && count(s, "n_vocab") == v, "sampling leaves m and n_vocab as they were");
        }
        vm::reached("sampled");
    }
}
pub mod c46 {
    use super::*;
    pub fn mirostat1_settings() {
        keeps::settings(&mut any_mirostat1(), &["m", "n_vocab"])
    }
    pub fn mirostat2_settings() {
        keeps::settings(&mut any_mirostat2(), &[])
    }
    pub fn greedy() {
        rerun(&mut SampleGreedy::new(), false, true, |_| ())
    }
    pub fn rand_distrib() {
        rerun(&mut SampleRandDistrib::new(), false, false, |_| ())
    }
    pub fn mirostat1() {
        let mu = vm::any_f32();
        rerun(&mut any_mirostat1(), false, false, |s| *s = s.clone().mu(mu))
    }
    pub fn mirostat2() {
        let mu = vm::any_f32();
        rerun(&mut any_mirostat2(), false, false, |s| *s = s.clone().mu(mu))
    }
}
