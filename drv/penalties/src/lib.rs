#![allow(dead_code, unused)]
#[path = "../../common.rs"]
#[macro_use]
mod common;
use common::*;
use llm_samplers::prelude::*;

fn window_start(len: usize, last_n: usize) -> usize {
    if last_n > len { 0 } else { len - last_n }
}
/// a list, one of its positions, followed individually
fn cell() -> (Logits, usize) {
    let mut l = if choose() { any_logits() } else { sorted_logits() };
    assume(l.len() > 0);
    let i = skolem(l.len());
    track(&mut l, i);
    (l, i)
}

// C05: rescoring samplers keep every candidate in its place
fn stay<S: Sampler>(s: &mut S) {
    let (mut l, i) = cell();
    let n = l.len();
    let t = l[i].token_id;
    let mut res = any_res();
    let _ = s.sample(&mut res, &mut l);
    prove(l.len() == n, "as many candidates as before");
    if l.len() == n {
        prove(l[i].token_id == t, "every candidate in its place");
    }
}
each_of! { c05, stay;
    temperature = SampleTemperature::new(vm::any_f32());
    flat_bias = SampleFlatBias::new(vm::any_vec::<(u32, f32)>());
    repetition = SampleRepetition::new(vm::any_f32(), vm::any_usize());
    freq_presence = SampleFreqPresence::new(vm::any_f32(), vm::any_f32(), vm::any_usize());
    seq_repetition_f = any_seq_repetition(true);
    seq_repetition_s = any_seq_repetition(false);
}

// C06: a token that does not occur in the window is left alone
fn outside<S: Sampler>(s: &mut S, last_n: usize) {
    let (mut l, i) = cell();
    let n = l.len();
    let o = l[i].logit;
    let mut res = full_res();
    let len = res.last.len();
    vm::absent(&l[i].token_id, &res.last[..], window_start(len, last_n), len);
    let _ = s.sample(&mut res, &mut l);
    if l.len() == n {
        prove(l[i].logit == o, "a token outside the window keeps its logit");
    }
    vm::reached("sampled");
}
pub mod c06 {
    use super::*;
    pub fn repetition() {
        let n = vm::any_usize();
        outside(&mut SampleRepetition::new(vm::any_f32(), n), n)
    }
    pub fn freq_presence() {
        let n = vm::any_usize();
        outside(&mut SampleFreqPresence::new(vm::any_f32(), vm::any_f32(), n), n)
    }
    pub fn seq_repetition_f() {
        let n = vm::any_usize();
        outside(&mut any_seq_repetition(true).last_n(n), n)
    }
    pub fn seq_repetition_s() {
        let n = vm::any_usize();
        outside(&mut any_seq_repetition(false).last_n(n), n)
    }
}

// C07: every candidate whose token occurs in the window is penalised, and by the right amount
mod rules {
    use super::*;
    // j: one occurrence
    pub fn inside<S: Sampler>(s: &mut S, last_n: usize, sole: bool, given: impl Fn(f32), check: impl Fn(f32, f32)) {
        let (mut l, i) = cell();
        let n = l.len();
        let o = l[i].logit;
        given(o);
        let mut res = full_res();
        let len = res.last.len();
        assume(len > 0);
        let j = skolem(len);
        let lo = window_start(len, last_n);
        assume(j >= lo);
        track(&mut res.last, j);
        assume(res.last[j] == l[i].token_id);
        if sole {
            vm::absent(&l[i].token_id, &res.last[..], lo, j);
            vm::absent(&l[i].token_id, &res.last[..], j + 1, len);
        }
        let r = s.sample(&mut res, &mut l).is_ok();
        prove(r, "succeeds");
        if l.len() == n {
            check(o, l[i].logit);
        }
        vm::reached("sampled");
    }
    pub fn amount(positive: bool) {
        let (pen, n) = (vm::any_f32(), vm::any_usize());
        assume(pen > 1.0);
        inside(&mut SampleRepetition::new(pen, n), n, false, |o| assume((o > 0.0) == positive), |o, x| {
            if positive {
                prove(x == o / pen, "a positive logit is divided by the penalty, once");
            } else {
                prove(x == o * pen, "a non-positive logit is multiplied by the penalty, once");
            }
        })
    }
}
// the same on histories of a given length and two candidates, every pattern of equal tokens
fn counted<S: Sampler>(n: usize, last_n: usize, s: &mut S, want: impl Fn(f32, usize) -> f32) {
    if !vm::exact() {
        prove(false, "succeeds");
        return;
    }
    let mut last: Vec<u32> = Vec::new();
    let mut i = 0;
    while i < n {
        last.push(vm::any_u32());
        i += 1;
    }
    let mut l = Logits::default();
    l.push(Logit { token_id: vm::any_u32(), logit: vm::any_f32(), prob: 0.0 });
    l.push(Logit { token_id: vm::any_u32(), logit: vm::any_f32(), prob: 0.0 });


    let due = |c: &Logit| {
        let mut k = 0;
        let mut i = window_start(n, last_n);
        while i < n {
            if last[i] == c.token_id {
                k += 1;
            }
            i += 1;
        }
        if k > 0 { want(c.logit, k) } else { c.logit }
    };
    let (a, b) = (due(&l[0]), due(&l[1]));
    let mut res = AnyRes { has_rng: false, has_last: true, rng: AnyRng { draws: 0 }, last, rng_calls: 0, mut_calls: 0 };
    let ok = s.sample(&mut res, &mut l).is_ok();
    prove(ok && l.len() == 2, "succeeds");
    if l.len() == 2 {
        prove(l[0].logit == a && l[1].logit == b, "each candidate pays for its own occurrences in the window, and for nothing else");
    }
    vm::reached("sampled");
}
pub mod c07 {
    use super::rules::*;
    pub fn frequency_patterns() {
        vm::depth(12);
        let (f, p, n) = (vm::any_f32(), vm::any_f32(), vm::any_usize());
        counted(5, n, &mut SampleFreqPresence::new(f, p, n), |o, k| o - k as f32 * f - p)
    }
    pub fn repetition_patterns() {
        vm::depth(12);
        let (p, n) = (vm::any_f32(), vm::any_usize());
        assume(p > 1.0);
        counted(6, n, &mut SampleRepetition::new(p, n), |o, _| if o > 0.0 { o / p } else { o * p })
    }
    use super::*;
    pub fn repetition_pos() { amount(true) }
    pub fn repetition_neg() { amount(false) }
    pub fn presence() {
        let (p, n) = (vm::any_f32(), vm::any_usize());
        inside(&mut SampleFreqPresence::new(0.0, p, n), n, false, |o| (), |o, x| {
            prove(x == o - p, "the presence penalty is subtracted once");
        })
    }
    pub fn frequency_once() {
        let (f, p, n) = (vm::any_f32(), vm::any_f32(), vm::any_usize());
        inside(&mut SampleFreqPresence::new(f, p, n), n, true, |o| (), |o, x| {
            prove(x == o - (f + p), "one occurrence costs the frequency and the presence penalty");
        })
    }
    pub fn frequency_least() {
        let (f, p, n) = (vm::any_f32(), vm::any_f32(), vm::any_usize());
        assume(f >= 0.0);
        inside(&mut SampleFreqPresence::new(f, p, n), n, false, |o| (), |o, x| {
            prove(x <= o - (f + p), "any number of occurrences costs at least that much");
        })
    }
    pub fn frequency_count() {
        let (f, p, last_n) = (vm::any_f32(), vm::any_f32(), vm::any_usize());
        let (mut l, i) = cell();
        let n = l.len();
        let (o, t) = (l[i].logit, l[i].token_id);
        let mut res = full_res();
        let len = res.last.len();
        let mut count = 0f32;
        for j in window_start(len, last_n)..len {
            if res.last[j] == t {
                count += 1.0;
            }
        }
        let r = SampleFreqPresence::new(f, p, last_n).sample(&mut res, &mut l).is_ok();
        if l.len() == n {
            let due = if count > 0.0 { count * f + p } else { 0.0 };
            prove(l[i].logit == o - due, "count * frequency + presence is subtracted");
        }
    }
    pub fn long_repetition() {
        let p = vm::any_f32();
        assume(p > 1.0);
        let (x, y) = (vm::any_f32(), vm::any_f32());
        let pay = |o: f32| if o > 0.0 { o / p } else { o * p };
        long_history(&|n| SampleRepetition::new(p, n), x, y, &|_| pay(x), pay(y));
    }
    pub fn long_presence() {
        let (f, p, x, y) = (vm::any_f32(), vm::any_f32(), vm::any_f32(), vm::any_f32());
        long_history(&|n| SampleFreqPresence::new(f, p, n), x, y, &|k| x - k as f32 * f - p, y - f - p);
    }
    pub fn long_list_repetition() {
        let (p, x, y) = (vm::any_f32(), vm::any_f32(), vm::any_f32());
        assume(p > 1.0);
        many_candidates(&mut SampleRepetition::new(p, 64), x, y, &|o: f32| if o > 0.0 { o / p } else { o * p });
    }
    pub fn long_list_presence() {
        let (f, p, x, y) = (vm::any_f32(), vm::any_f32(), vm::any_f32(), vm::any_f32());
        many_candidates(&mut SampleFreqPresence::new(f, p, 64), x, y, &|o: f32| o - f - p);
    }
}

const LONG: &str = "the length of the history and of the list make no difference";
/// a history of 700 tokens: candidate 0 at every other place of the first 600, candidate 1 at one place, and others
fn long_history<S: Sampler>(make: &dyn Fn(usize) -> S, x: f32, y: f32, often: &dyn Fn(usize) -> f32, once: f32) {
    if !long(1000, LONG) {
        return;
    }
    let z = vm::any_f32();
    for at in [1, 351, 699] {
        for last_n in [1, 65, 349, 350, 640, 699, 700, 100_000] {
            let mut last: Vec<u32> = Vec::new();
            let mut k = 0;
            let mut i = 0;
            while i < 700 {
                let t = if i == at { 1 } else if i % 2 == 0 && i < 600 { 0 } else { 9_000 };
                if t == 0 && i >= window_start(700, last_n) {
                    k += 1;
                }
                last.push(t);
                i += 1;
            }
            let mut l = long_list(3, |i| (if i == 0 { x } else if i == 1 { y } else { z }, 0.0));
            let ok = make(last_n).sample(&mut res_with(last), &mut l).is_ok();
            prove(ok && l.len() == 3, "succeeds");
            if l.len() == 3 {
                prove(l[0].logit == if k > 0 { often(k) } else { x }, LONG);
                prove(l[1].logit == if at >= window_start(700, last_n) { once } else { y }, LONG);
                prove(l[2].logit == z, LONG);
            }
        }
    }
    vm::reached("sampled");
}
/// a list of 3000 candidates of which a few are in the history
fn many_candidates<S: Sampler>(s: &mut S, x: f32, y: f32, pay: &dyn Fn(f32) -> f32) {
    if !long(3000, LONG) {
        return;
    }
    let mut l = long_list(3000, |i| (if i % 3 == 0 { x } else { y }, 0.0));
    let ok = s.sample(&mut res_with(vec![2999, 0, 1300, 70_000, 257]), &mut l).is_ok();
    prove(ok && l.len() == 3000, "succeeds");
    let (a, b) = (pay(x), pay(y));
    let mut i = 0;
    while i < l.len() {
        let hit = i == 2999 || i == 0 || i == 1300 || i == 257;
        let want = if i % 3 == 0 { if hit { a } else { x } } else { if hit { b } else { y } };
        prove(l[i].token_id == i as u32 && l[i].logit == want, LONG);
        i += 1;
    }
    vm::reached("sampled");
}

// C08: flat bias
pub mod c08 {
    use super::*;
    pub fn others() {
        let bias = vm::any_vec::<(u32, f32)>();
        let (mut l, i) = cell();
        let n = l.len();
        let o = l[i].logit;
        let nb = bias.len();
        vm::absent(&l[i].token_id, &bias[..], 0, nb);
        let mut res = any_res();
        let r = SampleFlatBias::new(bias).sample(&mut res, &mut l).is_ok();
        prove(r, "succeeds");
        if l.len() == n {
            prove(l[i].logit == o, "a candidate without a bias keeps its logit");
        }
    }
    pub fn matching() {
        let mut bias = vm::any_vec::<(u32, f32)>();
        let (mut l, i) = cell();
        let n = l.len();
        let o = l[i].logit;
        let nb = bias.len();
        assume(nb > 0);
        let k = skolem(nb);
        track(&mut bias, k);
        assume(bias[k].0 == l[i].token_id);
        vm::absent(&l[i].token_id, &bias[..], 0, k);
        vm::absent(&l[i].token_id, &bias[..], k + 1, nb);
        let b = bias[k].1;
        let mut res = any_res();
        let r = SampleFlatBias::new(bias).sample(&mut res, &mut l).is_ok();
        prove(r, "succeeds");
        if l.len() == n {
            prove(l[i].logit == o + b, "the bias of the token is added once");
        }
    }
    // several values for one token: one of them counts
    pub fn repeated() {
        let mut bias = vm::any_vec::<(u32, f32)>();
        let copy = bias.clone();
        let (mut l, i) = cell();
        let n = l.len();
        let (o, t) = (l[i].logit, l[i].token_id);
        let nb = bias.len();
        assume(nb > 0);
        let k = skolem(nb);
        track(&mut bias, k);
        assume(bias[k].0 == t);
        if !vm::exact() {
            vm::absent(&t, &bias[..], 0, k);
        }
        let b = bias[k].1;
        let mut res = any_res();
        let _ = SampleFlatBias::new(bias).sample(&mut res, &mut l);
        if l.len() == n {
            let x = l[i].logit;
            let mut ok = x == o + b;
            if vm::exact() {
                for c in copy.iter() {
                    ok = ok || (c.0 == t && x == o + c.1);
                }
            }
            prove(ok, "one of the token's biases is added");
        }
    }
    /// many candidates, and many biases
    pub fn long_list() {
        if !long(3000, LONG) {
            return;
        }
        let (b, x) = (vm::any_f32(), vm::any_f32());
        let mut l = super::long_list(3000, |i| (x, 0.0));
        let ok = SampleFlatBias::new(vec![(2999, b), (1, b), (1300, b), (80_000, b)]).sample(&mut res_with(Vec::new()), &mut l).is_ok();
        prove(ok && l.len() == 3000, "succeeds");
        let mut i = 0;
        while i < l.len() {
            prove(l[i].token_id == i as u32 && l[i].logit == if i == 2999 || i == 1 || i == 1300 { x + b } else { x }, LONG);
            i += 1;
        }
        let mut bias = Vec::new();
        let mut i = 0;
        while i < 600 {
            bias.push((9_000 - i, b));
            i += 1;
        }
        let mut l = super::long_list(2, |i| (x, 0.0));
        l[0].token_id = 8_401;
        l[1].token_id = 8_400;
        let ok = SampleFlatBias::new(bias).sample(&mut res_with(Vec::new()), &mut l).is_ok();
        prove(ok && l.len() == 2 && l[0].logit == x + b && l[1].logit == x, LONG);
        vm::reached("sampled");
    }
}

// C09: neutral settings change nothing and need nothing
fn neutral<S: Sampler>(s: &mut S) {
    let mut l = flagged_logits();
    assume(l.len() > 0);
    let i = skolem(l.len());
    track(&mut l, i);
    let (n, so, sm) = (l.len(), l.get_sorted(), l.get_softmax());
    let o = l[i].clone();
    let mut res = AnyRes { has_rng: false, has_last: false, rng: AnyRng { draws: 0 }, last: Vec::new(), rng_calls: 0, mut_calls: 0 };
    let r = s.sample(&mut res, &mut l).is_ok();
    prove(r, "needs no resource");
    prove(l.len() == n, "as many candidates as before");
    if l.len() == n {
        prove(l[i].token_id == o.token_id, "every candidate in its place");
        prove(l[i].logit == o.logit, "every logit as it was");
        prove(!sm || l[i].prob == o.prob, "current probabilities as they were");
    }
}
fn seq_neutral(which: bool) -> SampleSeqRepetition {
    if which {
        SampleSeqRepetition::new(0.0, 0.0, vm::any_usize(), vm::any_usize(), vm::any_usize(), vm::any_usize())
    } else {
        SampleSeqRepetition::new(vm::any_f32(), vm::any_f32(), vm::any_usize(), vm::any_usize(), vm::any_usize(), 0)
    }
}
fn at_least_one() -> f32 {
    let z = vm::any_f32();
    assume(z >= 1.0);
    z
}
each_of! { c09, neutral;
    top_a_1 = SampleTopA::new(0.0, vm::any_f32(), vm::any_usize());
    top_a_2 = SampleTopA::new(vm::any_f32(), 0.0, vm::any_usize());
    min_p = SampleMinP::new(0.0, vm::any_usize());
    tail_free = SampleTailFree::new(at_least_one(), vm::any_usize());
    repetition_1 = SampleRepetition::new(1.0, vm::any_usize());
    repetition_n = SampleRepetition::new(vm::any_f32(), 0);
    freq_presence_0 = SampleFreqPresence::new(0.0, 0.0, vm::any_usize());
    freq_presence_n = SampleFreqPresence::new(vm::any_f32(), vm::any_f32(), 0);
    seq_repetition_0 = seq_neutral(true);
    seq_repetition_n = seq_neutral(false);
    flat_bias = SampleFlatBias::new(Vec::new());
    temperature_1 = SampleTemperature::new(1.0);
}

// C32: penalties never raise a logit
fn lowered<S: Sampler>(s: &mut S) {
    let (mut l, i) = cell();
    let n = l.len();
    let o = l[i].logit;
    let mut res = any_res();
    let _ = s.sample(&mut res, &mut l);
    if l.len() == n {
        prove(l[i].logit <= o, "no logit is raised");
    }
}
fn nonneg() -> f32 {
    let z = vm::any_f32();
    assume(z >= 0.0);
    z
}
fn seq_nonneg(flat: bool) -> SampleSeqRepetition {
    let f = if flat { nonneg() } else { 0.0 };
    if flat {
        assume(f > 0.0);
    }
    SampleSeqRepetition::new(f, nonneg(), vm::any_usize(), vm::any_usize(), vm::any_usize(), vm::any_usize())
}
each_of! { c32, lowered;
    repetition = SampleRepetition::new(at_least_one(), vm::any_usize());
    freq_presence = SampleFreqPresence::new(nonneg(), nonneg(), vm::any_usize());
    seq_repetition_f = seq_nonneg(true);
    seq_repetition_s = seq_nonneg(false);
}

// C36: temperature
mod heat {
    use super::*;
    pub fn run(t: f32, want: impl Fn(f32) -> f32) {
        let (mut l, i) = cell();
        let n = l.len();
        let o = l[i].logit;
        let mut res = any_res();
        let r = SampleTemperature::new(t).sample(&mut res, &mut l).is_ok();
        prove(r, "succeeds");
        prove(l.len() == n, "as many candidates as before");
        if l.len() == n {
            prove(l[i].logit == want(o), "logit over temperature");
        }
    }
}
pub mod c36 {
    use super::heat::*;
    use super::*;
    pub fn hot() {
        let t = vm::any_f32();
        assume(t != 0.0);
        run(t, |o| o / t)
    }
    pub fn zero() {
        run(0.0, |o| o)
    }
    pub fn long_list() {
        if !long(3000, LONG) {
            return;
        }
        let (t, x, y) = (vm::any_f32(), vm::any_f32(), vm::any_f32());
        assume(t != 0.0);
        let mut l = super::long_list(3000, |i| (if i % 2 == 0 { x } else { y }, 0.0));
        let ok = SampleTemperature::new(t).sample(&mut res_with(Vec::new()), &mut l).is_ok();
        prove(ok && l.len() == 3000, "succeeds");
        let mut i = 0;
        while i < l.len() {
            prove(l[i].token_id == i as u32 && l[i].logit == if i % 2 == 0 { x / t } else { y / t }, LONG);
            i += 1;
        }
        vm::reached("sampled");
    }
}

// C42: sequence repetition, merging off
/// the length of the longest repeated sequence in `w` that `t` would extend
fn longest_repeat(w: &[u32], min: usize, tolerance: usize, t: u32) -> usize {
    let n = w.len();
    let mut best = 0;
    let mut s = 0;
    while s < n {
        let mut len = min;
        while s + len + 1 < n && len + min <= n {
            if len > best && w[s] == w[n - len] && w[s + len - 1] == w[n - 1] && w[s + len] == t {
                let mut wrong = 0;
                let mut i = 1;
                while i + 1 < len {
                    if w[s + i] != w[n - len + i] {
                        wrong += 1;
                    }
                    i += 1;
                }
                if wrong <= tolerance {
                    best = len;
                }
            }
            len += 1;
        }
        s += 1;
    }
    best
}
/// the same for a tolerance of one whose wildcard may stand for up to `merge` tokens, and takes as few as will do
fn longest_merged_repeat(w: &[u32], min: usize, merge: usize, t: u32) -> usize {
    let n = w.len();
    let mut best = 0;
    let mut s = 0;
    while s < n {
        let mut len = min;
        while s + len < n && len + min <= n {
            let tail = n - len;
            // as far as they agree
            let mut p = 0;
            while p < len && w[s + p] == w[tail + p] {
                p += 1;
            }
            let mut found = 0;
            if p == len {
                found = len;
            } else if p > 0 && p + 1 < len {
                // the wildcard, then the next place where they agree, then the rest
                let mut q = p + 1;
                while q <= p + merge && s + q < n && w[s + q] != w[tail + p + 1] {
                    q += 1;
                }
                if q <= p + merge && s + q < n {
                    let mut k = p + 1;
                    while k < len && s + q < n && w[s + q] == w[tail + k] {
                        k += 1;
                        q += 1;
                    }
                    if k == len {
                        found = q;
                    }
                }
            }
            if found > best && s + found + 1 < n && w[s + found] == t {
                best = found;
            }
            len += 1;
        }
        s += 1;
    }
    best
}
fn repeats(n: usize, min: usize, last_n: usize, merge: usize, candidates: usize) {
    if !vm::exact() {
        // histories of a given length: nothing to prove for all of them at once
        prove(false, "succeeds");
        return;
    }
    vm::depth(2 * n);
    let mut last: Vec<u32> = Vec::new();
    let mut i = 0;
    while i < n {
        last.push(vm::any_u32());
        i += 1;
    }
    let (flat, stack) = (vm::any_f32(), vm::any_f32());
    let tolerance = if merge < 2 { vm::any_usize() } else { 1 };
    let (t, o, t2, o2) = (vm::any_u32(), vm::any_f32(), vm::any_u32(), vm::any_f32());
    let mut l = Logits::default();
    l.push(Logit { token_id: t, logit: o, prob: 0.0 });
    if candidates > 1 {
        l.push(Logit { token_id: t2, logit: o2, prob: 0.0 });
    }
    let w = if last_n < n { &last[n - last_n..] } else { &last[..] };
    let want = |t: u32, o: f32| {
        let best = if last_n < min || min < 2 || w.len() < 2 * min {
            0
        } else if merge < 2 {
            longest_repeat(w, min, tolerance, t)
        } else {
            longest_merged_repeat(w, min, merge, t)
        };
        if best > 0 { o - flat - stack * (best + 1) as f32 } else { o }
    };
    let first = want(t, o);
    let second = if candidates < 2 || t == t2 { o2 } else { want(t2, o2) };
    let mut res = AnyRes { has_rng: false, has_last: true, rng: AnyRng { draws: 0 }, last, rng_calls: 0, mut_calls: 0 };
    let ok = SampleSeqRepetition::new(flat, stack, min, tolerance, merge, last_n).sample(&mut res, &mut l).is_ok();
    prove(ok, "succeeds");
    prove(l.len() == candidates, "as many candidates as before");
    if l.len() == candidates {
        prove(l[0].token_id == t && l[0].logit == first, "the candidate loses the penalty of the longest sequence it would repeat");
        if candidates > 1 {
            prove(l[1].token_id == t2 && l[1].logit == second, "of equal candidates only the first is penalised");
        }
    }
    vm::reached("sampled");
}
pub mod c42 {
    use super::*;
    pub fn four() {
        repeats(4, 2, 9, 1, 1)
    }
    pub fn two_candidates() {
        repeats(5, 2, 5, 0, 2)
    }
    pub fn too_short() {
        repeats(5, 3, 5, 0, 1);
    }
    pub fn off() {
        repeats(4, 1, 5, 0, 1);
        repeats(4, 2, 1, 0, 1);
        repeats(5, 2, 3, 1, 1);
    }
    pub fn five() {
        repeats(5, 2, 5, 0, 1)
    }
    pub fn window() {
        repeats(6, 2, 5, 1, 1)
    }
    pub fn six() {
        repeats(6, 2, 6, 1, 1)
    }
    pub fn seven() {
        repeats(7, 2, 7, 1, 1)
    }
    pub fn seven_three() {
        repeats(7, 3, 8, 1, 1)
    }
    pub fn merge_six() {
        repeats(6, 2, 8, 2, 1)
    }
    pub fn merge_seven_three() {
        repeats(7, 3, 8, 2, 1)
    }
    pub fn merge_more() {
        repeats(7, 3, 7, 3, 1)
    }
    /// a longer history: a motif of 12 tokens, others, and the motif again up to a point
    pub fn long_motif() {
        let rule = "the candidate loses the penalty of the longest sequence it would repeat";
        if !long(200, rule) {
            return;
        }
        let (flat, stack, x) = (vm::any_f32(), vm::any_f32(), vm::any_f32());
        assume(flat != 0.0);
        for cut in [3, 11] {
            let mut last: Vec<u32> = Vec::new();
            let mut i = 0;
            while i < 12 {
                last.push(i);
                i += 1;
            }
            while i < 40 {
                last.push(100 + i);
                i += 1;
            }
            i = 0;
            while i < cut {
                last.push(i);
                i += 1;
            }
            let mut l = long_list(14, |i| (x, 0.0));
            let ok = SampleSeqRepetition::new(flat, stack, 3, 0, 1, 1_000).sample(&mut res_with(last), &mut l).is_ok();
            prove(ok && l.len() == 14, "succeeds");
            let mut i = 0;
            while i < l.len() {
                prove(l[i].logit == if i == cut as usize { x - flat - stack * (cut + 1) as f32 } else { x }, rule);
                i += 1;
            }
        }
        vm::reached("sampled");
    }
}

// C46
each_of! { c46, again;
    temperature = SampleTemperature::new(vm::any_f32());
    flat_bias = SampleFlatBias::new(vm::any_vec::<(u32, f32)>());
    repetition = SampleRepetition::new(vm::any_f32(), vm::any_usize());
    freq_presence = SampleFreqPresence::new(vm::any_f32(), vm::any_f32(), vm::any_usize());
    seq_repetition_f = any_seq_repetition(true);
    seq_repetition_s = any_seq_repetition(false);
}
