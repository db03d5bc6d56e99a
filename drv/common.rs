// Shared vocabulary of the specification drivers. Nothing here is ever executed: the analyser
// interprets the drivers abstractly, together with the crate under analysis.
use llm_samplers::prelude::*;
pub use vmodels::vm::{self, assume, choose, prove, skolem, stale, track};

/// a random number generator about which nothing is known except how often it is asked
#[derive(Debug)]
pub struct AnyRng {
    pub draws: usize,
}
impl rand::RngCore for AnyRng {
    fn next_u32(&mut self) -> u32 {
        self.draws += 1;
        vm::any_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.draws += 1;
        vm::any_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.draws += 1;
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.draws += 1;
        Ok(())
    }
}

/// resources that may or may not be there, with an arbitrary history
#[derive(Debug)]
pub struct AnyRes {
    pub has_rng: bool,
    pub has_last: bool,
    pub rng: AnyRng,
    pub last: Vec<u32>,
    pub rng_calls: usize,
    pub mut_calls: usize,
}
impl HasSamplerResources for AnyRes {
    fn with_rng_mut(&mut self, fun: &mut dyn FnMut(&mut dyn rand::RngCore)) -> Result<(), SamplerError> {
        self.rng_calls += 1;
        if self.has_rng {
            fun(&mut self.rng);
            Ok(())
        } else {
            Err(SamplerError::MissingResource(String::from("rng")))
        }
    }
    fn with_last_tokens(&self, fun: &mut dyn FnMut(&Vec<u32>)) -> Result<(), SamplerError> {
        if self.has_last {
            fun(&self.last);
            Ok(())
        } else {
            Err(SamplerError::MissingResource(String::from("last_tokens")))
        }
    }
    fn with_last_tokens_mut(&mut self, fun: &mut dyn FnMut(&mut Vec<u32>)) -> Result<(), SamplerError> {
        self.mut_calls += 1;
        if self.has_last {
            fun(&mut self.last);
            Ok(())
        } else {
            Err(SamplerError::MissingResource(String::from("last_tokens")))
        }
    }
}
pub fn any_res() -> AnyRes {
    AnyRes {
        has_rng: choose(),
        has_last: choose(),
        rng: AnyRng { draws: 0 },
        last: vm::any_vec(),
        rng_calls: 0,
        mut_calls: 0,
    }
}
pub fn full_res() -> AnyRes {
    AnyRes {
        has_rng: true,
        has_last: true,
        rng: AnyRng { draws: 0 },
        last: vm::any_vec(),
        rng_calls: 0,
        mut_calls: 0,
    }
}

/// One long shape, followed from start to end in the deciding phase with arbitrary numbers in it: what a sampler does
/// must not change with the length alone (caps, narrow counters, shortcuts for large inputs).
pub fn long(loops: usize, rule: &'static str) -> bool {
    if !vm::exact() {
        prove(false, rule);
        return false;
    }
    vm::depth(loops + 50);
    true
}
/// candidates 0, 1, 2, ... with the logits and probabilities given
pub fn long_list(n: usize, of: impl Fn(usize) -> (f32, f32)) -> Logits {
    let mut l = Logits::default();
    let mut i = 0;
    while i < n {
        let (logit, prob) = of(i);
        l.push(Logit { token_id: i as u32, logit, prob });
        i += 1;
    }
    l
}
/// the same, in descending order with current probabilities
pub fn long_current(n: usize, of: impl Fn(usize) -> (f32, f32)) -> Logits {
    let mut l = long_list(n, of);
    l.set_sorted(true);
    l.set_softmax(true);
    l
}
pub fn res_with(last: Vec<u32>) -> AnyRes {
    AnyRes { has_rng: true, has_last: true, rng: AnyRng { draws: 0 }, last, rng_calls: 0, mut_calls: 0 }
}

/// arbitrary candidates in arbitrary order, flags down
pub fn any_logits() -> Logits {
    let mut l = Logits::default();
    *l = vm::any_vec::<Logit>();
    l
}
/// arbitrary candidates in descending order
pub fn sorted_logits() -> Logits {
    let mut l = Logits::default();
    *l = vm::any_vec::<Logit>();
    l.as_mut_slice().sort_by(|a, b| b.logit.partial_cmp(&a.logit).unwrap());
    l.set_sorted(true);
    l
}
/// sorted, with probabilities that count as current
pub fn current_logits() -> Logits {
    let mut l = sorted_logits();
    l.set_softmax(true);
    l
}
/// sorted, with probabilities that may have been computed from these logits
pub fn probable_logits() -> Logits {
    let mut l = Logits::default();
    *l = vm::any_vec::<Logit>();
    vm::nonneg(&l[..], 2);
    l.as_mut_slice().sort_by(|a, b| b.logit.partial_cmp(&a.logit).unwrap());
    if l.len() > 0 {
        assume(l[0].prob > 0.0);
    }
    l.set_sorted(true);
    l.set_softmax(true);
    l
}
pub fn truthful_logits() -> Logits {
    if choose() {
        any_logits()
    } else if choose() {
        sorted_logits()
    } else {
        probable_logits()
    }
}
/// any state of the flags that tells the truth
pub fn flagged_logits() -> Logits {
    if choose() {
        any_logits()
    } else if choose() {
        sorted_logits()
    } else {
        current_logits()
    }
}

/// one driver per sampler, each with arbitrary parameters
#[macro_export]
macro_rules! each_sampler {
    ($m:ident, $f:path) => {
        each_sampler! { $m, $f, $f, $f }
    };
    // samplers that drop candidates, that rescore them in place, that pick one
    ($m:ident, $filter:path, $inplace:path, $pickone:path) => {
        pub mod $m {
            use super::*;
            pub fn top_k() { $filter(&mut SampleTopK::new(vm::any_usize(), vm::any_usize())) }
            pub fn top_p() { $filter(&mut SampleTopP::new(vm::any_f32(), vm::any_usize())) }
            pub fn top_a() { $filter(&mut SampleTopA::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
            pub fn min_p() { $filter(&mut SampleMinP::new(vm::any_f32(), vm::any_usize())) }
            pub fn tail_free() { $filter(&mut SampleTailFree::new(vm::any_f32(), vm::any_usize())) }
            pub fn locally_typical() { $filter(&mut SampleLocallyTypical::new(vm::any_f32(), vm::any_usize())) }
            pub fn temperature() { $inplace(&mut SampleTemperature::new(vm::any_f32())) }
            pub fn flat_bias() { $inplace(&mut SampleFlatBias::new(vm::any_vec::<(u32, f32)>())) }
            pub fn repetition() { $inplace(&mut SampleRepetition::new(vm::any_f32(), vm::any_usize())) }
            pub fn freq_presence() { $inplace(&mut SampleFreqPresence::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
            pub fn seq_repetition_f() { $inplace(&mut any_seq_repetition(true)) }
            pub fn seq_repetition_s() { $inplace(&mut any_seq_repetition(false)) }
            pub fn greedy() { $pickone(&mut SampleGreedy::new()) }
            pub fn rand_distrib() { $pickone(&mut SampleRandDistrib::new()) }
            pub fn mirostat1() { $pickone(&mut any_mirostat1()) }
            pub fn mirostat2() { $pickone(&mut any_mirostat2()) }
        }
    };
}
#[macro_export]
macro_rules! each_of {
    ($m:ident, $f:path; $($n:ident = $e:expr;)*) => {
        pub mod $m {
            use super::*;
            $(pub fn $n() {
                $f(&mut $e)
            })*
        }
    };
}
/// C46: an earlier run, of whatever outcome, leaves no trace in the sampler that a later run shows
pub fn again<S: Sampler>(s: &mut S) {
    rerun(s, true, true, |_| ())
}
pub fn rerun<S: Sampler>(s: &mut S, frame: bool, picks: bool, reset: impl Fn(&mut S)) {
    let mut fresh = vm::copy(s);
    if !vm::exact() && !frame {
        prove(false, "a later run succeeds just when a first run does");
        return;
    }
    if !vm::exact() {
        let mut l = flagged_logits();
        let _ = s.sample(&mut any_res(), &mut l);
        prove(vm::same(s, &fresh), "a sampler that has run is as it was");
        vm::reached("sampled");
        return;
    }
    vm::depth(3);
    let short = |n: usize| {
        let mut l = Logits::default();
        let mut i = 0;
        while i < n {
            l.push(Logit { token_id: vm::any_u32(), logit: vm::any_f32(), prob: vm::any_f32() });
            i += 1;
        }
        l
    };
    let history = |n: usize| {
        let mut last: Vec<u32> = Vec::new();
        let mut i = 0;
        while i < n {
            last.push(vm::any_u32());
            i += 1;
        }
        AnyRes { has_rng: true, has_last: true, rng: AnyRng { draws: 0 }, last, rng_calls: 0, mut_calls: 0 }
    };
    let mut l = short(1);
    let _ = s.sample(&mut history(1), &mut l);
    reset(s);
    reset(&mut fresh);
    let n = if choose() { 2 } else { 1 };
    let mut a = short(n);
    let mut b = vm::copy(&a);
    let mut res = history(2);
    let mut res2 = vm::copy(&res);
    let x = s.sample(&mut res, &mut a).is_ok();
    let y = fresh.sample(&mut res2, &mut b).is_ok();
    prove(x == y, "a later run succeeds just when a first run does");
    prove(!picks || s.sampled_token_id() == fresh.sampled_token_id(), "a later run picks what a first run picks");
    prove(a.len() == b.len(), "a later run keeps as many candidates as a first run");
    if a.len() == b.len() {
        let mut i = 0;
        while i < a.len() {
            prove(a[i].token_id == b[i].token_id && a[i].logit == b[i].logit && a[i].prob == b[i].prob, "a later run gives every candidate what a first run gives it");
            i += 1;
        }
        prove(a.get_sorted() == b.get_sorted() && a.get_softmax() == b.get_softmax(), "a later run leaves the list as a first run does");
    }
    vm::reached("sampled twice");
}
/// in two parts, which together cover every setting
pub fn any_seq_repetition(flat: bool) -> SampleSeqRepetition {
    let f = vm::any_f32();
    if flat {
        assume(f != 0.0);
    } else {
        assume(f == 0.0);
    }
    SampleSeqRepetition::new(
        f,
        vm::any_f32(),
        vm::any_usize(),
        vm::any_usize(),
        vm::any_usize(),
        vm::any_usize(),
    )
}
pub fn any_mirostat1() -> SampleMirostat1 {
    SampleMirostat1::new(vm::any_usize(), vm::any_f32(), vm::any_f32()).m(vm::any_usize()).mu(vm::any_f32())
}
pub fn any_mirostat2() -> SampleMirostat2 {
    SampleMirostat2::new(vm::any_f32(), vm::any_f32()).mu(vm::any_f32())
}
/// resources with a history of exactly these many arbitrary tokens
pub fn history(n: usize) -> AnyRes {
    let mut res = full_res();
    res.last = Vec::new();
    for _ in 0..n {
        res.last.push(vm::any_u32());
    }
    res
}
pub fn up_to(n: usize) -> usize {
    for k in 0..n {
        if choose() {
            return k;
        }
    }
    n
}
