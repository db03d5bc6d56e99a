#![allow(dead_code, unused)]
#[path = "../../common.rs"]
#[macro_use]
mod common;
use common::*;
use llm_samplers::{configure::*, prelude::*};

trait Conf: Sampler + HasSamplerMetadata<usize, f32> + ConfigurableSampler<usize, f32> {}
impl<T: Sampler + HasSamplerMetadata<usize, f32> + ConfigurableSampler<usize, f32>> Conf for T {}

macro_rules! each_configurable {
    ($m:ident, $f:path $(, $($more:item)+)?) => {
        pub mod $m {
            use super::*;
            $($($more)+)?
            pub fn top_k() { $f(&mut SampleTopK::new(vm::any_usize(), vm::any_usize())) }
            pub fn top_p() { $f(&mut SampleTopP::new(vm::any_f32(), vm::any_usize())) }
            pub fn top_a() { $f(&mut SampleTopA::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
            pub fn min_p() { $f(&mut SampleMinP::new(vm::any_f32(), vm::any_usize())) }
            pub fn tail_free() { $f(&mut SampleTailFree::new(vm::any_f32(), vm::any_usize())) }
            pub fn locally_typical() { $f(&mut SampleLocallyTypical::new(vm::any_f32(), vm::any_usize())) }
            pub fn temperature() { $f(&mut SampleTemperature::new(vm::any_f32())) }
            pub fn flat_bias() { $f(&mut SampleFlatBias::new(vm::any_vec::<(u32, f32)>())) }
            pub fn repetition() { $f(&mut SampleRepetition::new(vm::any_f32(), vm::any_usize())) }
            pub fn freq_presence() { $f(&mut SampleFreqPresence::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
            pub fn seq_repetition() { $f(&mut free_seq()) }
            pub fn greedy() { $f(&mut SampleGreedy::new()) }
            pub fn rand_distrib() { $f(&mut SampleRandDistrib::new()) }
            pub fn mirostat1() { $f(&mut any_mirostat1()) }
            pub fn mirostat2() { $f(&mut any_mirostat2()) }
        }
    };
}
fn free_seq() -> SampleSeqRepetition {
    SampleSeqRepetition::new(vm::any_f32(), vm::any_f32(), vm::any_usize(), vm::any_usize(), vm::any_usize(), vm::any_usize())
}

type Value<'a> = SamplerOptionValue<'a, usize, f32>;
fn kind(v: &Value) -> SamplerOptionType {
    match v {
        SamplerOptionValue::UInt(_) => SamplerOptionType::UInt,
        SamplerOptionValue::Float(_) => SamplerOptionType::Float,
        SamplerOptionValue::Bool(_) => SamplerOptionType::Bool,
        SamplerOptionValue::String(_) => SamplerOptionType::String,
    }
}
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (SamplerOptionValue::UInt(x), SamplerOptionValue::UInt(y)) => x == y,
        (SamplerOptionValue::Float(x), SamplerOptionValue::Float(y)) => x == y,
        (SamplerOptionValue::Bool(x), SamplerOptionValue::Bool(y)) => x == y,
        (SamplerOptionValue::String(x), SamplerOptionValue::String(y)) => x == y,
        _ => false,
    }
}

// C18
fn tables_agree<S: Conf>(s: &mut S) {
    let md = s.sampler_metadata().options;
    let n = md.len();
    {
        let o = s.sampler_options();
        prove(o.len() == n, "a readable value for every option");
        for k in 0..n {
            prove(o[k].0.key == md[k].key, "the same keys in the same order");
            prove(o[k].0.option_type == md[k].option_type, "the same types");
            match &o[k].1 {
                Some(v) => prove(kind(v) == md[k].option_type, "a value of the declared type"),
                None => prove(false, "every option can be read"),
            }
        }
    }
    {
        let o = s.sampler_options_mut();
        prove(o.len() == n, "a writable slot for every option");
        for k in 0..n {
            prove(o[k].0.key == md[k].key, "the same keys in the same order");
            prove(o[k].0.option_type == md[k].option_type, "the same types");
            let ok = match &o[k].1 {
                Some(SamplerOptionValueMut::UInt(_)) => md[k].option_type == SamplerOptionType::UInt,
                Some(SamplerOptionValueMut::Float(_)) => md[k].option_type == SamplerOptionType::Float,
                Some(SamplerOptionValueMut::Bool(_)) => md[k].option_type == SamplerOptionType::Bool,
                Some(SamplerOptionValueMut::String(_)) => md[k].option_type == SamplerOptionType::String,
                None => false,
            };
            prove(ok, "a slot of the declared type");
        }
    }
    for k in 0..n {
        write_one(s, k, n);
    }
    vm::reached("compared");
}
fn plain(v: &Option<Value>) -> (SamplerOptionType, usize, f32) {
    match v {
        Some(SamplerOptionValue::UInt(x)) => (SamplerOptionType::UInt, *x, 0.0),
        Some(SamplerOptionValue::Float(x)) => (SamplerOptionType::Float, 0, *x),
        _ => (SamplerOptionType::Bool, 0, 0.0),
    }
}
fn snapshot<S: Conf>(s: &S) -> Vec<(SamplerOptionType, usize, f32)> {
    let o = s.sampler_options();
    let mut r = Vec::new();
    for k in 0..o.len() {
        r.push(plain(&o[k].1));
    }
    r
}
fn write_one<S: Conf>(s: &mut S, k: usize, n: usize) {
    let before = snapshot(s);
    let (u, f) = (vm::any_usize(), vm::any_f32());
    {
        let mut o = s.sampler_options_mut();
        match o[k].1.take() {
            Some(SamplerOptionValueMut::UInt(r)) => *r = u,
            Some(SamplerOptionValueMut::Float(r)) => *r = f,
            _ => (),
        }
    }
    let after = snapshot(s);
    for j in 0..n {
        if j == k {
            let (t, x, y) = after[j];
            prove(t == SamplerOptionType::UInt && x == u || t == SamplerOptionType::Float && y == f, "the written option reads as the written value");
        } else {
            prove(before[j].1 == after[j].1 && before[j].2 == after[j].2, "the other options are as they were");
        }
    }
}
each_configurable! { c18, tables_agree }

// C26
#[derive(Clone, Copy)]
enum Num {
    U(usize),
    F(f32),
}
use Num::*;
fn eq(v: &Option<Value>, n: Num) -> bool {
    match (v, n) {
        (Some(SamplerOptionValue::UInt(x)), U(y)) => *x == y,
        (Some(SamplerOptionValue::Float(x)), F(y)) => *x == y,
        _ => false,
    }
}
fn close(v: &Option<Value>, n: Num) -> bool {
    match (v, n) {
        (Some(SamplerOptionValue::UInt(x)), U(y)) => *x == y,
        (Some(SamplerOptionValue::Float(x)), F(y)) => *x - y < 1e-6 && y - *x < 1e-6,
        _ => false,
    }
}
/// every listed option has the listed value
fn holds<S: Conf>(s: &S, want: &[(&str, Num)], what: fn(&Option<Value>, Num) -> bool) -> bool {
    let o = s.sampler_options();
    let mut all = true;
    for w in want {
        let mut found = false;
        for (md, v) in o.iter() {
            if md.key == w.0 && what(v, w.1) {
                found = true;
            }
        }
        if !found {
            all = false;
        }
    }
    all
}
fn is<S: Conf>(s: &S, want: &[(&str, Num)]) {
    prove(holds(s, want, eq), "every argument is stored under its own option");
}
fn u() -> usize { vm::any_usize() }
fn f() -> f32 { vm::any_f32() }
/// arbitrary values in every option
fn scramble<S: Conf>(s: &mut S) {
    let mut o = s.sampler_options_mut();
    for k in 0..o.len() {
        match o[k].1.take() {
            Some(SamplerOptionValueMut::UInt(r)) => *r = vm::any_usize(),
            Some(SamplerOptionValueMut::Float(r)) => *r = vm::any_f32(),
            _ => (),
        }
    }
}
type Setter<S> = (&'static str, fn(S, usize, f32) -> S);
fn set_one<S: Conf>(s: S, set: Setter<S>) -> S {
    let before = snapshot(&s);
    let (x, y) = (u(), f());
    let s = (set.1)(s, x, y);
    let after = snapshot(&s);
    let md = s.sampler_metadata().options;
    prove(after.len() == md.len() && before.len() == md.len(), "a setter leaves the options what they are");
    let mut found = false;
    for k in 0..md.len() {
        if md[k].key == set.0 {
            found = true;
            let (t, a, b) = after[k];
            prove(t == SamplerOptionType::UInt && a == x || t == SamplerOptionType::Float && b == y, "a setter stores its argument under its own option");
        } else if set.0 == "tau" && md[k].key == "mu" {
            prove(after[k].2 == y * 2.0, "setting tau makes mu twice tau");
        } else {
            prove(before[k].0 == after[k].0 && before[k].1 == after[k].1 && before[k].2 == after[k].2, "a setter leaves the other options alone");
        }
    }
    prove(found, "a setter stores its argument under its own option");
    s
}
/// every setter, after a constructor, on arbitrary options, and after every other setter
fn setters<S: Conf>(make: fn() -> S, all: &[Setter<S>]) {
    for a in all {
        set_one(make(), *a);
        let mut s = make();
        scramble(&mut s);
        let s = set_one(s, *a);
        for b in all {
            let s = set_one(make(), *a);
            set_one(s, *b);
        }
    }
    vm::reached("set");
}
pub mod c26 {
    use super::*;
    pub fn set_top_k() {
        setters::<SampleTopK>(|| SampleTopK::new(u(), u()), &[("k", |s, x, y| s.k(x)), ("min_keep", |s, x, y| s.min_keep(x))])
    }
    pub fn set_top_p() {
        setters::<SampleTopP>(|| SampleTopP::new(f(), u()), &[("p", |s, x, y| s.p(y)), ("min_keep", |s, x, y| s.min_keep(x))])
    }
    pub fn set_top_a() {
        setters::<SampleTopA>(|| SampleTopA::new(f(), f(), u()), &[("a1", |s, x, y| s.a1(y)), ("a2", |s, x, y| s.a2(y)), ("min_keep", |s, x, y| s.min_keep(x))])
    }
    pub fn set_min_p() {
        setters::<SampleMinP>(|| SampleMinP::new(f(), u()), &[("p", |s, x, y| s.p(y)), ("min_keep", |s, x, y| s.min_keep(x))])
    }
    pub fn set_tail_free() {
        setters::<SampleTailFree>(|| SampleTailFree::new(f(), u()), &[("z", |s, x, y| s.z(y)), ("min_keep", |s, x, y| s.min_keep(x))])
    }
    pub fn set_locally_typical() {
        setters::<SampleLocallyTypical>(|| SampleLocallyTypical::new(f(), u()), &[("p", |s, x, y| s.p(y)), ("min_keep", |s, x, y| s.min_keep(x))])
    }
    pub fn set_temperature() {
        setters::<SampleTemperature>(|| SampleTemperature::new(f()), &[("temperature", |s, x, y| s.temperature(y))])
    }
    pub fn set_repetition() {
        setters::<SampleRepetition>(|| SampleRepetition::new(f(), u()), &[("penalty", |s, x, y| s.penalty(y)), ("last_n", |s, x, y| s.last_n(x))])
    }
    pub fn set_freq_presence() {
        setters::<SampleFreqPresence>(|| SampleFreqPresence::new(f(), f(), u()), &[("frequency_penalty", |s, x, y| s.frequency(y)), ("presence_penalty", |s, x, y| s.presence(y)), ("last_n", |s, x, y| s.last_n(x))])
    }
    pub fn set_seq_repetition() {
        setters::<SampleSeqRepetition>(|| free_seq(), &[("flat_penalty", |s, x, y| s.flat_penalty(y)), ("stacking_penalty", |s, x, y| s.stacking_penalty(y)), ("min_length", |s, x, y| s.min_length(x)), ("tolerance", |s, x, y| s.tolerance(x)), ("max_merge", |s, x, y| s.max_merge(x)), ("last_n", |s, x, y| s.last_n(x))])
    }
    pub fn set_mirostat1() {
        setters::<SampleMirostat1>(|| SampleMirostat1::new(u(), f(), f()), &[("n_vocab", |s, x, y| s.n_vocab(x)), ("m", |s, x, y| s.m(x)), ("tau", |s, x, y| s.tau(y)), ("eta", |s, x, y| s.eta(y)), ("mu", |s, x, y| s.mu(y))])
    }
    pub fn set_mirostat2() {
        setters::<SampleMirostat2>(|| SampleMirostat2::new(f(), f()), &[("tau", |s, x, y| s.tau(y)), ("eta", |s, x, y| s.eta(y)), ("mu", |s, x, y| s.mu(y))])
    }
    pub fn top_k() {
        let (a0, a1,) = (u(), u(),);
        is(&SampleTopK::new(a0, a1), &[("k", U(a0)), ("min_keep", U(a1))]);
        let x = u();
        is(&SampleTopK::new(a0, a1).k(x), &[("k", U(x)), ("min_keep", U(a1))]);
        let x = u();
        is(&SampleTopK::new(a0, a1).min_keep(x), &[("k", U(a0)), ("min_keep", U(x))]);
    }
    pub fn top_p() {
        let (a0, a1,) = (f(), u(),);
        is(&SampleTopP::new(a0, a1), &[("p", F(a0)), ("min_keep", U(a1))]);
        let x = f();
        is(&SampleTopP::new(a0, a1).p(x), &[("p", F(x)), ("min_keep", U(a1))]);
        let x = u();
        is(&SampleTopP::new(a0, a1).min_keep(x), &[("p", F(a0)), ("min_keep", U(x))]);
    }
    pub fn top_a() {
        let (a0, a1, a2,) = (f(), f(), u(),);
        is(&SampleTopA::new(a0, a1, a2), &[("a1", F(a0)), ("a2", F(a1)), ("min_keep", U(a2))]);
        let x = f();
        is(&SampleTopA::new(a0, a1, a2).a1(x), &[("a1", F(x)), ("a2", F(a1)), ("min_keep", U(a2))]);
        let x = f();
        is(&SampleTopA::new(a0, a1, a2).a2(x), &[("a1", F(a0)), ("a2", F(x)), ("min_keep", U(a2))]);
        let x = u();
        is(&SampleTopA::new(a0, a1, a2).min_keep(x), &[("a1", F(a0)), ("a2", F(a1)), ("min_keep", U(x))]);
    }
    pub fn min_p() {
        let (a0, a1,) = (f(), u(),);
        is(&SampleMinP::new(a0, a1), &[("p", F(a0)), ("min_keep", U(a1))]);
        let x = f();
        is(&SampleMinP::new(a0, a1).p(x), &[("p", F(x)), ("min_keep", U(a1))]);
        let x = u();
        is(&SampleMinP::new(a0, a1).min_keep(x), &[("p", F(a0)), ("min_keep", U(x))]);
    }
    pub fn tail_free() {
        let (a0, a1,) = (f(), u(),);
        is(&SampleTailFree::new(a0, a1), &[("z", F(a0)), ("min_keep", U(a1))]);
        let x = f();
        is(&SampleTailFree::new(a0, a1).z(x), &[("z", F(x)), ("min_keep", U(a1))]);
        let x = u();
        is(&SampleTailFree::new(a0, a1).min_keep(x), &[("z", F(a0)), ("min_keep", U(x))]);
    }
    pub fn locally_typical() {
        let (a0, a1,) = (f(), u(),);
        is(&SampleLocallyTypical::new(a0, a1), &[("p", F(a0)), ("min_keep", U(a1))]);
        let x = f();
        is(&SampleLocallyTypical::new(a0, a1).p(x), &[("p", F(x)), ("min_keep", U(a1))]);
        let x = u();
        is(&SampleLocallyTypical::new(a0, a1).min_keep(x), &[("p", F(a0)), ("min_keep", U(x))]);
    }
    pub fn temperature() {
        let (a0,) = (f(),);
        is(&SampleTemperature::new(a0), &[("temperature", F(a0))]);
        let x = f();
        is(&SampleTemperature::new(a0).temperature(x), &[("temperature", F(x))]);
    }
    pub fn repetition() {
        let (a0, a1,) = (f(), u(),);
        is(&SampleRepetition::new(a0, a1), &[("penalty", F(a0)), ("last_n", U(a1))]);
        let x = f();
        is(&SampleRepetition::new(a0, a1).penalty(x), &[("penalty", F(x)), ("last_n", U(a1))]);
        let x = u();
        is(&SampleRepetition::new(a0, a1).last_n(x), &[("penalty", F(a0)), ("last_n", U(x))]);
    }
    pub fn freq_presence() {
        let (a0, a1, a2,) = (f(), f(), u(),);
        is(&SampleFreqPresence::new(a0, a1, a2), &[("frequency_penalty", F(a0)), ("presence_penalty", F(a1)), ("last_n", U(a2))]);
        let x = f();
        is(&SampleFreqPresence::new(a0, a1, a2).frequency(x), &[("frequency_penalty", F(x)), ("presence_penalty", F(a1)), ("last_n", U(a2))]);
        let x = f();
        is(&SampleFreqPresence::new(a0, a1, a2).presence(x), &[("frequency_penalty", F(a0)), ("presence_penalty", F(x)), ("last_n", U(a2))]);
        let x = u();
        is(&SampleFreqPresence::new(a0, a1, a2).last_n(x), &[("frequency_penalty", F(a0)), ("presence_penalty", F(a1)), ("last_n", U(x))]);
    }
    pub fn seq_repetition() {
        let (a0, a1, a2, a3, a4, a5,) = (f(), f(), u(), u(), u(), u(),);
        is(&SampleSeqRepetition::new(a0, a1, a2, a3, a4, a5), &[("flat_penalty", F(a0)), ("stacking_penalty", F(a1)), ("min_length", U(a2)), ("tolerance", U(a3)), ("max_merge", U(a4)), ("last_n", U(a5))]);
        let x = f();
        is(&SampleSeqRepetition::new(a0, a1, a2, a3, a4, a5).flat_penalty(x), &[("flat_penalty", F(x)), ("stacking_penalty", F(a1)), ("min_length", U(a2)), ("tolerance", U(a3)), ("max_merge", U(a4)), ("last_n", U(a5))]);
        let x = f();
        is(&SampleSeqRepetition::new(a0, a1, a2, a3, a4, a5).stacking_penalty(x), &[("flat_penalty", F(a0)), ("stacking_penalty", F(x)), ("min_length", U(a2)), ("tolerance", U(a3)), ("max_merge", U(a4)), ("last_n", U(a5))]);
        let x = u();
        is(&SampleSeqRepetition::new(a0, a1, a2, a3, a4, a5).min_length(x), &[("flat_penalty", F(a0)), ("stacking_penalty", F(a1)), ("min_length", U(x)), ("tolerance", U(a3)), ("max_merge", U(a4)), ("last_n", U(a5))]);
        let x = u();
        is(&SampleSeqRepetition::new(a0, a1, a2, a3, a4, a5).tolerance(x), &[("flat_penalty", F(a0)), ("stacking_penalty", F(a1)), ("min_length", U(a2)), ("tolerance", U(x)), ("max_merge", U(a4)), ("last_n", U(a5))]);
        let x = u();
        is(&SampleSeqRepetition::new(a0, a1, a2, a3, a4, a5).max_merge(x), &[("flat_penalty", F(a0)), ("stacking_penalty", F(a1)), ("min_length", U(a2)), ("tolerance", U(a3)), ("max_merge", U(x)), ("last_n", U(a5))]);
        let x = u();
        is(&SampleSeqRepetition::new(a0, a1, a2, a3, a4, a5).last_n(x), &[("flat_penalty", F(a0)), ("stacking_penalty", F(a1)), ("min_length", U(a2)), ("tolerance", U(a3)), ("max_merge", U(a4)), ("last_n", U(x))]);
    }
    pub fn mirostat1() {
        let (v, t, e, x, y) = (u(), f(), f(), u(), f());
        is(&SampleMirostat1::new(v, t, e), &[("n_vocab", U(v)), ("tau", F(t)), ("eta", F(e)), ("mu", F(2.0 * t)), ("m", U(100))]);
        is(&SampleMirostat1::new(v, t, e).n_vocab(x), &[("n_vocab", U(x)), ("tau", F(t)), ("eta", F(e)), ("mu", F(2.0 * t)), ("m", U(100))]);
        is(&SampleMirostat1::new(v, t, e).m(x), &[("n_vocab", U(v)), ("tau", F(t)), ("eta", F(e)), ("mu", F(2.0 * t)), ("m", U(x))]);
        is(&SampleMirostat1::new(v, t, e).tau(y), &[("n_vocab", U(v)), ("tau", F(y)), ("eta", F(e)), ("mu", F(2.0 * y)), ("m", U(100))]);
        is(&SampleMirostat1::new(v, t, e).eta(y), &[("n_vocab", U(v)), ("tau", F(t)), ("eta", F(y)), ("mu", F(2.0 * t)), ("m", U(100))]);
        is(&SampleMirostat1::new(v, t, e).mu(y), &[("n_vocab", U(v)), ("tau", F(t)), ("eta", F(e)), ("mu", F(y)), ("m", U(100))]);
    }
    pub fn mirostat2() {
        let (t, e, y) = (f(), f(), f());
        is(&SampleMirostat2::new(t, e), &[("tau", F(t)), ("eta", F(e)), ("mu", F(2.0 * t))]);
        is(&SampleMirostat2::new(t, e).tau(y), &[("tau", F(y)), ("eta", F(e)), ("mu", F(2.0 * y))]);
        is(&SampleMirostat2::new(t, e).eta(y), &[("tau", F(t)), ("eta", F(y)), ("mu", F(2.0 * t))]);
        is(&SampleMirostat2::new(t, e).mu(y), &[("tau", F(t)), ("eta", F(e)), ("mu", F(y))]);
    }
    pub fn flat_bias() {
        let bias = vm::any_vec::<(u32, f32)>();
        let o = bias.clone();
        let s = SampleFlatBias::new(bias);
        prove(s.len() == o.len(), "every bias is stored");
        if s.len() == o.len() && o.len() > 0 {
            let k = skolem(o.len());
            prove(s[k].0 == o[k].0 && s[k].1 == o[k].1, "every bias is stored");
        }
    }
}

// C27
fn defaults<S: Conf>(s: &S, want: &[(&str, Num)]) {
    prove(holds(s, want, close), "the default options");
}
pub mod c27 {
    use super::*;
    pub fn top_k() { defaults(&SampleTopK::default(), &[("k", U(40)), ("min_keep", U(1))]) }
    pub fn top_p() { defaults(&SampleTopP::default(), &[("p", F(0.9)), ("min_keep", U(1))]) }
    pub fn top_a() { defaults(&SampleTopA::default(), &[("a1", F(0.2)), ("a2", F(2.0)), ("min_keep", U(1))]) }
    pub fn min_p() { defaults(&SampleMinP::default(), &[("p", F(0.05)), ("min_keep", U(1))]) }
    pub fn tail_free() { defaults(&SampleTailFree::default(), &[("z", F(1.0)), ("min_keep", U(1))]) }
    pub fn locally_typical() { defaults(&SampleLocallyTypical::default(), &[("p", F(1.0)), ("min_keep", U(1))]) }
    pub fn temperature() { defaults(&SampleTemperature::default(), &[("temperature", F(1.0))]) }
    pub fn repetition() { defaults(&SampleRepetition::default(), &[("penalty", F(1.1)), ("last_n", U(64))]) }
    pub fn freq_presence() { defaults(&SampleFreqPresence::default(), &[("frequency_penalty", F(0.0)), ("presence_penalty", F(0.0)), ("last_n", U(64))]) }
    pub fn seq_repetition() { defaults(&SampleSeqRepetition::default(), &[("flat_penalty", F(0.0)), ("stacking_penalty", F(0.0)), ("min_length", U(4)), ("tolerance", U(0)), ("max_merge", U(1)), ("last_n", U(64))]) }
    pub fn mirostat1() { defaults(&SampleMirostat1::default(), &[("n_vocab", U(0)), ("m", U(100)), ("tau", F(5.0)), ("eta", F(0.1)), ("mu", F(10.0))]) }
    pub fn mirostat2() { defaults(&SampleMirostat2::default(), &[("tau", F(5.0)), ("eta", F(0.1)), ("mu", F(10.0))]) }
    pub fn flat_bias() { prove(SampleFlatBias::default().len() == 0, "no biases") }
    pub fn pickers() {
        prove(SampleGreedy::default().sampled_token_id().is_none(), "nothing picked yet");
        prove(SampleRandDistrib::default().sampled_token_id().is_none(), "nothing picked yet");
        prove(SampleMirostat1::default().sampled_token_id().is_none(), "nothing picked yet");
        prove(SampleMirostat2::default().sampled_token_id().is_none(), "nothing picked yet");
    }
}

// C30
fn name<S: HasSamplerMetadata<usize, f32>>(s: S) -> &'static str {
    s.sampler_metadata().name
}
each_configurable! { c30, distinct_keys,
    pub fn names() {
        let names = [
            name(SampleTopK::default()),
            name(SampleTopP::default()),
            name(SampleTopA::default()),
            name(SampleMinP::default()),
            name(SampleTailFree::default()),
            name(SampleLocallyTypical::default()),
            name(SampleTemperature::default()),
            name(SampleFlatBias::default()),
            name(SampleRepetition::default()),
            name(SampleFreqPresence::default()),
            name(SampleSeqRepetition::default()),
            name(SampleGreedy::default()),
            name(SampleRandDistrib::default()),
            name(SampleMirostat1::default()),
            name(SampleMirostat2::default()),
        ];
        for i in 0..names.len() {
            prove(names[i] != "", "every sampler has a name");
            for j in 0..i {
                prove(names[i] != names[j], "no two samplers share a name");
            }
        }
        vm::reached("compared");
    }
}
fn distinct_keys<S: Conf>(s: &mut S) {
    let md = s.sampler_metadata().options;
    for i in 0..md.len() {
        prove(md[i].key != "", "every option has a key");
        for j in 0..i {
            prove(md[i].key != md[j].key, "no two options share a key");
        }
    }
    vm::reached("compared");
}

// C28
fn calls_rng<R: HasSamplerResources>(r: &mut R) -> (usize, u32, Result<(), SamplerError>) {
    let (mut n, mut x) = (0usize, 0u32);
    let e = r.with_rng_mut(&mut |g| {
        n += 1;
        x = g.next_u32();
    });
    (n, x, e)
}
fn missing(r: Result<(), SamplerError>) -> bool {
    matches!(r, Err(SamplerError::MissingResource(_)))
}
/// a generator that hands out its own number
#[derive(Debug)]
struct Numbered(u32);
impl rand::RngCore for Numbered {
    fn next_u32(&mut self) -> u32 {
        self.0 = self.0.wrapping_add(1);
        self.0
    }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, dest: &mut [u8]) {}
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> { Ok(()) }
}
fn simple(rng: bool, last: bool, x: u32, v: &Vec<u32>) -> SimpleSamplerResources {
    let g: Option<Box<dyn rand::RngCore + Send + Sync>> = if rng { Some(Box::new(Numbered(x))) } else { None };
    SimpleSamplerResources::new(g, if last { Some(v.clone()) } else { None })
}
fn nothing<R: HasSamplerResources>(r: &mut R) {
    let (n, _, e) = calls_rng(r);
    prove(n == 0 && missing(e), "no generator: an error and no call back");
    let mut n = 0usize;
    let e = r.with_last_tokens(&mut |l| n += 1);
    prove(n == 0 && missing(e), "no history: an error and no call back");
    let e = r.with_last_tokens_mut(&mut |l| n += 1);
    prove(n == 0 && missing(e), "no history: an error and no call back");
}
pub mod c28 {
    use super::*;
    pub fn nil() { nothing(&mut NilSamplerResources::new()) }
    pub fn unit() { nothing(&mut ()) }
    pub fn simple_empty() { nothing(&mut SimpleSamplerResources::new(None, None)) }
    pub fn generator() {
        let (x, v) = (vm::any_u32(), vm::any_vec::<u32>());
        assume(x < 1000000);
        let mut r = simple(true, choose(), x, &v);
        let (n, y, e) = calls_rng(&mut r);
        prove(n == 1 && e.is_ok(), "the generator is handed out once");
        prove(y == x + 1, "the generator handed out is the one held");
        let (n, y, e) = calls_rng(&mut r);
        prove(n == 1 && e.is_ok() && y == x + 2, "every request sees the same generator");
    }
    pub fn no_generator() {
        let v = vm::any_vec::<u32>();
        let mut r = simple(false, choose(), 0, &v);
        let (n, _, e) = calls_rng(&mut r);
        prove(n == 0 && missing(e), "no generator: an error and no call back");
    }
    pub fn no_history() {
        let v = vm::any_vec::<u32>();
        let mut r = simple(choose(), false, 0, &v);
        let mut n = 0usize;
        let e = r.with_last_tokens(&mut |l| n += 1);
        prove(n == 0 && missing(e), "no history: an error and no call back");
        let e = r.with_last_tokens_mut(&mut |l| n += 1);
        prove(n == 0 && missing(e), "no history: an error and no call back");
    }
    pub fn history() {
        let v = vm::any_vec::<u32>();
        let len = v.len();
        let mut r = simple(choose(), true, 0, &v);
        let i = skolem(len + 1);
        let mut n = 0usize;
        let e = r.with_last_tokens(&mut |l| {
            n += 1;
            prove(l.len() == len, "the history handed out is the one held");
            if i < len && l.len() == len {
                prove(l[i] == v[i], "the history handed out is the one held");
            }
        });
        prove(n == 1 && e.is_ok(), "the history is handed out once");
        let x = vm::any_u32();
        let mut n = 0usize;
        let e = r.with_last_tokens_mut(&mut |l| {
            n += 1;
            prove(l.len() == len, "the history handed out is the one held");
            if i < len && l.len() == len {
                prove(l[i] == v[i], "the history handed out is the one held");
            }
            l.push(x);
        });
        prove(n == 1 && e.is_ok(), "the history is handed out once");
        let mut n = 0usize;
        let e = r.with_last_tokens(&mut |l| {
            n += 1;
            prove(l.len() == len + 1, "what one request writes, the next one reads");
            if l.len() == len + 1 {
                prove(l[len] == x, "what one request writes, the next one reads");
                if i < len {
                    prove(l[i] == v[i], "what one request writes, the next one reads");
                }
            }
        });
        prove(n == 1 && e.is_ok(), "the history is handed out once");
        // any change at all: shorter, longer, empty
        let w = vm::any_vec::<u32>();
        let j = skolem(w.len() + 1);
        let e = r.with_last_tokens_mut(&mut |l| *l = w.clone());
        prove(e.is_ok(), "the history is handed out once");
        let mut n = 0usize;
        let again = |l: &Vec<u32>| {
            prove(l.len() == w.len(), "what one request writes, the next one reads");
            if j < w.len() && l.len() == w.len() {
                prove(l[j] == w[j], "what one request writes, the next one reads");
            }
        };
        let e = r.with_last_tokens(&mut |l| {
            n += 1;
            again(l)
        });
        let e = r.with_last_tokens_mut(&mut |l| {
            n += 1;
            again(l)
        });
        prove(n == 2 && e.is_ok(), "the history is handed out once");
    }
}

// C48
fn alike(a: &[(SamplerOptionType, usize, f32)], b: &[(SamplerOptionType, usize, f32)]) -> bool {
    let mut all = a.len() == b.len();
    if all {
        for k in 0..a.len() {
            if !(a[k].0 == b[k].0 && a[k].1 == b[k].1 && a[k].2 == b[k].2) {
                all = false;
            }
        }
    }
    all
}
fn copies<S: Conf + Clone>(s: &mut S) {
    scramble(s);
    let before = snapshot(s);
    let mut c = s.clone();
    prove(alike(&snapshot(&c), &before), "a copy has every option of its original");
    prove(alike(&snapshot(s), &before), "copying leaves the original as it was");
    scramble(&mut c);
    prove(alike(&snapshot(s), &before), "changing a copy leaves the original as it was");
    vm::reached("copied");
}
fn compares<S: Conf + Clone + PartialEq>(s: &mut S) {
    let mut t = s.clone();
    scramble(s);
    scramble(&mut t);
    let (a, b) = (snapshot(s), snapshot(&t));
    prove((*s == t) == alike(&a, &b), "two are equal just when every option is");
    vm::reached("compared");
}
fn any_bias() -> SampleFlatBias {
    SampleFlatBias::new(vm::any_vec::<(u32, f32)>())
}
each_configurable! { c48, copies,
    pub fn eq_top_k() { compares(&mut SampleTopK::default()) }
    pub fn eq_top_p() { compares(&mut SampleTopP::default()) }
    pub fn eq_top_a() { compares(&mut SampleTopA::default()) }
    pub fn eq_min_p() { compares(&mut SampleMinP::default()) }
    pub fn eq_tail_free() { compares(&mut SampleTailFree::default()) }
    pub fn eq_locally_typical() { compares(&mut SampleLocallyTypical::default()) }
    pub fn eq_temperature() { compares(&mut SampleTemperature::default()) }
    pub fn biases() {
        let o = any_bias();
        let mut s = o.clone();
        prove(s.len() == o.len(), "a copy has every bias of its original");
        if o.len() > 0 && s.len() == o.len() {
            let k = skolem(o.len());
            prove(s[k].0 == o[k].0 && s[k].1 == o[k].1, "a copy has every bias of its original");
        }
        s.push((vm::any_u32(), vm::any_f32()));
        prove(s.len() == o.len() + 1, "changing a copy leaves the original as it was");
    }
    pub fn list() {
        let o = flagged_logits();
        let mut s = o.clone();
        prove(s.len() == o.len(), "a copy has every candidate of its original");
        prove(s.get_sorted() == o.get_sorted() && s.get_softmax() == o.get_softmax(), "a copy has the marks of its original");
        if o.len() > 0 && s.len() == o.len() {
            let k = skolem(o.len());
            prove(s[k].token_id == o[k].token_id && s[k].logit == o[k].logit && s[k].prob == o[k].prob, "a copy has every candidate of its original");
        }
        s.clear();
        prove(s.is_empty(), "a copy can be emptied");
    }
    pub fn candidates() {
        let mk = || Logit { token_id: vm::any_u32(), logit: vm::any_f32(), prob: vm::any_f32() };
        let (a, b) = (mk(), mk());
        prove((a == b) == (a.token_id == b.token_id && a.logit == b.logit && a.prob == b.prob), "two candidates are equal just when token, logit and probability are");
        let c = a.clone();
        prove(a.token_id == c.token_id && a.logit == c.logit && a.prob == c.prob, "a copy of a candidate is like it");
    }
    pub fn marks() {
        let mut l = flagged_logits();
        let n = l.len();
        let (x, y) = (choose(), choose());
        l.set_sorted(x);
        l.set_softmax(y);
        prove(l.get_sorted() == x && l.get_softmax() == y && l.len() == n, "a mark reads as it was set");
    }
    pub fn picks() {
        let mut l = flagged_logits();
        let mut s = SampleGreedy::new();
        let _ = s.sample(&mut (), &mut l);
        let t = s.sampled_token_id();
        let c = s.clone();
        prove(s.get_token_id() == t && *s == t, "greedy's accessors give the token it reports");
        prove(c.sampled_token_id() == t, "a copy remembers the pick");
    }
    pub fn random_picks() {
        let mut l = flagged_logits();
        let mut s = SampleRandDistrib::new();
        let _ = s.sample(&mut full_res(), &mut l);
        prove(s.clone().sampled_token_id() == s.sampled_token_id(), "a copy remembers the pick");
    }
    pub fn mirostat_picks() {
        let mut l = flagged_logits();
        let mut s = any_mirostat2();
        let _ = s.sample(&mut full_res(), &mut l);
        prove(s.clone().sampled_token_id() == s.sampled_token_id(), "a copy remembers the pick");
    }
    pub fn mirostat1_picks() {
        let mut l = flagged_logits();
        let mut s = any_mirostat1();
        let _ = s.sample(&mut full_res(), &mut l);
        prove(s.clone().sampled_token_id() == s.sampled_token_id(), "a copy remembers the pick");
    }
}
