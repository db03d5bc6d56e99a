#![allow(dead_code, unused)]
#[path = "../../common.rs"]
#[macro_use]
mod common;
use common::*;
use llm_samplers::{configure::*, prelude::*};

// C14: every assertion, bounds check, overflow check, unwrap and explicit panic in the crate is an obligation
fn runs<S: Sampler>(s: &mut S) {
    let mut l = truthful_logits();
    let mut res = any_res();
    let _ = s.sample(&mut res, &mut l);
    let _ = s.sampled_token_id();
    vm::reached("sampled");
}
each_sampler! { c14, runs }
pub fn c14_build() {
    let v = vm::any_vec_nan::<f32>();
    let _ = Logits::try_from_iter(v.into_iter());
    vm::reached("built");
}
pub fn c14_build_vec() {
    let v = vm::any_vec_nan::<f32>();
    let _ = Logits::try_from(v);
    vm::reached("built");
}
pub fn c14_build_top_k() {
    let v = vm::any_vec_nan::<f32>();
    let _ = Logits::try_from_iter_top_k(v.into_iter(), vm::any_usize());
    vm::reached("built");
}
pub fn c14_sort() {
    let mut l = truthful_logits();
    let _ = l.ensure_sorted();
    vm::reached("sorted");
}
pub fn c14_softmax() {
    let mut l = truthful_logits();
    let _ = l.ensure_softmax();
    vm::reached("computed");
}
// histories long enough for a repeated sequence
fn repeats(n: usize, min: usize, tolerance: usize, merge: usize, last_n: usize) {
    let mut l = Logits::default();
    l.push(Logit { token_id: vm::any_u32(), logit: vm::any_f32(), prob: 0.0 });
    let mut s = SampleSeqRepetition::new(vm::any_f32(), vm::any_f32(), min, tolerance, merge, last_n);
    let _ = s.sample(&mut history(n), &mut l);
    vm::reached("sampled");
}
pub fn c14_repeats_4() { repeats(4, 2 + up_to(1), up_to(1), up_to(1), vm::any_usize()) }
pub fn c14_repeats_5() { repeats(5, 2, 0, 0, 64) }
pub fn c14_repeats_5_loose() { repeats(5, 2, 1, 0, 64) }
pub fn c14_repeats_5_window() { repeats(5, 2, 0, 1, 4) }
pub fn c14_repeats_6() { repeats(6, 3, 0, 0, 64) }
