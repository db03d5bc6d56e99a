#![allow(dead_code, unused)]
#[path = "../../common.rs"]
#[macro_use]
mod common;
use common::*;
use llm_samplers::prelude::*;

fn check_sorted<S: Sampler>(s: &mut S) {
    let mut l = flagged_logits();
    let mut res = any_res();
    let _ = s.sample(&mut res, &mut l);
    if l.get_sorted() && l.len() > 1 {
        let i = skolem(l.len() - 1);
        prove(l[i].logit >= l[i + 1].logit, "candidates marked sorted are in descending order");
    }
    vm::reached("sampled");
}
fn check_sorted_inplace<S: Sampler>(s: &mut S) {
    if vm::exact() {
        return check_sorted(s);
    }
    let mut l = if choose() { any_logits() } else { sorted_logits() };
    let n = l.len();
    if n > 1 {
        let i = skolem(n - 1);
        track(&mut l, i);
        track(&mut l, i + 1);
        let mut res = any_res();
        let _ = s.sample(&mut res, &mut l);
        prove(l.len() == n, "number of candidates");
        if l.get_sorted() && l.len() == n {
            prove(l[i].logit >= l[i + 1].logit, "candidates marked sorted are in descending order");
        }
    }
    vm::reached("sampled");
}
each_sampler! { c01, check_sorted, check_sorted_inplace, check_sorted }
fn list_op(f: fn(&mut Logits)) {
    let mut l = flagged_logits();
    f(&mut l);
    if l.get_sorted() && l.len() > 1 {
        let i = skolem(l.len() - 1);
        prove(l[i].logit >= l[i + 1].logit, "candidates marked sorted are in descending order");
    }
    vm::reached("sampled");
}
pub fn c01_ensure_sorted() {
    list_op(|l| { let _ = l.ensure_sorted(); })
}
pub fn c01_ensure_softmax() {
    list_op(|l| { let _ = l.ensure_softmax(); })
}
pub fn c01_build() {
    let v = vm::any_vec::<f32>();
    vm::reached("built");
    if let Ok(l) = Logits::try_from_iter(v.into_iter()) {
        if l.get_sorted() && l.len() > 1 {
            let i = skolem(l.len() - 1);
            prove(l[i].logit >= l[i + 1].logit, "candidates marked sorted are in descending order");
        }
    }
}

// C02
fn check_softmax<S: Sampler>(s: &mut S) {
    let mut l = current_logits();
    let n = l.len();
    if n > 0 {
        let o = l.clone();
        let mut res = any_res();
        let _ = s.sample(&mut res, &mut l);
        if l.get_softmax() && l.len() > 0 {
            let i = skolem(l.len());
            let old = vm::origin_u32(&l[i].token_id, &o[..]);
            let stale = match old {
                Some(k) => stale(l[i].prob, o[k].prob),
                None => false,
            };
            prove(l.len() == n || !stale, "kept probabilities belong to the candidates still there");
        }
    }
    vm::reached("sampled");
}
fn check_softmax_inplace<S: Sampler>(s: &mut S) {
    let mut l = current_logits();
    let n = l.len();
    if n > 0 {
        let i = skolem(n);
        track(&mut l, i);
        let o = l[i].clone();
        let mut res = any_res();
        let _ = s.sample(&mut res, &mut l);
        prove(l.len() == n, "number of candidates");
        if l.get_softmax() && l.len() == n {
            prove(l[i].logit == o.logit || !stale(l[i].prob, o.prob), "kept probabilities belong to the current logits");
        }
    }
    vm::reached("sampled");
}
each_sampler! { c02, check_softmax, check_softmax_inplace, check_softmax }

// C24
/// a long list that is all but in order
pub fn c01_long() {
    let rule = "a list marked sorted is in descending order";
    if !long(3000, rule) {
        return;
    }
    for at in [0, 1200, 2999] {
        let mut l = long_list(3000, |i| (if i == at { 5000.0 } else { 3000.0 - i as f32 }, 0.0));
        let _ = l.ensure_sorted();
        prove(l.len() == 3000 && l.get_sorted(), rule);
        let mut i = 1;
        while i < l.len() {
            prove(l[i - 1].logit >= l[i].logit, rule);
            i += 1;
        }
    }
    vm::reached("sorted");
}
fn built(v: Vec<f32>, via_vec: bool) -> Result<Logits, LogitsError> {
    if via_vec {
        Logits::try_from(v)
    } else {
        Logits::try_from_iter(v.into_iter())
    }
}
fn build_numbers(via_vec: bool) {
    let v = vm::any_vec::<f32>();
    let o = v.clone();
    match built(v, via_vec) {
        Ok(l) => {
            prove(!l.get_sorted() && !l.get_softmax(), "both marks are down");
            prove(l.len() == o.len(), "one candidate per number");
            if l.len() == o.len() && o.len() > 0 {
                let i = skolem(o.len());
                prove(l[i].token_id as usize == i, "token id is the position");
                prove(l[i].logit == o[i], "logit is the number");
            }
        }
        Err(_) => prove(false, "numbers are accepted"),
    }
    vm::reached("built");
}
pub fn c24_numbers() { build_numbers(false) }
pub fn c24_numbers_vec() { build_numbers(true) }
fn build_nan(via_vec: bool) {
    let mut v = vm::any_vec_nan::<f32>();
    if v.len() == 0 {
        return;
    }
    let i = skolem(v.len());
    track(&mut v, i);
    let o = v.clone();
    match built(v, via_vec) {
        Ok(l) => {
            if o.len() > 0 {
                prove(!o[i].is_nan(), "NaN is refused");
            }
        }
        Err(LogitsError::InvalidLogit(k)) => {
            prove(k < o.len(), "position of the refused number");
            if k < o.len() {
                prove(o[k].is_nan(), "only NaN is refused");
                if i < k {
                    prove(!o[i].is_nan(), "position of the first NaN");
                }
            }
        }
        Err(_) => prove(false, "NaN is reported with its position"),
    }
    vm::reached("built");
}
pub fn c24_nan() { build_nan(false) }
pub fn c24_nan_vec() { build_nan(true) }

fn build_long(n: usize, at: usize) {
    let rule = "token ids and logits of a long list";
    if !long(n, rule) {
        return;
    }
    let (x, y) = (vm::any_f32(), vm::any_f32());
    let mut v: Vec<f32> = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(if i == at { x } else { y });
        i += 1;
    }
    match Logits::try_from_iter(v) {
        Ok(l) => {
            prove(l.len() == n, "as many candidates as numbers");
            if l.len() == n {
                for i in [0, at - 1, at, at + 1, n - 1] {
                    prove(l[i].token_id as usize == i && l[i].logit == if i == at { x } else { y }, rule);
                }
            }
        }
        Err(_) => prove(false, "a long list of numbers is not refused"),
    }
    vm::reached("built");
}
pub fn c24_long() { build_long(66_000, 65_600) }

// C25
fn top_k_list() -> (Vec<f32>, usize, Logits) {
    let v = vm::any_vec_nan::<f32>();
    let o = v.clone();
    let k = vm::any_usize();
    match Logits::try_from_iter_top_k(v.into_iter(), k) {
        Ok(l) => (o, k, l),
        Err(_) => {
            prove(false, "never refused");
            loop {}
        }
    }
}
pub fn c25_order() {
    let (o, k, l) = top_k_list();
    prove(l.len() <= k, "at most k candidates");
    prove(l.len() <= o.len(), "no more candidates than numbers");
    prove(l.get_sorted() || l.len() == 0, "marked sorted");
    prove(!l.get_softmax() || l.len() == 0, "not marked as having probabilities");
    if l.len() > 1 {
        let i = skolem(l.len() - 1);
        prove(l[i].logit >= l[i + 1].logit, "descending order");
    }
}
pub fn c25_select() {
    let (o, k, l) = top_k_list();
    if l.len() > 0 {
        let i = skolem(l.len());
        let t = l[i].token_id as usize;
        prove(t < o.len(), "token id is a position");
        if t < o.len() {
            prove(o[t].is_finite(), "kept numbers are finite");
            prove(l[i].logit == o[t], "logit is the number at that position");
        }
    }
    if l.len() > 1 {
        let i = skolem(l.len());
        let j = skolem(l.len());
        if i != j {
            prove(l[i].token_id != l[j].token_id, "no position twice");
        }
    }
}
pub fn c25_best() {
    let (o, k, l) = top_k_list();
    if o.len() > 0 && k > 0 {
        let j = skolem(o.len());
        if o[j].is_finite() {
            prove(l.len() > 0, "something finite is kept");
            let mut kept = false;
            for c in l.iter() {
                if c.token_id as usize == j {
                    kept = true;
                }
            }
            if !kept && l.len() > 0 {
                prove(l.len() == k, "dropped only when full");
                prove(l[l.len() - 1].logit >= o[j], "dropped numbers do not exceed kept ones");
            }
        }
    }
}

fn best_of_long(n: usize, step: usize, k: usize) {
    let rule = "the best of a long list, in descending order";
    // every number from 0 to n - 1, in order or shuffled
    let at = |i: usize| (i * step) % n;
    let mut v: Vec<f32> = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(at(i) as f32);
        i += 1;
    }
    if let Ok(l) = Logits::try_from_iter_top_k(v, k) {
        let kept = if k < n { k } else { n };
        prove(l.len() == kept, rule);
        if l.len() == kept {
            let mut i = 0;
            while i < kept {
                prove(l[i].logit == (n - 1 - i) as f32 && at(l[i].token_id as usize) == n - 1 - i, rule);
                i += 1;
            }
        }
    } else {
        prove(false, "never refused");
    }
    vm::reached("built");
}
pub fn c25_long() {
    if !long(2000, "the best of a long list, in descending order") {
        return;
    }
    best_of_long(2000, 1, 40);
    best_of_long(2000, 1, 1500);
    best_of_long(1200, 1, 1 << 40);
    best_of_long(70, 23, 50);
}
