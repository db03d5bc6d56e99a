#![allow(dead_code, unused)]
#[path = "../../common.rs"]
#[macro_use]
mod common;
use common::*;
use llm_samplers::prelude::*;

fn least(a: usize, b: usize) -> usize {
    if a < b { a } else { b }
}
fn most(a: usize, b: usize) -> usize {
    if a < b { b } else { a }
}

const LONG: &str = "a long list is cut like a short one";

// C03: how many candidates are kept
pub mod c03 {
    use super::*;
    fn run<S: Sampler>(mut s: S) -> (usize, usize) {
        let mut l = flagged_logits();
        let n = l.len();
        let mut res = any_res();
        let _ = s.sample(&mut res, &mut l);
        prove(l.len() <= n, "no more candidates than before");
        (n, l.len())
    }
    pub fn top_k() {
        let (k, m) = (vm::any_usize(), vm::any_usize());
        let (n, kept) = run(SampleTopK::new(k, m));
        prove(kept == least(n, most(k, m)), "top-k keeps min(n, max(k, min_keep))");
    }
    pub fn top_p() {
        let (p, m) = (vm::any_f32(), vm::any_usize());
        let (n, kept) = run(SampleTopP::new(p, m));
        prove(kept >= least(n, most(1, m)), "at least min(n, max(1, min_keep)) are kept");
    }
    pub fn top_a() {
        let m = vm::any_usize();
        let (n, kept) = run(SampleTopA::new(vm::any_f32(), vm::any_f32(), m));
        prove(kept >= least(n, most(1, m)), "at least min(n, max(1, min_keep)) are kept");
    }
    pub fn min_p() {
        let m = vm::any_usize();
        let (n, kept) = run(SampleMinP::new(vm::any_f32(), m));
        prove(kept >= least(n, most(1, m)), "at least min(n, max(1, min_keep)) are kept");
    }
    pub fn tail_free() {
        let m = vm::any_usize();
        let (n, kept) = run(SampleTailFree::new(vm::any_f32(), m));
        prove(kept >= least(n, m), "at least min(n, min_keep) are kept");
    }
    pub fn locally_typical() {
        let m = vm::any_usize();
        let (n, kept) = run(SampleLocallyTypical::new(vm::any_f32(), m));
        prove(kept >= least(n, most(1, m)), "at least min(n, max(1, min_keep)) are kept");
    }
    pub fn mirostat1() {
        let (n, kept) = run(any_mirostat1());
        prove(n == 0 || kept >= 1, "at least one candidate is kept");
    }
    pub fn mirostat2() {
        let (n, kept) = run(any_mirostat2());
        prove(n == 0 || kept >= 1, "at least one candidate is kept");
    }
    pub fn long_top_k() {
        if !long(600, LONG) {
            return;
        }
        let (k, m) = (vm::any_usize(), vm::any_usize());
        let mut l = long_current(600, |i| (600.0 - i as f32, 1.0 / 4096.0));
        let _ = SampleTopK::new(k, m).sample(&mut res_with(Vec::new()), &mut l);
        prove(l.len() == least(600, most(k, m)), LONG);
    }
    /// whatever the other settings, min_keep is kept to
    pub fn long_min_keep() {
        if !long(1024, LONG) {
            return;
        }
        let m = vm::any_usize();
        let list = || long_current(1024, |i| (0.0, 1.0 / 1024.0 + if i == 0 { 1.0 / 1024.0 } else { 0.0 }));
        let mut l = list();
        let _ = SampleMinP::new(1.0, m).sample(&mut res_with(Vec::new()), &mut l);
        prove(l.len() == least(1024, most(1, m)), LONG);
    }
    pub fn long_min_keep_top_a() {
        if !long(1024, LONG) {
            return;
        }
        let m = vm::any_usize();
        let list = || long_current(1024, |i| (0.0, 1.0 / 1024.0 + if i == 0 { 1.0 / 1024.0 } else { 0.0 }));
        let mut l = list();
        let _ = SampleTopA::new(1.0, 1.0, m).sample(&mut res_with(Vec::new()), &mut l);
        prove(l.len() >= least(1024, most(1, m)), LONG);
    }
    pub fn long_min_keep_top_p() {
        if !long(1024, LONG) {
            return;
        }
        let m = vm::any_usize();
        let mut l = long_current(1024, |i| (0.0, 1.0 / 1024.0));
        let _ = SampleTopP::new(0.0, m).sample(&mut res_with(Vec::new()), &mut l);
        prove(l.len() == least(1024, most(1, m)), LONG);
    }
    pub fn long_min_keep_typical() {
        if !long(1024, LONG) {
            return;
        }
        let m = vm::any_usize();
        let mut l = long_current(512, |i| (0.0, 1.0 / 512.0));
        let _ = SampleLocallyTypical::new(0.0, m).sample(&mut res_with(Vec::new()), &mut l);
        prove(l.len() == least(512, most(1, m)), LONG);
    }
}

// C04: survivors are among the given candidates, untouched, and no candidate is used twice
fn select<S: Sampler>(s: &mut S) {
    let mut l = flagged_logits();
    let o = l.clone();
    let mut res = any_res();
    let _ = s.sample(&mut res, &mut l);
    if l.len() > 0 {
        let i = skolem(l.len());
        match vm::origin_u32(&l[i].token_id, &o[..]) {
            Some(k) => {
                prove(k < o.len(), "survivor was given");
                if k < o.len() {
                    prove(l[i].logit == o[k].logit, "survivor keeps its logit");
                }
                let j = skolem(l.len());
                if i != j {
                    match vm::origin_u32(&l[j].token_id, &o[..]) {
                        Some(h) => prove(h != k, "no candidate twice"),
                        None => prove(false, "survivor keeps its token id"),
                    }
                }
            }
            None => prove(false, "survivor keeps its token id"),
        }
    }
    vm::reached("sampled");
}
each_of! { c04, select;
    top_k = SampleTopK::new(vm::any_usize(), vm::any_usize());
    top_p = SampleTopP::new(vm::any_f32(), vm::any_usize());
    top_a = SampleTopA::new(vm::any_f32(), vm::any_f32(), vm::any_usize());
    min_p = SampleMinP::new(vm::any_f32(), vm::any_usize());
    tail_free = SampleTailFree::new(vm::any_f32(), vm::any_usize());
    locally_typical = SampleLocallyTypical::new(vm::any_f32(), vm::any_usize());
    mirostat1 = any_mirostat1();
    mirostat2 = any_mirostat2();
    greedy = SampleGreedy::new();
    rand_distrib = SampleRandDistrib::new();
}

fn steps(i: usize) -> (f32, f32) {
    (2000.0 - i as f32, (1100 - i) as f32 / 1048576.0)
}

// C33: thresholds
pub mod c33 {
    use super::*;
    // the highest-ranked candidates, with the probabilities the sampler goes by
    fn cut<S: Sampler>(s: &mut S, m: usize, threshold: impl Fn(f32) -> f32) {
        let mut l = current_logits();
        if l.len() > 0 {
            let i = skolem(l.len());
            let floor = most(1, m);
            assume(i >= floor || l.len() <= floor);
            track(&mut l, i);
            let o = l.clone();
            let mut res = any_res();
            let _ = s.sample(&mut res, &mut l);
            let kept = l.len();
            let t = threshold(o[0].prob);
            if kept < o.len() {
                prove(o[kept].prob < t, "the first dropped candidate is below the threshold");
            }
            if i < kept && i >= floor {
                prove(o[i].prob >= t, "kept beyond the minimum only at or above the threshold");
            }
        }
        vm::reached("sampled");
    }
    pub fn min_p() {
        let (p, m) = (vm::any_f32(), vm::any_usize());
        assume(p != 0.0);
        cut(&mut SampleMinP::new(p, m), m, |max| max * p);
    }
    pub fn top_a() {
        let (a1, a2, m) = (vm::any_f32(), vm::any_f32(), vm::any_usize());
        assume(a1 != 0.0 && a2 != 0.0);
        cut(&mut SampleTopA::new(a1, a2, m), m, |max| max.powf(a2) * a1);
    }
    fn cut_long<S: Sampler>(s: &mut S, threshold: f32) {
        let mut l = long_current(1100, steps);
        let _ = s.sample(&mut res_with(Vec::new()), &mut l);
        let kept = l.len();
        prove(kept >= 1 && kept <= 1100, LONG);
        if kept >= 1 && kept < 1100 {
            prove(steps(kept).1 < threshold, LONG);
        }
        if kept > 1 && kept <= 1100 {
            prove(steps(kept - 1).1 >= threshold, LONG);
        }
        vm::reached("sampled");
    }
    pub fn long_min_p() {
        if !long(1100, LONG) {
            return;
        }
        let p = vm::any_f32();
        assume(p != 0.0);
        cut_long(&mut SampleMinP::new(p, 1), steps(0).1 * p);
    }
    pub fn long_top_a() {
        if !long(1100, LONG) {
            return;
        }
        let (a1, a2) = (vm::any_f32(), vm::any_f32());
        assume(a1 != 0.0 && a2 != 0.0);
        cut_long(&mut SampleTopA::new(a1, a2, 1), steps(0).1.powf(a2) * a1);
    }
}

// C34: top-p stops exactly where the cumulative probability reaches p
pub mod c34 {
    use super::*;
    pub fn top_p() {
        vm::depth(4);
        let (p, m) = (vm::any_f32(), vm::any_usize());
        let mut l = current_logits();
        if l.len() > 0 {
            let o = l.clone();
            let mut res = any_res();
            let _ = SampleTopP::new(p, m).sample(&mut res, &mut l);
            let kept = l.len();
            let floor = most(1, m);
            let mut sum = 0f32;
            for i in 0..kept {
                if i > 0 && i >= floor {
                    prove(sum < p, "no shorter admissible prefix reaches p");
                }
                sum += o[i].prob;
            }
            if kept < o.len() {
                prove(sum >= p, "a cut list reaches p");
            }
        }
        vm::reached("sampled");
    }
    pub fn long_top_p() {
        if !long(1024, LONG) {
            return;
        }
        let p = vm::any_f32();
        let mut l = long_current(1024, |i| (0.0, 1.0 / 1024.0));
        let _ = SampleTopP::new(p, 1).sample(&mut res_with(Vec::new()), &mut l);
        let kept = l.len();
        prove(kept >= 1 && kept <= 1024, LONG);
        if kept < 1024 {
            prove(kept as f32 / 1024.0 >= p, LONG);
        }
        if kept > 1 {
            prove((kept - 1) as f32 / 1024.0 < p, LONG);
        }
        vm::reached("sampled");
    }
}

// C35: nothing dropped outranks anything kept
fn rank<S: Sampler>(s: &mut S) {
    let mut l = flagged_logits();
    let mut r = l.clone();
    let n = l.len();
    let mut res = any_res();
    if vm::exact() {
        let _ = s.sample(&mut res, &mut l);
        let kept = l.len();
        if kept > 0 && kept < n {
            r.as_mut_slice().sort_by(|a, b| b.logit.partial_cmp(&a.logit).unwrap());
            for i in 0..kept {
                let mut same = false;
                for j in 0..kept {
                    same = same || l[j].logit == r[i].logit;
                }
                prove(same, "the highest-ranked candidates are kept");
            }
        }
        if kept > 1 && kept < n {
            let i = skolem(kept - 1);
            prove(l[i].logit >= l[i + 1].logit, "survivors are in descending order");
        }
    } else {
        // the list's own order, or the order its own sort establishes
        let _ = r.ensure_sorted();
        let _ = s.sample(&mut res, &mut l);
        let kept = l.len();
        if kept > 1 {
            let i = skolem(kept - 1);
            if kept < n {
                prove(r[i].logit >= r[i + 1].logit, "survivors are in descending order");
            }
        }
        if kept > 0 && kept < n {
            let i = skolem(kept);
            prove(l[i].logit == r[i].logit, "the highest-ranked candidates are kept");
        }
    }
    vm::reached("sampled");
}
each_of! { c35, rank;
    top_k = SampleTopK::new(vm::any_usize(), vm::any_usize());
    top_p = SampleTopP::new(vm::any_f32(), vm::any_usize());
    top_a = SampleTopA::new(vm::any_f32(), vm::any_f32(), vm::any_usize());
    min_p = SampleMinP::new(vm::any_f32(), vm::any_usize());
    tail_free = SampleTailFree::new(vm::any_f32(), vm::any_usize());
}

pub fn c35_long_top_k() {
        if !long(400, LONG) {
            return;
        }
        for k in [1, 70, 299, 300] {
            let mut l = long_list(300, |i| (((i * 67) % 300) as f32, 0.0));
            let _ = SampleTopK::new(k, 1).sample(&mut res_with(Vec::new()), &mut l);
            prove(l.len() == k, LONG);
            let mut i = 0;
            while i < l.len() {
                prove(l[i].logit == 299.0 - i as f32 && (l[i].token_id as usize * 67) % 300 == 299 - i, LONG);
                i += 1;
            }
        }
        vm::reached("sampled");
    }

// C41: what locally typical and tail free keep, against the definition of their scores
pub mod c41 {
    use super::*;
    pub fn locally_typical() {
        let (p, m) = (vm::any_f32(), vm::any_usize());
        let mut l = current_logits();
        let n = l.len();
        let mut o = l.clone();
        let mut res = any_res();
        let ok = SampleLocallyTypical::new(p, m).sample(&mut res, &mut l).is_ok();
        if ok && n > 0 {
            let _ = o.ensure_softmax();
            let mut entropy = 0f32;
            for c in o.iter() {
                if c.prob > 0f32 {
                    entropy -= c.prob * c.prob.ln();
                }
            }
            let off = |c: &Logit| (-c.prob.ln() - entropy).abs();
            let kept = l.len();
            let floor = most(1, m);
            let mut sum = 0f32;
            for i in 0..kept {
                if i > 0 {
                    prove(off(&l[i - 1]) <= off(&l[i]), "survivors come in order of the distance of their surprise from the entropy");
                    if i >= floor {
                        prove(sum <= p, "no shorter admissible selection exceeds p");
                    }
                }
                sum += l[i].prob;
            }
            if kept < n {
                prove(sum > p, "a cut selection exceeds p");
                prove(kept >= floor, "a cut selection has at least min_keep candidates");
                // nothing that is dropped is closer than what is kept
                let mut closer = 0;
                for c in o.iter() {
                    if kept > 0 && off(c) < off(&l[kept - 1]) {
                        closer += 1;
                    }
                }
                prove(closer < kept, "no dropped candidate is closer than a kept one");
            }
        }
        vm::reached("sampled");
    }
    pub fn tail_free() {
        // second differences only compete with each other from four candidates on
        vm::depth(4);
        let (z, m) = (vm::any_f32(), vm::any_usize());
        let mut l = current_logits();
        let n = l.len();
        let mut o = l.clone();
        let mut res = any_res();
        let ok = SampleTailFree::new(z, m).sample(&mut res, &mut l).is_ok();
        if ok {
            let kept = l.len();
            if z >= 1f32 || n <= 2 {
                prove(kept == n, "nothing is dropped of up to two candidates, or for z of one");
            } else {
                let _ = o.ensure_softmax();
                let mut bend = Vec::new();
                let mut total = 0f32;
                for i in 0..n - 2 {
                    let d = ((o[i].prob - o[i + 1].prob) - (o[i + 1].prob - o[i + 2].prob)).abs();
                    total += d;
                    bend.push(d);
                }
                if total > 0f32 {
                    let mut sum = 0f32;
                    for i in 0..n - 2 {
                        sum += bend[i] / total;
                        if i < kept && i >= m {
                            prove(sum <= z, "no earlier admissible cut: the bend does not exceed z there");
                        }
                        if i == kept {
                            prove(sum > z, "the bend exceeds z where the list is cut");
                        }
                    }
                    prove(kept == n || kept >= m && kept < n - 2, "a cut list has at least min_keep candidates");
                }
            }
        }
        vm::reached("sampled");
    }
    pub fn long_locally_typical() {
        if !long(600, LONG) {
            return;
        }
        let (p, x) = (vm::any_f32(), vm::any_f32());
        let mut l = long_current(512, |i| (x, 1.0 / 512.0));
        let ok = SampleLocallyTypical::new(p, 1).sample(&mut res_with(Vec::new()), &mut l).is_ok();
        prove(ok, "succeeds");
        let kept = l.len();
        prove(kept >= 1 && kept <= 512, LONG);
        if kept < 512 {
            prove(kept as f32 / 512.0 > p, LONG);
        }
        if kept > 1 {
            prove((kept - 1) as f32 / 512.0 <= p, LONG);
        }
        prove(l[kept - 1].token_id as usize == kept - 1 && l[kept - 1].logit == x, LONG);
        vm::reached("sampled");
    }
    pub fn long_tail_free() {
        if !long(600, LONG) {
            return;
        }
        let z = vm::any_f32();
        assume(z < 1.0);
        // all second differences are alike
        let mut l = long_current(514, |i| (600.0 - i as f32, ((514 - i) * (514 - i)) as f32 / 67108864.0));
        let ok = SampleTailFree::new(z, 0).sample(&mut res_with(Vec::new()), &mut l).is_ok();
        prove(ok, "succeeds");
        let kept = l.len();
        if kept < 514 {
            prove((kept + 1) as f32 / 512.0 > z, LONG);
        }
        if kept > 0 && kept < 514 {
            prove(kept as f32 / 512.0 <= z, LONG);
        }
        vm::reached("sampled");
    }
}

// C46
each_of! { c46, again;
    top_k = SampleTopK::new(vm::any_usize(), vm::any_usize());
    top_p = SampleTopP::new(vm::any_f32(), vm::any_usize());
    top_a = SampleTopA::new(vm::any_f32(), vm::any_f32(), vm::any_usize());
    min_p = SampleMinP::new(vm::any_f32(), vm::any_usize());
    tail_free = SampleTailFree::new(vm::any_f32(), vm::any_usize());
    locally_typical = SampleLocallyTypical::new(vm::any_f32(), vm::any_usize());
}
