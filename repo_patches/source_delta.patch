From 4750ddd5c1bd68516ceab5c97f7617202ec05903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:37 +0000
Subject: [PATCH 01/13] fix: tail free sampling of exactly two logits is a
 no-op, not an error

With two logits there are no second derivatives; the loop still asked for one
and failed with "Impossible: missing next deriv item?".
---
 src/samplers/tail_free.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/tail_free.rs b/src/samplers/tail_free.rs
index 230c56a..7abcb95 100644
--- a/src/samplers/tail_free.rs
+++ b/src/samplers/tail_free.rs
@@ -54,7 +54,7 @@ impl Sampler for SampleTailFree {
 
         let Self { z, min_keep } = *self;
 
-        if z >= 1f32 || logits.len() < 2 {
+        if z >= 1f32 || logits.len() <= 2 {
             return Ok(logits);
         }
 
-- 
2.43.0


From 532024a095b16f80872127b9a83a8424d67a991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:37 +0000
Subject: [PATCH 02/13] fix: mirostat 2 keeps every candidate when none exceeds
 mu

When no candidate is more surprising than mu, nothing should be truncated, but
unwrap_or_default() truncated to a single candidate.
---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index ae78bf2..764a625 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -326,7 +326,7 @@ impl Sampler for SampleMirostat2 {
             .iter()
             .enumerate()
             .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
-            .unwrap_or_default()
+            .unwrap_or(logits.len())
             .max(1);
         if new_size != logits.len() {
             logits.truncate(new_size);
-- 
2.43.0


From 3745a14481565771aacfd55f99d7f86a4eceb6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:37 +0000
Subject: [PATCH 03/13] fix: locally typical sampling accepts candidates with
 zero probability

0 * ln(0) is NaN, so one forbidden (-inf) or underflowed candidate made the
entropy NaN and the comparison fail with "Impossible: logit comparison failed?".
The entropy term of a zero probability is zero.
---
 src/samplers/locally_typical.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index df0ef2c..bc19294 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -69,6 +69,7 @@ impl Sampler for SampleLocallyTypical {
 
         let ent = logits
             .iter()
+            .filter(|l| l.prob > 0f32)
             .fold(0f32, |ent, l| ent + -l.prob * l.prob.ln());
 
         let mut shifted = logits
-- 
2.43.0


From 954db3460a1bdc65b3f3744308facdd7b76927e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:38 +0000
Subject: [PATCH 04/13] fix: negative temperature no longer leaves reversed
 logits flagged sorted

---
 src/samplers/temperature.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplers/temperature.rs b/src/samplers/temperature.rs
index f2f1127..f981a90 100644
--- a/src/samplers/temperature.rs
+++ b/src/samplers/temperature.rs
@@ -41,6 +41,10 @@ impl Sampler for SampleTemperature {
         let temp = self.temperature;
         if temp != 0f32 {
             logits.iter_mut().for_each(|l| l.logit /= temp);
+            if temp < 0f32 {
+                // Dividing by a negative value reverses the order.
+                logits.set_sorted(false);
+            }
             logits.set_softmax(false);
         }
         Ok(logits)
-- 
2.43.0


From 9dae6b35297913fe9c58451089dd682e7eab4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:38 +0000
Subject: [PATCH 05/13] fix: ensure_softmax sorts unsorted logits instead of
 just flagging them sorted

---
 src/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 69c3df6..b95bcad 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -246,11 +246,14 @@ impl Logits {
 
     /// Ensure the softmax function has been applied to the [Logits].
     pub fn ensure_softmax(&mut self) -> Result<&mut Self> {
-        if self.is_empty() || self.has_softmax {
+        if self.is_empty() {
             self.has_softmax = true;
             self.sorted = true;
             return Ok(self);
         }
+        if self.has_softmax {
+            return self.ensure_sorted();
+        }
         self.ensure_sorted()?;
         let max_l = self[0].logit;
         let cum_sum = self.iter_mut().fold(0f32, |cs, l| {
-- 
2.43.0


From 17c42058bcb3424d245e471ad7a2e328beba0662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:38 +0000
Subject: [PATCH 06/13] fix: top-a sampler reports its own name, not top-p

---
 src/samplers/top_a.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/top_a.rs b/src/samplers/top_a.rs
index 63942fc..1e0e894 100644
--- a/src/samplers/top_a.rs
+++ b/src/samplers/top_a.rs
@@ -93,7 +93,7 @@ impl ConfigurableSampler<usize, L> for SampleTopA {}
 impl HasSamplerMetadata<usize, L> for SampleTopA {
     fn sampler_metadata(&self) -> SamplerMetadata {
         SamplerMetadata {
-            name: "top-p",
+            name: "top-a",
             description: Some(concat!(
                 "This sampler prunes tokens that don't meet a threshold based",
                 " on the most probable token. The formula is `a1 * pow(max_prob, a2)`",
-- 
2.43.0


From 92a89f7e40314f5408a6833e44a7d2001b1f955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 07/13] fix: boxed and shared samplers forward sample_prepend

The wrappers fell back to the no-op default, so a chain of boxed samplers never
ran the prepend step of its members.
---
 src/configure/building.rs |  4 ++++
 src/types.rs              | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/configure/building.rs b/src/configure/building.rs
index da45e69..5e5e987 100644
--- a/src/configure/building.rs
+++ b/src/configure/building.rs
@@ -40,6 +40,10 @@ where
 }
 
 impl<UI, F> Sampler for Box<dyn BuildableSampler<UI, F>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
diff --git a/src/types.rs b/src/types.rs
index b95bcad..52bf700 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -318,6 +318,10 @@ pub trait Sampler: Debug + Send + Sync {
 }
 
 impl Sampler for Box<dyn Sampler> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
@@ -340,6 +344,12 @@ impl Sampler for Box<dyn Sampler> {
 }
 
 impl Sampler for Arc<Mutex<dyn Sampler>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        if let Ok(sampler) = self.lock() {
+            sampler.sample_prepend(res)
+        }
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         self.lock().ok()?.sampled_token_id()
     }
-- 
2.43.0


From c0fc7f249b632c2a4d35bfbea4afe34e4b8c3d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 08/13] fix: an exact option key is never ambiguous

The `m` option of the Mirostat 1 sampler could not be read, set or configured at
all, since `m` is also a prefix of `mu`.
---
 src/configure/metadata.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/configure/metadata.rs b/src/configure/metadata.rs
index dfdf698..f14937c 100644
--- a/src/configure/metadata.rs
+++ b/src/configure/metadata.rs
@@ -71,6 +71,12 @@ impl<T> SamplerOptions<T> {
         key: &str,
     ) -> Result<(SamplerOptionMetadata, Option<usize>)> {
         let key = key.trim();
+        // An exact match wins over options the key is merely a prefix of.
+        if let Some((idx, (omd, acc))) =
+            self.iter().enumerate().find(|(_idx, (omd, _acc))| omd.key == key)
+        {
+            return Ok((omd.clone(), acc.is_some().then_some(idx)));
+        }
         let mut it = self.iter().enumerate().filter(|&(_idx, (omd, _acc))| omd.key
                 .starts_with(key)).map(|(idx, (omd, acc))| (omd.clone(), acc.is_some().then_some(idx)));
         let Some((optdef, optidx)) = it.next() else {
-- 
2.43.0


From 1662ae519388c1b573d5859fb880b8e2b2c61972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 09/13] fix: huge sequence repetition settings no longer
 overflow

---
 src/samplers/sequence_repetition.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index b97df01..dcfba11 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -122,7 +122,7 @@ fn find_seqs<T: PartialEq + Copy + std::fmt::Debug>(
     max_merge: usize,
 ) -> Vec<SeqMatchResult<'_, T>> {
     let seqlen = seq.len();
-    if seqlen < min_len * 2 {
+    if seqlen < min_len.saturating_mul(2) {
         return Vec::default();
     }
 
@@ -189,7 +189,7 @@ fn fuzzy_match<T: PartialEq + std::fmt::Debug>(
             break;
         }
         tolerance -= 1;
-        window = merge_limit + 1;
+        window = merge_limit.saturating_add(1);
     }
 
     result
@@ -220,7 +220,7 @@ impl Sampler for SampleSeqRepetition {
         let mut penalize: HashMap<TID, usize> = HashMap::with_capacity(64);
 
         res.with_last_tokens(&mut |orig_tokens| {
-            if orig_tokens.len() < min_length * 2 {
+            if orig_tokens.len() < min_length.saturating_mul(2) {
                 return;
             }
             let tokens = if last_n > orig_tokens.len() {
-- 
2.43.0


From 8d1a94308bf3399bb47b828f73f391d0fab3f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:40 +0000
Subject: [PATCH 10/13] fix: try_from_iter_top_k does not preallocate k entries

A k larger than the available memory panicked with a capacity overflow or
aborted, even for a handful of logits.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 52bf700..dca13db 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -170,7 +170,7 @@ impl Logits {
             logits: (0u32..)
                 .zip(it)
                 .filter(|(_tid, logit)| logit.is_finite())
-                .fold(Vec::with_capacity(k), |mut logits, (tid, logit)| {
+                .fold(Vec::new(), |mut logits, (tid, logit)| {
                     if logits.len() == k {
                         // The Vec is guaranteed not to be empty at this point.
                         if logit > unsafe { logits.last().unwrap_unchecked().logit } {
-- 
2.43.0


From a97b88fdbd5638320d3262566edd552a1253f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 11/13] fix: a failed chain run reports no token of an earlier
 sampler

---
 src/chain.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chain.rs b/src/chain.rs
index 8c2c8db..5629750 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -47,6 +47,7 @@ impl Sampler for SamplerChain {
         self.samplers
             .iter_mut()
             .try_fold(logits, |logits, sampler| {
+                self.token = None;
                 let new_logits = sampler.sample(res, logits)?;
                 self.token = sampler.sampled_token_id();
                 Ok(new_logits)
-- 
2.43.0


From 8e42e088e2e24165adeb2b61ded76cb1c86fdeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 12/13] fix: mirostat 1 estimates k as its paper says

---
 src/samplers/mirostat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index 764a625..c553a27 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -134,7 +134,7 @@ impl Sampler for SampleMirostat1 {
                 .take((m - 1).min(logits.len() - 1))
                 .fold((0f32, 0f32), |(sum_ti_bi, sum_ti_sq), (l, l_next)| {
                     let t_i = ((idx + 2f32) / (idx + 1f32)).ln();
-                    let b_i = l.prob / l_next.prob;
+                    let b_i = (l.prob / l_next.prob).ln();
                     let result = (sum_ti_bi + t_i * b_i, sum_ti_sq + t_i * t_i);
                     idx += 1f32;
                     result
@@ -142,8 +142,7 @@ impl Sampler for SampleMirostat1 {
         };
         let s_hat = sum_ti_bi / sum_ti_sq;
         let epsilon_hat = s_hat - 1f32;
-        let k =
-            (epsilon_hat * mu.powf(2f32) / 1f32 - n_vocab.powf(-epsilon_hat)).powf(1f32 / s_hat);
+        let k = ((epsilon_hat * 2f32.powf(mu)) / (1f32 - n_vocab.powf(-epsilon_hat))).powf(1f32 / s_hat);
         logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;
 
         if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {
-- 
2.43.0


From 97f167b09ba80e6ee612aef9f4f9bfcc41056a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 13/13] fix: sequence repetition merges no more tokens than
 max_merge says

---
 src/samplers/sequence_repetition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index dcfba11..03cadd2 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -189,7 +189,7 @@ fn fuzzy_match<T: PartialEq + std::fmt::Debug>(
             break;
         }
         tolerance -= 1;
-        window = merge_limit.saturating_add(1);
+        window = merge_limit.max(1);
     }
 
     result
-- 
2.43.0

