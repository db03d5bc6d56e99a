S="src/samplers/"
C="src/configure/"
ENS='''        logits.ensure_softmax().map_err(|e| {
            SamplerError::InternalError(format!("Failed to ensure softmax before sampling: {}", e))
        })?;
'''
REF=[
dict(id="r01_top_k", edits=[(S+"top_k.rs",'''        let k = self.k.max(self.min_keep).min(logits.len());
        logits.ensure_sorted().map_err(|e| {
            SamplerError::InternalError(format!("Failed to ensure sorted: {}", e.to_string()))
        })?;
        if k != logits.len() {
            logits.truncate(k);
            logits.set_softmax(false);
        }
        Ok(logits)''','''        let wanted = std::cmp::max(self.k, self.min_keep);
        logits.ensure_sorted().map_err(sort_failed)?;
        if wanted < logits.len() {
            logits.set_softmax(false);
            logits.truncate(wanted);
        }
        Ok(logits)'''),(S+"top_k.rs","impl Sampler for SampleTopK {",'''fn sort_failed(e: anyhow::Error) -> SamplerError {
    SamplerError::InternalError(format!("Failed to ensure sorted: {}", e))
}

impl Sampler for SampleTopK {''')]),
dict(id="r02_top_p_for", edits=[(S+"top_p.rs",'''        let mut cum_sum = 0f32;
        let last_idx =
            match logits
                .iter()
                .enumerate()
                .try_fold(logits.len(), |last_idx, (idx, logit)| {
                    cum_sum += logit.prob;
                    if cum_sum >= p && idx + 1 >= min_keep {
                        return Break(idx + 1);
                    }
                    Continue(last_idx)
                }) {
                Continue(i) => i,
                Break(i) => i,
            };
''','''        let mut cum_sum = 0f32;
        let mut last_idx = logits.len();
        for (idx, logit) in logits.iter().enumerate() {
            cum_sum += logit.prob;
            if cum_sum >= p && idx + 1 >= min_keep {
                last_idx = idx + 1;
                break;
            }
        }
'''),(S+"top_p.rs","        use std::ops::ControlFlow::*;\n\n","")]),
dict(id="r03_top_p_scan", edits=[(S+"top_p.rs",'''        let mut cum_sum = 0f32;
        let last_idx =
            match logits
                .iter()
                .enumerate()
                .try_fold(logits.len(), |last_idx, (idx, logit)| {
                    cum_sum += logit.prob;
                    if cum_sum >= p && idx + 1 >= min_keep {
                        return Break(idx + 1);
                    }
                    Continue(last_idx)
                }) {
                Continue(i) => i,
                Break(i) => i,
            };
''','''        let last_idx = cutoff(logits, p, min_keep);
'''),(S+"top_p.rs","        use std::ops::ControlFlow::*;\n\n",""),(S+"top_p.rs","impl Sampler for SampleTopP {",'''fn cutoff(logits: &Logits, p: L, min_keep: usize) -> usize {
    logits
        .iter()
        .scan(0f32, |cum_sum, logit| {
            *cum_sum += logit.prob;
            Some(*cum_sum)
        })
        .enumerate()
        .find(|(idx, cum_sum)| *cum_sum >= p && idx + 1 >= min_keep)
        .map_or(logits.len(), |(idx, _)| idx + 1)
}

impl Sampler for SampleTopP {''')]),
dict(id="r04_top_p_while", edits=[(S+"top_p.rs",'''        let mut cum_sum = 0f32;
        let last_idx =
            match logits
                .iter()
                .enumerate()
                .try_fold(logits.len(), |last_idx, (idx, logit)| {
                    cum_sum += logit.prob;
                    if cum_sum >= p && idx + 1 >= min_keep {
                        return Break(idx + 1);
                    }
                    Continue(last_idx)
                }) {
                Continue(i) => i,
                Break(i) => i,
            };
''','''        let total = logits.len();
        let mut cum_sum = 0f32;
        let mut last_idx = 0;
        while last_idx < total {
            cum_sum += logits[last_idx].prob;
            last_idx += 1;
            if cum_sum >= p && last_idx >= min_keep {
                break;
            }
        }
'''),(S+"top_p.rs","        use std::ops::ControlFlow::*;\n\n","")]),
dict(id="r05_min_p_position", edits=[(S+"min_p.rs",'''        let last_idx = logits
            .iter()
            .enumerate()
            .skip(1.max(min_keep))
            .find(|(_, l)| l.prob < threshold)
            .map(|(idx, _)| idx)
            .unwrap_or_else(|| logits.len());
''','''        let start = min_keep.max(1);
        let last_idx = logits[start..]
            .iter()
            .position(|l| l.prob < threshold)
            .map_or(logits.len(), |offset| start + offset);
''')]),
dict(id="r06_min_p_loop", edits=[(S+"min_p.rs",'''        let last_idx = logits
            .iter()
            .enumerate()
            .skip(1.max(min_keep))
            .find(|(_, l)| l.prob < threshold)
            .map(|(idx, _)| idx)
            .unwrap_or_else(|| logits.len());
        if last_idx != logits.len() {
            logits.truncate(last_idx);
            logits.set_softmax(false);
        }
        Ok(logits)''','''        let start = if min_keep > 1 { min_keep } else { 1 };
        for idx in start..logits.len() {
            if logits[idx].prob < threshold {
                logits.truncate(idx);
                logits.set_softmax(false);
                break;
            }
        }
        Ok(logits)''')]),
dict(id="r07_shared_threshold", edits=[(S+"min_p.rs",'''        let last_idx = logits
            .iter()
            .enumerate()
            .skip(1.max(min_keep))
            .find(|(_, l)| l.prob < threshold)
            .map(|(idx, _)| idx)
            .unwrap_or_else(|| logits.len());
        if last_idx != logits.len() {
            logits.truncate(last_idx);
            logits.set_softmax(false);
        }
        Ok(logits)''','''        logits.cut_below(threshold, min_keep);
        Ok(logits)'''),(S+"top_a.rs",'''        let last_idx = logits
            .iter()
            .enumerate()
            .skip(1.max(min_keep))
            .find(|(_, l)| l.prob < threshold)
            .map(|(idx, _)| idx)
            .unwrap_or_else(|| logits.len());
        if last_idx != logits.len() {
            logits.truncate(last_idx);
            logits.set_softmax(false);
        }
        Ok(logits)''','''        logits.cut_below(threshold, min_keep);
        Ok(logits)'''),("src/types.rs",'''    pub fn ensure_sorted(''','''    pub(crate) fn cut_below(&mut self, threshold: L, min_keep: usize) {
        let keep = self
            .logits
            .iter()
            .enumerate()
            .skip(min_keep.max(1))
            .find_map(|(idx, l)| (l.prob < threshold).then_some(idx));
        if let Some(keep) = keep {
            self.logits.truncate(keep);
            self.has_softmax = false;
        }
    }

    pub fn ensure_sorted(''')]),
dict(id="r08_top_a_while", edits=[(S+"top_a.rs",'''        let last_idx = logits
            .iter()
            .enumerate()
            .skip(1.max(min_keep))
            .find(|(_, l)| l.prob < threshold)
            .map(|(idx, _)| idx)
            .unwrap_or_else(|| logits.len());
''','''        let mut last_idx = min_keep.max(1);
        while last_idx < logits.len() && logits[last_idx].prob >= threshold {
            last_idx += 1;
        }
''')]),
dict(id="r09_tail_free", edits=[(S+"tail_free.rs",open("/repo/"+S+"tail_free.rs").read().split("        let mut fderivs")[1].split("        if last_idx != logits.len()")[0],None)]),
dict(id="r10_typical", edits=[(S+"locally_typical.rs",'''        let min_keep = if min_keep == 0 { 0 } else { min_keep - 1 };
''','''        let min_keep = min_keep.saturating_sub(1);
'''),(S+"locally_typical.rs",'''        let ent = logits
            .iter()
            .filter(|l| l.prob > 0f32)
            .fold(0f32, |ent, l| ent + -l.prob * l.prob.ln());
''','''        let mut ent = 0f32;
        for l in logits.iter() {
            if l.prob > 0f32 {
                ent += -l.prob * l.prob.ln();
            }
        }
'''),(S+"locally_typical.rs",'''        let last_idx = match shifted.iter().enumerate().try_fold(
            shifted.len(),
            |last_idx, (idx, (logit, _score))| {
                cum_sum += logit.prob;
                if cum_sum > p && idx >= min_keep {
                    return Break(idx + 1);
                }
                Continue(last_idx)
            },
        ) {
            Continue(i) => i,
            Break(i) => i,
        };
''','''        let mut last_idx = shifted.len();
        for (idx, (logit, _score)) in shifted.iter().enumerate() {
            cum_sum += logit.prob;
            if cum_sum > p && idx >= min_keep {
                last_idx = idx + 1;
                break;
            }
        }
'''),(S+"locally_typical.rs","        use std::ops::ControlFlow::*;\n\n",""),(S+"locally_typical.rs",'''        shifted
            .into_iter()
            .take(last_idx)
            .for_each(|(logit, _score)| logits.push(logit));
''','''        shifted.truncate(last_idx);
        logits.extend(shifted.into_iter().map(|(logit, _score)| logit));
''')]),
dict(id="r11_temperature", edits=[(S+"temperature.rs",'''        let temp = self.temperature;
        if temp != 0f32 {
            logits.iter_mut().for_each(|l| l.logit /= temp);
            if temp < 0f32 {
                // Dividing by a negative value reverses the order.
                logits.set_sorted(false);
            }
            logits.set_softmax(false);
        }
        Ok(logits)''','''        let Self { temperature } = *self;
        if temperature == 0f32 {
            return Ok(logits);
        }
        logits.set_softmax(false);
        if temperature < 0f32 {
            logits.set_sorted(false);
        }
        for l in logits.iter_mut() {
            l.logit = l.logit / temperature;
        }
        Ok(logits)''')]),
dict(id="r12_flat_bias", edits=[(S+"flat_bias.rs",'''        let bi = self.bias.iter();
        let mut changed = 0;

        logits.iter_mut().for_each(|l| {
            if let Some((_tid, bv)) = bi.clone().find(|(tid, _bv)| tid == &l.token_id) {
                l.logit += bv;
                changed += 1;
            }
        });
        if changed > 0 {''','''        let mut changed = false;
        for l in logits.iter_mut() {
            for &(tid, bv) in self.bias.iter() {
                if tid == l.token_id {
                    l.logit += bv;
                    changed = true;
                    break;
                }
            }
        }
        if changed {''')]),
dict(id="r13_flat_bias_helper", edits=[(S+"flat_bias.rs",'''        let bi = self.bias.iter();
        let mut changed = 0;

        logits.iter_mut().for_each(|l| {
            if let Some((_tid, bv)) = bi.clone().find(|(tid, _bv)| tid == &l.token_id) {
                l.logit += bv;
                changed += 1;
            }
        });
        if changed > 0 {''','''        if self.bias.is_empty() || logits.is_empty() {
            return Ok(logits);
        }
        let mut changed = false;
        for idx in 0..logits.len() {
            let Some(bias) = self.bias_of(logits[idx].token_id) else {
                continue;
            };
            logits[idx].logit += bias;
            changed = true;
        }
        if changed {'''),(S+"flat_bias.rs","impl Sampler for SampleFlatBias {",'''impl SampleFlatBias {
    fn bias_of(&self, token_id: TID) -> Option<L> {
        self.bias
            .iter()
            .find(|(tid, _)| *tid == token_id)
            .map(|(_, bias)| *bias)
    }
}

impl Sampler for SampleFlatBias {''')]),
dict(id="r14_repetition", edits=[(S+"repetition.rs",'''        let mut changed = 0;
        res.with_last_tokens(&mut |tokens| {
            let tokens = if last_n > tokens.len() {
                tokens
            } else {
                &tokens[tokens.len() - last_n..]
            };

            logits
                .iter_mut()
                .filter(|l| tokens.contains(&l.token_id))
                .for_each(|l| {
                    l.logit = if l.logit <= 0f32 {
                        l.logit * repetition_penalty
                    } else {
                        l.logit / repetition_penalty
                    };
                    changed += 1;
                });
        })?;

        if changed > 0 {''','''        let mut changed = false;
        res.with_last_tokens(&mut |tokens| {
            let window = &tokens[tokens.len().saturating_sub(last_n)..];
            for l in logits.iter_mut() {
                if !window.contains(&l.token_id) {
                    continue;
                }
                l.logit = penalised(l.logit, repetition_penalty);
                changed = true;
            }
        })?;

        if changed {'''),(S+"repetition.rs","impl Sampler for SampleRepetition {",'''fn penalised(logit: L, penalty: L) -> L {
    if logit > 0f32 {
        logit / penalty
    } else {
        logit * penalty
    }
}

impl Sampler for SampleRepetition {''')]),
dict(id="r15_repetition_set", edits=[(S+"repetition.rs",'''            logits
                .iter_mut()
                .filter(|l| tokens.contains(&l.token_id))
                .for_each(|l| {
                    l.logit = if l.logit <= 0f32 {
                        l.logit * repetition_penalty
                    } else {
                        l.logit / repetition_penalty
                    };
                    changed += 1;
                });
''','''            let seen: std::collections::HashSet<TID> = tokens.iter().copied().collect();
            for l in logits.iter_mut() {
                if seen.contains(&l.token_id) {
                    if l.logit <= 0f32 {
                        l.logit *= repetition_penalty;
                    } else {
                        l.logit /= repetition_penalty;
                    }
                    changed += 1;
                }
            }
''')]),
dict(id="r16_freq", edits=[(S+"freq_presence.rs",'''            let tokens = if last_n > orig_tokens.len() {
                orig_tokens
            } else {
                &orig_tokens[orig_tokens.len() - last_n..]
            };
            counts.reserve(tokens.len());
            tokens.iter().copied().for_each(|tid| {
                let cnt = counts.entry(tid).or_insert(0f32);
                *cnt += 1f32
            });
''','''            let start = orig_tokens.len().saturating_sub(last_n);
            for &tid in &orig_tokens[start..] {
                *counts.entry(tid).or_default() += 1f32;
            }
'''),(S+"freq_presence.rs",'''        logits.iter_mut().for_each(|l| {
            let Some(cnt) = counts.get(&l.token_id) else {
                return;
            };
            if cnt > &0.0 {
                l.logit -= *cnt * frequency_penalty
                    + if cnt > &0f32 { 1f32 } else { 0f32 } * presence_penalty;
                changed += 1;
            }
        });
''','''        for l in logits.iter_mut() {
            if let Some(&cnt) = counts.get(&l.token_id) {
                l.logit -= cnt * frequency_penalty + presence_penalty;
                changed += 1;
            }
        }
''')]),
dict(id="r17_freq_int", edits=[(S+"freq_presence.rs",'''        let mut counts = HashMap::<TID, L>::default();''','''        let mut counts: HashMap<TID, usize> = HashMap::new();'''),(S+"freq_presence.rs",'''                let cnt = counts.entry(tid).or_insert(0f32);
                *cnt += 1f32
''','''                counts.entry(tid).and_modify(|c| *c += 1).or_insert(1);
'''),(S+"freq_presence.rs",'''            if cnt > &0.0 {
                l.logit -= *cnt * frequency_penalty
                    + if cnt > &0f32 { 1f32 } else { 0f32 } * presence_penalty;
                changed += 1;
            }
''','''            l.logit -= *cnt as L * frequency_penalty + presence_penalty;
            changed += 1;
''')]),
dict(id="r18_seq", edits=[(S+"sequence_repetition.rs",'''            let Some(idx) = logits
                .iter()
                .enumerate()
                .find(|(_, l)| l.token_id == tid)
                .map(|(idx, _)| idx)
            else {
                continue;
            };

            let seqlen = seqlen as L;
            let l = &mut logits[idx].logit;

            *l -=
                seqlen * stacking_penalty + if seqlen > 0f32 { 1f32 } else { 0f32 } * flat_penalty;
            changed += 1;
''','''            if let Some(candidate) = logits.iter_mut().find(|l| l.token_id == tid) {
                let seqlen = seqlen as L;
                candidate.logit -= seqlen * stacking_penalty
                    + if seqlen > 0f32 { 1f32 } else { 0f32 } * flat_penalty;
                changed += 1;
            }
'''),(S+"sequence_repetition.rs",'''            find_seqs(tokens, self.min_length, self.tolerance, self.max_merge)
                .into_iter()
                .filter(|mi| !mi.seq.is_empty())
                .for_each(|mi| {
                    let seqlen = mi.seq.len();
                    penalize
                        .entry(mi.seq[seqlen - 1])
                        .and_modify(|prevseqlen| *prevseqlen = (*prevseqlen).max(seqlen))
                        .or_insert(seqlen);
                });
''','''            for mi in find_seqs(tokens, min_length, self.tolerance, self.max_merge) {
                let Some(&last) = mi.seq.last() else { continue };
                let seqlen = mi.seq.len();
                let longest = penalize.entry(last).or_insert(seqlen);
                *longest = (*longest).max(seqlen);
            }
''')]),
dict(id="r19_greedy", edits=[(S+"greedy.rs",'''        if logits.is_empty() {
            self.token_id = None;
            return Ok(logits);
        }

        self.token_id = if logits.get_sorted() {
            logits.first()
        } else {
            logits
                .iter()
                .filter(|l| !l.logit.is_nan())
                .max_by(|x, y| x.logit.total_cmp(&y.logit))
        }
        .map(|l| l.token_id);
''','''        let mut best: Option<&Logit> = None;
        if logits.get_sorted() {
            best = logits.first();
        } else {
            for l in logits.iter().filter(|l| !l.logit.is_nan()) {
                best = match best {
                    Some(b) if b.logit.total_cmp(&l.logit).is_gt() => Some(b),
                    _ => Some(l),
                };
            }
        }
        self.token_id = best.map(|l| l.token_id);
''')]),
dict(id="r20_rand", edits=[(S+"rand_distrib.rs",'''        let dist = WeightedIndex::new(logits.iter().map(|l| l.prob))
            .map_err(SamplerError::RandWeightedError)?;
        res.with_rng_mut(&mut |r| {
            self.token_id = Some(logits[dist.sample(r)].token_id);
        })?;
        Ok(logits)''','''        let weights: Vec<L> = logits.iter().map(|l| l.prob).collect();
        let dist = WeightedIndex::new(&weights).map_err(SamplerError::RandWeightedError)?;
        let mut picked = None;
        res.with_rng_mut(&mut |r| picked = Some(dist.sample(r)))?;
        self.token_id = picked.map(|idx| logits[idx].token_id);
        Ok(logits)''')]),
dict(id="r21_mirostat", edits=[(S+"mirostat.rs",'''        let new_size = logits
            .iter()
            .enumerate()
            .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
            .unwrap_or(logits.len())
            .max(1);
        if new_size != logits.len() {
            logits.truncate(new_size);
            logits.set_softmax(false);
        }
''','''        let new_size = logits
            .iter()
            .position(|l| -l.prob.log2() > mu)
            .map_or(logits.len(), |idx| idx.max(1));
        if new_size < logits.len() {
            logits.truncate(new_size);
            logits.set_softmax(false);
        }
'''),(S+"mirostat.rs",'''            let logit = logits.iter().find(|l| l.token_id == tid).ok_or_else(|| {
                SamplerError::InternalError(String::from("Impossible: sample token not in logits?"))
            })?;

            self.mu -= eta * (-logit.prob.log2() - tau);
            self.token = Some(tid);
''','''            let surprise = surprise_of(logits, tid)?;
            self.mu -= eta * (surprise - tau);
            self.token = Some(tid);
''',2),(S+"mirostat.rs","impl Sampler for SampleMirostat1 {",'''fn surprise_of(logits: &Logits, tid: TID) -> Result<L, SamplerError> {
    for l in logits.iter() {
        if l.token_id == tid {
            return Ok(-l.prob.log2());
        }
    }
    Err(SamplerError::InternalError(String::from(
        "Impossible: sample token not in logits?",
    )))
}

impl Sampler for SampleMirostat1 {'''),(S+"mirostat.rs",'''        let (sum_ti_bi, sum_ti_sq) = {
            let mut idx = 0f32;
            logits
                .iter()
                .zip(logits.iter().skip(1))
                .take((m - 1).min(logits.len() - 1))
                .fold((0f32, 0f32), |(sum_ti_bi, sum_ti_sq), (l, l_next)| {
                    let t_i = ((idx + 2f32) / (idx + 1f32)).ln();
                    let b_i = l.prob / l_next.prob;
                    let result = (sum_ti_bi + t_i * b_i, sum_ti_sq + t_i * t_i);
                    idx += 1f32;
                    result
                })
        };
''','''        let (mut sum_ti_bi, mut sum_ti_sq) = (0f32, 0f32);
        for i in 0..(m - 1).min(logits.len() - 1) {
            let idx = i as f32;
            let t_i = ((idx + 2f32) / (idx + 1f32)).ln();
            let b_i = logits[i].prob / logits[i + 1].prob;
            sum_ti_bi += t_i * b_i;
            sum_ti_sq += t_i * t_i;
        }
''')]),
dict(id="r22_types", edits=[("src/types.rs",'''        let mut tid = 0;
        Ok(Self {
            sorted: false,
            has_softmax: false,
            logits: it
                .into_iter()
                .enumerate()
                .map(|(idx, logit)| {
                    if logit.is_nan() {
                        Err(LogitsError::InvalidLogit(idx))?
                    }
                    let result = Logit {
                        token_id: tid,
                        logit,
                        prob: 0f32,
                    };
                    tid += 1;
                    Ok(result)
                })
                .collect::<Result<Vec<_>, LogitsError>>()?,
        })''','''        let mut logits = Vec::new();
        for (idx, logit) in it.into_iter().enumerate() {
            if logit.is_nan() {
                return Err(LogitsError::InvalidLogit(idx));
            }
            logits.push(Logit {
                token_id: idx as TID,
                logit,
                prob: 0f32,
            });
        }
        Ok(Self {
            sorted: false,
            has_softmax: false,
            logits,
        })'''),("src/types.rs",'''        let cum_sum = self.iter_mut().fold(0f32, |cs, l| {
            l.prob = (l.logit - max_l).exp();
            cs + l.prob
        });
        self.iter_mut().for_each(|l| l.prob /= cum_sum);
''','''        let mut cum_sum = 0f32;
        for l in self.logits.iter_mut() {
            l.prob = (l.logit - max_l).exp();
            cum_sum += l.prob;
        }
        for l in self.logits.iter_mut() {
            l.prob /= cum_sum;
        }
''')]),
dict(id="r23_topk_build", edits=[("src/types.rs",'''        Ok(Logits {
            sorted: true,
            has_softmax: false,
            logits: (0u32..)
                .zip(it)
                .filter(|(_tid, logit)| logit.is_finite())
                .fold(Vec::new(), |mut logits, (tid, logit)| {
                    if logits.len() == k {
                        // The Vec is guaranteed not to be empty at this point.
                        if logit > unsafe { logits.last().unwrap_unchecked().logit } {
                            logits.truncate(k - 1);
                        } else {
                            return logits;
                        }
                    }
                    logits.insert(
                        logits.partition_point(|l| logit < l.logit),
                        Logit {
                            token_id: tid,
                            logit,
                            prob: 0f32,
                        },
                    );
                    logits
                }),
        })''','''        let mut logits: Vec<Logit> = Vec::new();
        for (idx, logit) in it.into_iter().enumerate() {
            if !logit.is_finite() {
                continue;
            }
            if logits.len() == k {
                match logits.last() {
                    Some(last) if logit > last.logit => {
                        logits.pop();
                    }
                    _ => continue,
                }
            }
            let at = logits.partition_point(|l| logit < l.logit);
            logits.insert(
                at,
                Logit {
                    token_id: idx as TID,
                    logit,
                    prob: 0f32,
                },
            );
        }
        Ok(Logits {
            sorted: true,
            has_softmax: false,
            logits,
        })''')]),
dict(id="r24_chain", edits=[("src/chain.rs",'''        self.samplers
            .iter_mut()
            .try_fold(logits, |logits, sampler| {
                self.token = None;
                let new_logits = sampler.sample(res, logits)?;
                self.token = sampler.sampled_token_id();
                Ok(new_logits)
            })''','''        let mut logits = logits;
        let mut token = None;
        for sampler in self.samplers.iter_mut() {
            logits = sampler.sample(res, logits)?;
            token = sampler.sampled_token_id();
        }
        self.token = token;
        Ok(logits)'''),("src/chain.rs",'''        self.samplers.iter().for_each(|sampler| {
            sampler.sample_prepend(res);
        });''','''        for sampler in &self.samplers {
            sampler.sample_prepend(res);
        }''')]),
dict(id="r25_resource", edits=[("src/resource.rs",'''        self.rng.as_mut().map_or_else(
            || Err(SamplerError::MissingResource("rng".to_string())),
            |rng| {
                fun(rng);
                Ok(())
            },
        )''','''        match self.rng.as_mut() {
            Some(rng) => {
                fun(rng);
                Ok(())
            }
            None => Err(missing("rng")),
        }'''),("src/resource.rs",'''        self.last_tokens.as_ref().map_or_else(
            || Err(SamplerError::MissingResource("last_tokens".to_string())),
            |lt| {
                fun(lt);
                Ok(())
            },
        )''','''        let Some(lt) = &self.last_tokens else {
            return Err(missing("last_tokens"));
        };
        fun(lt);
        Ok(())'''),("src/resource.rs",'''        self.last_tokens.as_mut().map_or_else(
            || Err(SamplerError::MissingResource("last_tokens".to_string())),
            |lt| {
                fun(lt);
                Ok(())
            },
        )''','''        let lt = self
            .last_tokens
            .as_mut()
            .ok_or_else(|| missing("last_tokens"))?;
        fun(lt);
        Ok(())'''),("src/resource.rs","impl HasSamplerResources for SimpleSamplerResources {",'''fn missing(what: &str) -> SamplerError {
    SamplerError::MissingResource(what.to_string())
}

impl HasSamplerResources for SimpleSamplerResources {''')]),
dict(id="r26_find_option", edits=[(C+"metadata.rs",open("/repo/"+C+"metadata.rs").read().split("        let mut it = self.iter().enumerate().filter")[1].split("        Ok((optdef.clone(), optidx))")[0],None)]),
dict(id="r27_configure", edits=[(C+"configurable.rs",'''        s.trim()
            .split(':')
            .map(str::trim)
            .filter(|s| !s.is_empty())
            .try_for_each(|kv| {
                let (k, v) = kv.split_once('=').unwrap_or(("", kv));
                let (omd, Some(_)) = opts.find_option_definition(k)? else {
                    Err(ConfigureSamplerError::UnknownOrBadType(k.to_string()))?
                };

                slf.set_option(
                    omd.key,
                    SamplerOptionValue::parse_value(omd.option_type, v.trim())?,
                )?;
                anyhow::Ok(())
            })?;
        Ok(())''','''        for part in s.split(':') {
            let kv = part.trim();
            if kv.is_empty() {
                continue;
            }
            let (k, v) = match kv.split_once('=') {
                Some((k, v)) => (k, v.trim()),
                None => ("", kv),
            };
            let (omd, idx) = opts.find_option_definition(k)?;
            if idx.is_none() {
                return Err(ConfigureSamplerError::UnknownOrBadType(k.to_string()).into());
            }
            let value = SamplerOptionValue::parse_value(omd.option_type, v)?;
            slf.set_option(omd.key, value)?;
        }
        Ok(())'''),(C+"configurable.rs",'''            if let (omd, Some(optidx)) = opts.find_option_definition(key)? {
                (omd, optidx)
            } else {
                Err(ConfigureSamplerError::CannotAccessOptionValue(
                    key.to_string(),
                ))?
            }
''','''            let (omd, optidx) = opts.find_option_definition(key)?;
            let optidx = optidx
                .ok_or_else(|| ConfigureSamplerError::CannotAccessOptionValue(key.to_string()))?;
            (omd, optidx)
''')]),
dict(id="r28_building", edits=[(C+"building.rs",'''        let (_, slot) = self
            .slots
            .iter_mut()
            .find(|(slotname, _slot)| slotname == name)
            .ok_or_else(|| BuildSamplersError::UnknownSlot(name.to_string()))?;

        match slot {''','''        let Some(idx) = self.slots.iter().position(|(slotname, _)| slotname == name) else {
            return Err(BuildSamplersError::UnknownSlot(name.to_string()).into());
        };

        match &mut self.slots[idx].1 {'''),(C+"building.rs",'''                if let Some(sampler) = sampler {
                    sampler.configure(s).map_err(cfgerr)?;
                } else {
                    let mut fresh = factory();
                    fresh.configure(s).map_err(cfgerr)?;
                    *sampler = Some(fresh);
                }
''','''                match sampler {
                    Some(sampler) => sampler.configure(s).map_err(cfgerr)?,
                    None => {
                        let mut fresh = factory();
                        fresh.configure(s).map_err(cfgerr)?;
                        let _ = sampler.replace(fresh);
                    }
                }
'''),(C+"building.rs",'''        self.slots.into_iter().for_each(|(_name, slot)| match slot {
            SamplerSlot::Static { mut factory } => chain += factory(),
            SamplerSlot::Single { sampler, .. } => {
                if let Some(sampler) = sampler {
                    chain += sampler
                }
            }
            SamplerSlot::Chain { samplers, .. } => {
                samplers.into_iter().for_each(|sampler| chain += sampler)
            }
        });
        chain''','''        for (_name, slot) in self.slots {
            match slot {
                SamplerSlot::Static { mut factory } => {
                    chain.push_sampler(factory());
                }
                SamplerSlot::Single {
                    sampler: Some(sampler),
                    ..
                } => {
                    chain.push_sampler(sampler);
                }
                SamplerSlot::Single { sampler: None, .. } => (),
                SamplerSlot::Chain { samplers, .. } => {
                    for sampler in samplers {
                        chain.push_sampler(sampler);
                    }
                }
            }
        }
        chain''')]),
dict(id="r29_value", edits=[(C+"value.rs",'''        Ok(u64::from_str(s.trim())?)''','''        let value = s.trim().parse::<u64>()?;
        Ok(value)'''),(C+"value.rs",'''        Ok(match s.trim() {
            "-inf" | "-INF" => f64::neg_infinity(),
            "inf" | "INF" | "+inf" | "+INF" => f64::infinity(),
            other => f64::from_str(other)?,
        })''','''        let s = s.trim();
        if s == "-inf" || s == "-INF" {
            return Ok(f64::NEG_INFINITY);
        }
        if matches!(s, "inf" | "INF" | "+inf" | "+INF") {
            return Ok(f64::INFINITY);
        }
        Ok(s.parse()?)'''),(C+"value.rs",'''            _ => Err(SamplerError::InternalError(
                "Bad boolean value in sampler option".to_string(),
            ))?,
        })''','''            _ => {
                return Err(SamplerError::InternalError(String::from(
                    "Bad boolean value in sampler option",
                ))
                .into())
            }
        })'''),(C+"value.rs",'''        Ok(Cow::Owned(s.trim().to_string()))''','''        Ok(s.trim().to_owned().into())''')]),
dict(id="r30_setters", edits=[(S+"top_k.rs",'''    pub fn min_keep(mut self, val: usize) -> Self {
        self.min_keep = val;
        self
    }''','''    pub fn min_keep(self, val: usize) -> Self {
        Self {
            min_keep: val,
            ..self
        }
    }'''),(S+"mirostat.rs",'''        self.tau = val;
        self.mu = val * (1f32 + 1f32);
        self''','''        (self.tau, self.mu) = (val, val * 2f32);
        self''',2)]),
dict(id="r31_wrappers", edits=[("src/types.rs",'''        self.lock()
            .map_err(|e| SamplerError::InternalError(format!("Couldn't acquire lock: {e}")))?
            .sample_token(res, logits)''','''        let mut guard = self
            .lock()
            .map_err(|e| SamplerError::InternalError(format!("Couldn't acquire lock: {e}")))?;
        let token = guard.sample_token(res, logits)?;
        Ok(token)'''),("src/types.rs",'''        self.lock()
            .map_err(|e| SamplerError::InternalError(format!("Couldn't acquire lock: {e}")))?
            .sample(res, logits)''','''        match self.lock() {
            Ok(mut guard) => guard.sample(res, logits),
            Err(e) => Err(SamplerError::InternalError(format!(
                "Couldn't acquire lock: {e}"
            ))),
        }'''),("src/types.rs",'''        (**self).sample(res, logits)''','''        self.as_mut().sample(res, logits)''')]),
]
for r in REF:
    if r["id"]=="r09_tail_free":
        f,o,_=r["edits"][0]
        r["edits"][0]=(f,"        let mut fderivs"+o,'''        let fderivs: Vec<L> = logits.windows(2).map(|w| w[0].prob - w[1].prob).collect();
        let mut sderivs: Vec<L> = fderivs.windows(2).map(|w| (w[0] - w[1]).abs()).collect();
        let mut ssum = 0f32;
        for sprob in &sderivs {
            ssum += *sprob;
        }
        for sprob in sderivs.iter_mut() {
            *sprob /= ssum;
        }

        let mut cum_sum = 0f32;
        let mut last_idx = logits.len();
        for (idx, prob) in sderivs.into_iter().enumerate() {
            cum_sum += prob;
            if cum_sum > z && idx >= min_keep {
                last_idx = idx;
                break;
            }
        }
''')
        r["edits"].append((f,"        use std::ops::ControlFlow::*;\n\n",""))
    if r["id"]=="r26_find_option":
        f,o,_=r["edits"][0]
        r["edits"][0]=(f,"        let mut it = self.iter().enumerate().filter"+o+"        Ok((optdef.clone(), optidx))",'''        let mut found = None;
        for (idx, (omd, acc)) in self.iter().enumerate() {
            if !omd.key.starts_with(key) {
                continue;
            }
            if found.is_some() {
                return Err(ConfigureSamplerError::AmbiguousKey(key.to_string()).into());
            }
            found = Some((omd, acc.is_some().then_some(idx)));
        }
        match found {
            Some((omd, idx)) => Ok((omd.clone(), idx)),
            None if key.is_empty() => Err(ConfigureSamplerError::UnknownOrBadType(
                "<unspecified>".to_string(),
            )
            .into()),
            None => Err(ConfigureSamplerError::UnknownOrBadType(key.to_string()).into()),
        }''')
