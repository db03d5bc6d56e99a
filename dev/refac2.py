S="src/samplers/"
C="src/configure/"
ENS='''        logits.ensure_softmax().map_err(|e| {
            SamplerError::InternalError(format!("Failed to ensure softmax before sampling: {}", e))
        })?;
'''
def body(path, a, b):
    t=open("/repo/"+path).read(); i=t.index(a); j=t.index(b,i); return t[i:j]
MIRO2=body(S+"mirostat.rs",'''        let new_size = logits
''','''    fn sampled_token_id''') if True else ""
# the first occurrence of "let new_size" is in mirostat 2
UPD='''            self.mu -= eta * (-logit.prob.log2() - tau);
            self.token = Some(tid);'''
REF=[
dict(id="s01_miro_position", edits=[(S+"mirostat.rs",'''            .iter()
            .enumerate()
            .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
            .unwrap_or(logits.len())
            .max(1);
        if new_size != logits.len() {''','''            .iter()
            .take_while(|l| !(surprise(l) > mu))
            .count();
        let new_size = if new_size == 0 { 1 } else { new_size };
        if new_size < logits.len() {'''),(S+"mirostat.rs",UPD,'''            let observed = surprise(logit);
            self.mu -= (observed - tau) * eta;
            self.token = Some(tid);''',2),(S+"mirostat.rs","impl Sampler for SampleMirostat2 {",'''fn surprise(l: &Logit) -> L {
    -l.prob.log2()
}

impl Sampler for SampleMirostat2 {''')]),
dict(id="s02_miro_loop", edits=[(S+"mirostat.rs",'''        let new_size = logits
            .iter()
            .enumerate()
            .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
            .unwrap_or(logits.len())
            .max(1);
        if new_size != logits.len() {
            logits.truncate(new_size);
            logits.set_softmax(false);
        }
''','''        let mut keep = 1;
        while keep < logits.len() {
            if -logits[keep].prob.log2() > mu {
                break;
            }
            keep += 1;
        }
        // sorted: once the first one is beyond mu so are the rest
        if keep != logits.len() {
            logits.drain(keep..);
            logits.set_softmax(false);
        }
'''),(S+"mirostat.rs",'''        let s_hat = sum_ti_bi / sum_ti_sq;
        let epsilon_hat = s_hat - 1f32;
        let k = ((epsilon_hat * 2f32.powf(mu)) / (1f32 - n_vocab.powf(-epsilon_hat))).powf(1f32 / s_hat);
        logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;
''','''        let exponent = sum_ti_bi / sum_ti_sq;
        let k = estimate_k(exponent, n_vocab, mu);
        let mut top_k = SampleTopK::new(k.as_(), 1);
        top_k.sample(res, logits)?;
'''),(S+"mirostat.rs","impl Sampler for SampleMirostat1 {",'''fn estimate_k(s_hat: L, n_vocab: L, mu: L) -> L {
    let eps = s_hat - 1f32;
    let num = eps * 2f32.powf(mu);
    let den = 1f32 - n_vocab.powf(-eps);
    (num / den).powf(1f32 / s_hat)
}

impl Sampler for SampleMirostat1 {''')]),
dict(id="s03_shared_setup", edits=[(S+"mirostat.rs",UPD,'''            self.learn(logit.prob, eta, tau);
            self.token = Some(tid);''',2),(S+"mirostat.rs","impl Sampler for SampleMirostat1 {",'''impl SampleMirostat1 {
    fn learn(&mut self, prob: L, eta: L, tau: L) {
        self.mu -= eta * (-prob.log2() - tau);
    }
}

impl Sampler for SampleMirostat1 {'''),(S+"mirostat.rs","impl Sampler for SampleMirostat2 {",'''impl SampleMirostat2 {
    fn learn(&mut self, prob: L, eta: L, tau: L) {
        let err = -prob.log2() - tau;
        self.mu = self.mu - eta * err;
    }
}

impl Sampler for SampleMirostat2 {'''),(S+"mirostat.rs","fn post_set_option(&mut self, md: &SamplerOptionMetadata) -> Result<()> {\n        if md.key == \"tau\" {\n            self.mu = self.tau * (1f32 + 1f32);\n        }\n        Ok(())","fn post_set_option(&mut self, md: &SamplerOptionMetadata) -> Result<()> {\n        match md.key {\n            \"tau\" => self.mu = self.tau + self.tau,\n            _ => (),\n        }\n        Ok(())",2)]),
dict(id="s04_manual_impls", edits=[("src/types.rs",'''#[derive(Debug, Clone, PartialEq)]
/// An individual logit''','''#[derive(Debug)]
/// An individual logit'''),("src/types.rs",'''impl Deref for Logits {''','''impl Clone for Logit {
    fn clone(&self) -> Self {
        let Self { token_id, logit, prob } = self;
        Logit {
            prob: *prob,
            logit: *logit,
            token_id: *token_id,
        }
    }
}

impl PartialEq for Logit {
    fn eq(&self, other: &Self) -> bool {
        self.token_id == other.token_id && (self.logit, self.prob) == (other.logit, other.prob)
    }
}

impl Deref for Logits {'''),("src/types.rs",'''#[derive(Debug, Clone, Default)]
/// A collection''','''#[derive(Debug, Default)]
/// A collection'''),("src/types.rs",'''impl DerefMut for Logits {''','''impl Clone for Logits {
    fn clone(&self) -> Self {
        let mut logits = Vec::with_capacity(self.logits.len());
        logits.extend_from_slice(&self.logits);
        Self { sorted: self.sorted, has_softmax: self.has_softmax, logits }
    }
}

impl DerefMut for Logits {'''),(S+"greedy.rs","#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]","#[derive(Debug, Clone, Copy, PartialEq, Eq)]"),(S+"greedy.rs","impl SampleGreedy {\n    pub fn new() -> Self {\n        Self { token_id: None }\n    }",'''impl Default for SampleGreedy {
    fn default() -> Self {
        Self::new()
    }
}

impl SampleGreedy {
    pub fn new() -> Self {
        Self { token_id: None }
    }''')]),
dict(id="s05_set_option", edits=[(C+"configurable.rs",'''        let (omd, optidx) = {
            let opts = slf.sampler_options_mut();
            if let (omd, Some(optidx)) = opts.find_option_definition(key)? {
                (omd, optidx)
            } else {
                Err(ConfigureSamplerError::CannotAccessOptionValue(
                    key.to_string(),
                ))?
            }
        };
''','''        let no_access = || ConfigureSamplerError::CannotAccessOptionValue(key.to_owned());
        let (omd, optidx) = slf.sampler_options_mut().find_option_definition(key)?;
        let optidx = match optidx {
            Some(i) => i,
            None => return Err(no_access().into()),
        };
'''),(C+"configurable.rs",'''            .ok_or_else(|| ConfigureSamplerError::CannotAccessOptionValue(key.to_string()))?;

        match (acc, val) {
            (SamplerOptionValueMut::Float(rv), SamplerOptionValue::Float(v)) => {
                *rv = F::from_f64(v)
                    .ok_or_else(|| ConfigureSamplerError::ConversionFailure(key.to_string()))?
            }
''','''            .ok_or_else(no_access)?;

        match (acc, val) {
            (SamplerOptionValueMut::Float(rv), SamplerOptionValue::Float(v)) => {
                let Some(new) = F::from_f64(v) else {
                    anyhow::bail!(ConfigureSamplerError::ConversionFailure(key.to_string()));
                };
                *rv = new;
            }
'''),(C+"configurable.rs",'''                *rv = UI::from_u64(v)
                    .ok_or_else(|| ConfigureSamplerError::ConversionFailure(key.to_string()))?
            }''','''                match UI::from_u64(v) {
                    Some(new) => *rv = new,
                    None => Err(ConfigureSamplerError::ConversionFailure(key.into()))?,
                }
            }'''),(C+"configurable.rs",'''            .try_for_each(|kv| {
                let (k, v) = kv.split_once('=').unwrap_or(("", kv));
                let (omd, Some(_)) = opts.find_option_definition(k)? else {
                    Err(ConfigureSamplerError::UnknownOrBadType(k.to_string()))?
                };

                slf.set_option(
                    omd.key,
                    SamplerOptionValue::parse_value(omd.option_type, v.trim())?,
                )?;
                anyhow::Ok(())
            })?;
        Ok(())''','''            .map(|kv| kv.split_once('=').unwrap_or(("", kv)))
            .try_for_each(|(k, v)| apply_part(slf, &opts, k, v))'''),(C+"configurable.rs",'''    pub fn configure<CS, UI, F>(''','''    fn apply_part<CS, UI, F>(slf: &mut CS, opts: &SamplerOptions<()>, k: &str, v: &str) -> Result<()>
    where
        CS: ConfigurableSampler<UI, F> + HasSamplerMetadata<UI, F> + ?Sized,
        UI: ConfigurableNumValue,
        F: ConfigurableNumValue,
    {
        let (omd, idx) = opts.find_option_definition(k)?;
        if idx.is_none() {
            return Err(anyhow::Error::new(ConfigureSamplerError::UnknownOrBadType(k.to_string())));
        }
        let val = SamplerOptionValue::parse_value(omd.option_type, v)?;
        slf.set_option(omd.key, val)
    }

    pub fn configure<CS, UI, F>(''')]),
dict(id="s06_building", edits=[(C+"building.rs",'''        let cfgerr = |err| BuildSamplersError::ConfigureFailed {
            name: name.to_string(),
            err,
        };

        let (_, slot) = self
            .slots
            .iter_mut()
            .find(|(slotname, _slot)| slotname == name)
            .ok_or_else(|| BuildSamplersError::UnknownSlot(name.to_string()))?;

        match slot {
            SamplerSlot::Static { .. } => {
                Err(BuildSamplersError::CannotConfigureStatic(name.to_string()))?
            }
            SamplerSlot::Single { factory, sampler } => {
                if let Some(sampler) = sampler {
                    sampler.configure(s).map_err(cfgerr)?;
                } else {
                    let mut fresh = factory();
                    fresh.configure(s).map_err(cfgerr)?;
                    *sampler = Some(fresh);
                }
            }
            SamplerSlot::Chain { factory, samplers } => {
                let mut fresh = factory();
                fresh.configure(s).map_err(cfgerr)?;
                samplers.push(fresh);
            }
        }
        Ok(())''','''        let idx = match self.slots.iter().position(|(n, _)| n.as_str() == name) {
            Some(idx) => idx,
            None => return Err(BuildSamplersError::UnknownSlot(name.to_owned()).into()),
        };
        let outcome = match &mut self.slots[idx].1 {
            SamplerSlot::Static { .. } => {
                return Err(BuildSamplersError::CannotConfigureStatic(name.to_owned()).into())
            }
            SamplerSlot::Single { sampler: Some(sampler), .. } => sampler.configure(s),
            SamplerSlot::Single { factory, sampler } => {
                configured(factory, s).map(|fresh| *sampler = Some(fresh))
            }
            SamplerSlot::Chain { factory, samplers } => {
                configured(factory, s).map(|fresh| samplers.push(fresh))
            }
        };
        outcome.map_err(|err| {
            BuildSamplersError::ConfigureFailed { name: name.to_string(), err }.into()
        })'''),(C+"building.rs",'''#[derive(Debug)]
pub struct SamplerChainBuilder<UI, F> {''','''fn configured<UI: ConfigurableNumValue, F: ConfigurableNumValue>(
    factory: &mut Box<SamplerFactory<UI, F>>,
    s: &str,
) -> Result<Box<dyn BuildableSampler<UI, F>>> {
    let mut fresh = factory();
    fresh.configure(s)?;
    Ok(fresh)
}

#[derive(Debug)]
pub struct SamplerChainBuilder<UI, F> {''')]),
dict(id="s07_into_chain", edits=[(C+"building.rs",'''        let mut chain = SamplerChain::new();

        self.slots.into_iter().for_each(|(_name, slot)| match slot {
            SamplerSlot::Static { mut factory } => chain += factory(),
            SamplerSlot::Single { sampler, .. } => {
                if let Some(sampler) = sampler {
                    chain += sampler
                }
            }
            SamplerSlot::Chain { samplers, .. } => {
                samplers.into_iter().for_each(|sampler| chain += sampler)
            }
        });
        chain''','''        self.slots
            .into_iter()
            .map(|(_name, slot)| slot)
            .fold(SamplerChain::new(), |mut chain, slot| {
                match slot {
                    SamplerSlot::Static { mut factory } => {
                        chain.push_sampler(factory());
                    }
                    SamplerSlot::Single { sampler: None, .. } => {}
                    SamplerSlot::Single { sampler: Some(sampler), .. } => {
                        chain.push_sampler(sampler);
                    }
                    SamplerSlot::Chain { samplers, .. } => {
                        for sampler in samplers {
                            chain.push_sampler(sampler);
                        }
                    }
                }
                chain
            })'''),(C+"building.rs",'''            SamplerSlot::Single { factory, sampler } if sampler.is_none() => {
                *sampler = Some(factory())
            }''','''            SamplerSlot::Single { factory, sampler } => {
                sampler.get_or_insert_with(|| factory());
            }''')]),
dict(id="s08_find_option", edits=[(C+"metadata.rs",'''        let mut it = self.iter().enumerate().filter(|&(_idx, (omd, _acc))| omd.key
                .starts_with(key)).map(|(idx, (omd, acc))| (omd.clone(), acc.is_some().then_some(idx)));
        let Some((optdef, optidx)) = it.next() else {
            Err(ConfigureSamplerError::UnknownOrBadType(if key.is_empty() {
                        "<unspecified>".to_string()
                } else {
                    key.to_string()
                }))?
        };

        if it.next().is_some() {
            Err(ConfigureSamplerError::AmbiguousKey(key.to_string()))?
        }

        Ok((optdef.clone(), optidx))''','''        let mut found = None;
        for (idx, (omd, acc)) in self.0.iter().enumerate() {
            if !omd.key.starts_with(key) {
                continue;
            }
            if found.is_some() {
                return Err(ConfigureSamplerError::AmbiguousKey(key.to_string()).into());
            }
            found = Some((omd, if acc.is_some() { Some(idx) } else { None }));
        }
        match found {
            Some((omd, idx)) => Ok((omd.clone(), idx)),
            None => {
                let shown = if key.is_empty() { "<unspecified>" } else { key };
                Err(ConfigureSamplerError::UnknownOrBadType(shown.to_string()).into())
            }
        }''')]),
dict(id="s09_value", edits=[(C+"value.rs",'''        Ok(u64::from_str(s.trim())?)''','''        s.trim().parse::<u64>().map_err(anyhow::Error::from)'''),(C+"value.rs",'''        Ok(match s.trim() {
            "-inf" | "-INF" => f64::neg_infinity(),
            "inf" | "INF" | "+inf" | "+INF" => f64::infinity(),
            other => f64::from_str(other)?,
        })''','''        let s = s.trim();
        if s == "-inf" || s == "-INF" {
            return Ok(f64::NEG_INFINITY);
        }
        if matches!(s, "inf" | "INF" | "+inf" | "+INF") {
            return Ok(f64::INFINITY);
        }
        Ok(s.parse()?)'''),(C+"value.rs",'''        Ok(match s.trim() {
            "true" | "t" | "yes" | "1" => true,
            "false" | "f" | "no" | "0" => false,
            _ => Err(SamplerError::InternalError(
                "Bad boolean value in sampler option".to_string(),
            ))?,
        })''','''        const YES: [&str; 4] = ["true", "t", "yes", "1"];
        const NO: [&str; 4] = ["false", "f", "no", "0"];
        let s = s.trim();
        if YES.contains(&s) {
            Ok(true)
        } else if NO.iter().any(|n| *n == s) {
            Ok(false)
        } else {
            Err(SamplerError::InternalError("Bad boolean value in sampler option".into()).into())
        }'''),(C+"value.rs","use num_traits::{Float, FromPrimitive, NumCast};","use num_traits::{FromPrimitive, NumCast};"),(C+"value.rs","use std::{borrow::Cow, str::FromStr};","use std::borrow::Cow;")]),
dict(id="s10_types_loops", edits=[("src/types.rs",'''        let mut tid = 0;
        Ok(Self {
            sorted: false,
            has_softmax: false,
            logits: it
                .into_iter()
                .enumerate()
                .map(|(idx, logit)| {
                    if logit.is_nan() {
                        Err(LogitsError::InvalidLogit(idx))?
                    }
                    let result = Logit {
                        token_id: tid,
                        logit,
                        prob: 0f32,
                    };
                    tid += 1;
                    Ok(result)
                })
                .collect::<Result<Vec<_>, LogitsError>>()?,
        })''','''        let it = it.into_iter();
        let mut logits = Vec::with_capacity(it.size_hint().0);
        for (idx, logit) in it.enumerate() {
            if logit != logit {
                return Err(LogitsError::InvalidLogit(idx));
            }
            logits.push(Logit { token_id: idx as TID, logit, prob: 0f32 });
        }
        Ok(Self { logits, ..Self::default() })'''),("src/types.rs",'''        let cum_sum = self.iter_mut().fold(0f32, |cs, l| {
            l.prob = (l.logit - max_l).exp();
            cs + l.prob
        });
        self.iter_mut().for_each(|l| l.prob /= cum_sum);
        self.has_softmax = true;
        Ok(self)''','''        let mut total = 0f32;
        for l in self.logits.iter_mut() {
            let e = (l.logit - max_l).exp();
            l.prob = e;
            total += e;
        }
        for l in &mut self.logits {
            l.prob /= total;
        }
        Ok(self.set_softmax(true))'''),("src/types.rs",'''        if self.is_empty() {
            self.has_softmax = true;
            self.sorted = true;
            return Ok(self);
        }
        if self.has_softmax {
            return self.ensure_sorted();
        }
        self.ensure_sorted()?;
''','''        if self.logits.is_empty() {
            return Ok(self.set_sorted(true).set_softmax(true));
        }
        self.ensure_sorted()?;
        if self.get_softmax() {
            return Ok(self);
        }
''')]),
dict(id="s11_topk_build", edits=[("src/types.rs",'''                .fold(Vec::new(), |mut logits, (tid, logit)| {
                    if logits.len() == k {
                        // The Vec is guaranteed not to be empty at this point.
                        if logit > unsafe { logits.last().unwrap_unchecked().logit } {
                            logits.truncate(k - 1);
                        } else {
                            return logits;
                        }
                    }
                    logits.insert(
                        logits.partition_point(|l| logit < l.logit),
                        Logit {
                            token_id: tid,
                            logit,
                            prob: 0f32,
                        },
                    );
                    logits
                }),''','''                .fold(Vec::<Logit>::new(), |mut logits, (token_id, logit)| {
                    let full = logits.len() >= k;
                    let beaten = |l: &Logit| logit > l.logit;
                    if full && !logits.last().map_or(true, beaten) {
                        return logits;
                    }
                    if full {
                        logits.pop();
                    }
                    let at = logits.partition_point(|l| l.logit > logit);
                    logits.insert(at, Logit { token_id, logit, prob: 0f32 });
                    logits
                }),''')]),
dict(id="s12_wrappers", edits=[("src/types.rs",'''        if let Ok(sampler) = self.lock() {
            sampler.sample_prepend(res)
        }''','''        match self.lock() {
            Ok(guard) => guard.sample_prepend(res),
            Err(_) => {}
        }'''),("src/types.rs",'''        self.lock().ok()?.sampled_token_id()''','''        match self.lock() {
            Ok(inner) => inner.sampled_token_id(),
            Err(_) => None,
        }'''),("src/types.rs",'''        self.lock()
            .map_err(|e| SamplerError::InternalError(format!("Couldn't acquire lock: {e}")))?
            .sample(res, logits)''','''        let mut inner = locked(self)?;
        inner.sample(res, logits)'''),("src/types.rs",'''        self.lock()
            .map_err(|e| SamplerError::InternalError(format!("Couldn't acquire lock: {e}")))?
            .sample_token(res, logits)''','''        locked(self)?.sample_token(res, logits)'''),("src/types.rs",'''impl Sampler for Arc<Mutex<dyn Sampler>> {''','''fn locked<'a>(
    m: &'a Arc<Mutex<dyn Sampler>>,
) -> Result<std::sync::MutexGuard<'a, dyn Sampler + 'static>, SamplerError> {
    match m.lock() {
        Ok(g) => Ok(g),
        Err(e) => Err(SamplerError::InternalError(format!("Couldn't acquire lock: {}", e))),
    }
}

impl Sampler for Arc<Mutex<dyn Sampler>> {''')]),
dict(id="s13_freq_scratch", edits=[(S+"freq_presence.rs",'''            counts.reserve(tokens.len());
            tokens.iter().copied().for_each(|tid| {
                let cnt = counts.entry(tid).or_insert(0f32);
                *cnt += 1f32
            });''','''            for tid in tokens {
                *counts.entry(*tid).or_default() += 1;
            }'''),(S+"freq_presence.rs","HashMap::<TID, L>::default()","std::mem::take(&mut self.scratch);\n        counts.clear()"),(S+"freq_presence.rs",'''            let Some(cnt) = counts.get(&l.token_id) else {
                return;
            };
            if cnt > &0.0 {
                l.logit -= *cnt * frequency_penalty
                    + if cnt > &0f32 { 1f32 } else { 0f32 } * presence_penalty;
                changed += 1;
            }
        });''','''            if let Some(&cnt) = counts.get(&l.token_id) {
                l.logit -= cnt as L * frequency_penalty + presence_penalty;
                changed += 1;
            }
        });
        self.scratch = counts;'''),(S+"freq_presence.rs",'''    pub(crate) last_n: usize,
}''','''    pub(crate) last_n: usize,
    scratch: HashMap<TID, u32>,
}'''),(S+"freq_presence.rs",'''            last_n: 64,
''','''            last_n: 64,
            scratch: HashMap::new(),
'''),(S+"freq_presence.rs",'''            last_n,
        }
    }
''','''            last_n,
            scratch: HashMap::new(),
        }
    }
''')]),
dict(id="s14_seq_helper", edits=[(S+"sequence_repetition.rs",'''        for (tid, seqlen) in penalize.into_iter() {
            let Some(idx) = logits
                .iter()
                .enumerate()
                .find(|(_, l)| l.token_id == tid)
                .map(|(idx, _)| idx)
            else {
                continue;
            };

            let seqlen = seqlen as L;
            let l = &mut logits[idx].logit;

            *l -=
                seqlen * stacking_penalty + if seqlen > 0f32 { 1f32 } else { 0f32 } * flat_penalty;
            changed += 1;
        }
''','''        penalize.iter().for_each(|(tid, seqlen)| {
            if let Some(l) = logits.iter_mut().find(|l| l.token_id == *tid) {
                l.logit -= penalty_for(*seqlen, stacking_penalty, flat_penalty);
                changed += 1;
            }
        });
'''),(S+"sequence_repetition.rs",'''impl Sampler for SampleSeqRepetition {''','''fn penalty_for(seqlen: usize, stacking: L, flat: L) -> L {
    let present = if seqlen > 0 { 1f32 } else { 0f32 };
    seqlen as L * stacking + present * flat
}

impl Sampler for SampleSeqRepetition {'''),(S+"sequence_repetition.rs",'''            find_seqs(tokens, self.min_length, self.tolerance, self.max_merge)
                .into_iter()
                .filter(|mi| !mi.seq.is_empty())
                .for_each(|mi| {
                    let seqlen = mi.seq.len();
                    penalize
                        .entry(mi.seq[seqlen - 1])
                        .and_modify(|prevseqlen| *prevseqlen = (*prevseqlen).max(seqlen))
                        .or_insert(seqlen);
                });''','''            for mi in find_seqs(tokens, self.min_length, self.tolerance, self.max_merge) {
                let Some(last) = mi.seq.last() else { continue };
                let longest = penalize.entry(*last).or_insert(0);
                if mi.seq.len() > *longest {
                    *longest = mi.seq.len();
                }
            }''')]),
dict(id="s15_once_table", edits=[(S+"mirostat.rs",'''            options: vec![
                SamplerOptionMetadata {
                    key: "tau",
                    description: None,
                    option_type: SamplerOptionType::Float,
                },
                SamplerOptionMetadata {
                    key: "eta",
                    description: None,
                    option_type: SamplerOptionType::Float,
                },
                SamplerOptionMetadata {
                    key: "mu",
                    description: None,
                    option_type: SamplerOptionType::Float,
                },
            ],''','''            options: MIROSTAT_2_OPTIONS
                .iter()
                .map(|key| SamplerOptionMetadata {
                    key,
                    description: None,
                    option_type: SamplerOptionType::Float,
                })
                .collect(),'''),(S+"mirostat.rs","impl Default for SampleMirostat2 {","const MIROSTAT_2_OPTIONS: [&str; 3] = [\"tau\", \"eta\", \"mu\"];\n\nimpl Default for SampleMirostat2 {")]),
dict(id="s16_static_table", edits=[(S+"top_k.rs",body(S+"top_k.rs","    fn sampler_metadata(&self)","    fn sampler_options_mut"),'''    fn sampler_metadata(&self) -> SamplerMetadata {
        static OPTIONS: [SamplerOptionMetadata; 2] = [
            SamplerOptionMetadata {
                key: "k",
                description: Some("Number of tokens to keep."),
                option_type: SamplerOptionType::UInt,
            },
            SamplerOptionMetadata {
                key: "min_keep",
                description: Some(concat!(
                    "Minimum number of tokens to keep after sampling. ",
                    "Setting this to 0 is not recommended."
                )),
                option_type: SamplerOptionType::UInt,
            },
        ];
        SamplerMetadata {
            name: "top-k",
            description: Some(concat!(
                "This sampler retains the top K tokens by score.",
            )),
            options: OPTIONS.to_vec(),
        }
    }

''')]),
dict(id="s17_chain", edits=[("src/chain.rs",'''        self.token = None;
        self.samplers
            .iter_mut()
            .try_fold(logits, |logits, sampler| {
                self.token = None;
                let new_logits = sampler.sample(res, logits)?;
                self.token = sampler.sampled_token_id();
                Ok(new_logits)
            })''','''        self.token = None;
        let mut logits = logits;
        let mut picked = None;
        for sampler in &mut self.samplers {
            logits = sampler.sample(res, logits)?;
            picked = sampler.sampled_token_id();
        }
        self.token = picked;
        Ok(logits)'''),("src/chain.rs","self.samplers.push(Box::new(sampler));\n        self","let boxed: Box<dyn Sampler> = Box::new(sampler);\n        self.samplers.extend(std::iter::once(boxed));\n        self")]),
dict(id="s18_resource", edits=[("src/resource.rs",'''        self.rng.as_mut().map_or_else(
            || Err(SamplerError::MissingResource("rng".to_string())),
            |rng| {
                fun(rng);
                Ok(())
            },
        )''','''        let rng = self.rng.as_deref_mut().ok_or_else(|| missing("rng"))?;
        fun(rng);
        Ok(())'''),("src/resource.rs",'''        self.last_tokens.as_ref().map_or_else(
            || Err(SamplerError::MissingResource("last_tokens".to_string())),
            |lt| {
                fun(lt);
                Ok(())
            },
        )''','''        self.last_tokens.as_ref().map(|lt| fun(lt)).ok_or_else(|| missing("last_tokens"))'''),("src/resource.rs",'''impl HasSamplerResources for SimpleSamplerResources {''','''fn missing(what: &str) -> SamplerError {
    SamplerError::MissingResource(String::from(what))
}

impl HasSamplerResources for SimpleSamplerResources {'''),("src/resource.rs",'''        Err(SamplerError::MissingResource("last_tokens".to_string()))
    }''','''        Err(missing("last_tokens"))
    }''',2)]),
dict(id="s19_greedy", edits=[(S+"greedy.rs",'''        if logits.is_empty() {
            self.token_id = None;
            return Ok(logits);
        }

        self.token_id = if logits.get_sorted() {
            logits.first()
        } else {
            logits
                .iter()
                .filter(|l| !l.logit.is_nan())
                .max_by(|x, y| x.logit.total_cmp(&y.logit))
        }
        .map(|l| l.token_id);
''','''        self.token_id = None;
        if logits.get_sorted() {
            self.token_id = logits.first().map(|l| l.token_id);
        } else {
            let mut best: Option<&Logit> = None;
            for l in logits.iter().filter(|l| !l.logit.is_nan()) {
                best = match best {
                    Some(b) if b.logit.total_cmp(&l.logit).is_gt() => Some(b),
                    _ => Some(l),
                };
            }
            self.token_id = best.map(|l| l.token_id);
        }
''')]),
dict(id="s20_rand", edits=[(S+"rand_distrib.rs",'''        let dist = WeightedIndex::new(logits.iter().map(|l| l.prob))
            .map_err(SamplerError::RandWeightedError)?;
        res.with_rng_mut(&mut |r| {
            self.token_id = Some(logits[dist.sample(r)].token_id);
        })?;
        Ok(logits)''','''        let weights: Vec<L> = logits.iter().map(|l| l.prob).collect();
        let dist = match WeightedIndex::new(&weights) {
            Ok(d) => d,
            Err(e) => return Err(SamplerError::RandWeightedError(e)),
        };
        let mut picked = None;
        res.with_rng_mut(&mut |r| picked = Some(dist.sample(r)))?;
        self.token_id = picked.and_then(|idx| logits.get(idx)).map(|l| l.token_id);
        Ok(logits)''')]),
dict(id="s21_typical", edits=[(S+"locally_typical.rs",'''        let ent = logits
            .iter()
            .filter(|l| l.prob > 0f32)
            .fold(0f32, |ent, l| ent + -l.prob * l.prob.ln());
''','''        let ent = entropy(logits);
'''),(S+"locally_typical.rs","impl Sampler for SampleLocallyTypical {",'''fn entropy(logits: &[Logit]) -> L {
    let mut ent = 0f32;
    for p in logits.iter().map(|l| l.prob) {
        if p > 0f32 {
            ent -= p * p.ln();
        }
    }
    ent
}

impl Sampler for SampleLocallyTypical {'''),(S+"locally_typical.rs",'''        let min_keep = if min_keep == 0 { 0 } else { min_keep - 1 };
''','''        let min_keep = min_keep.saturating_sub(1);
'''),(S+"locally_typical.rs",'''        shifted
            .into_iter()
            .take(last_idx)
            .for_each(|(logit, _score)| logits.push(logit));
''','''        shifted.truncate(last_idx);
        logits.extend(shifted.into_iter().map(|(logit, _)| logit));
''')]),
dict(id="s22_tail_free", edits=[(S+"tail_free.rs",'''        let mut cum_sum = 0f32;
        let last_idx =
            match sderivs
                .into_iter()
                .enumerate()
                .try_fold(logits.len(), |last_idx, (idx, prob)| {
                    cum_sum += prob;
                    if cum_sum > z && idx >= min_keep {
                        return Break(idx);
                    }
                    Continue(last_idx)
                }) {
                Continue(i) => i,
                Break(i) => i,
            };
''','''        let mut cum_sum = 0f32;
        let last_idx = sderivs
            .into_iter()
            .position({
                let mut idx = 0usize;
                move |prob| {
                    let here = idx;
                    idx += 1;
                    cum_sum += prob;
                    here >= min_keep && cum_sum > z
                }
            })
            .unwrap_or_else(|| logits.len());
'''),(S+"tail_free.rs","        use std::ops::ControlFlow::*;\n\n","")]),
dict(id="s23_repetition_window", edits=[(S+"repetition.rs",'''            let tokens = if last_n > tokens.len() {
                tokens
            } else {
                &tokens[tokens.len() - last_n..]
            };
''','''            let start = tokens.len().saturating_sub(last_n);
            let tokens = &tokens[start..];
'''),(S+"repetition.rs",'''            logits
                .iter_mut()
                .filter(|l| tokens.contains(&l.token_id))
                .for_each(|l| {
                    l.logit = if l.logit <= 0f32 {
                        l.logit * repetition_penalty
                    } else {
                        l.logit / repetition_penalty
                    };
                    changed += 1;
                });''','''            for l in logits.iter_mut() {
                if !tokens.iter().any(|t| *t == l.token_id) {
                    continue;
                }
                if l.logit > 0f32 {
                    l.logit /= repetition_penalty;
                } else {
                    l.logit *= repetition_penalty;
                }
                changed += 1;
            }'''),(S+"repetition.rs",'''        if changed > 0 {''','''        if changed != 0 {''')]),
dict(id="s24_ensure_helper", edits=[(S+"mirostat.rs",ENS,'''        logits.softmaxed()?;
''',3),(S+"top_p.rs",'''        logits.ensure_softmax().map_err(''','''        logits.softmaxed()?;
        Ok::<&mut Logits, SamplerError>(&mut *logits).map_err(''') if False else (S+"rand_distrib.rs",ENS,'''        logits.softmaxed()?;
'''),("src/types.rs",'''    /// Convenience method
    pub fn sample<S: Sampler>(''','''    pub(crate) fn softmaxed(&mut self) -> Result<&mut Self, SamplerError> {
        match self.ensure_softmax() {
            Ok(slf) => Ok(slf),
            Err(e) => Err(SamplerError::InternalError(format!(
                "Failed to ensure softmax before sampling: {e}"
            ))),
        }
    }

    /// Convenience method
    pub fn sample<S: Sampler>(''')]),
dict(id="s25_flat_bias_skip", edits=[(S+"flat_bias.rs",'''        let bi = self.bias.iter();
        let mut changed = 0;

        logits.iter_mut().for_each(|l| {
            if let Some((_tid, bv)) = bi.clone().find(|(tid, _bv)| tid == &l.token_id) {
                l.logit += bv;
                changed += 1;
            }
        });''','''        let mut changed = 0;
        for l in logits.iter_mut() {
            let Some(pos) = self.bias.iter().position(|b| b.0 == l.token_id) else {
                continue;
            };
            l.logit += self.bias[pos].1;
            changed += 1;
        }''')]),
]
