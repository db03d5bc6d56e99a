S="src/samplers/"
C="src/configure/"
PROBE='''
#[derive(Debug, Clone, Default)]
struct Probe { calls: std::sync::Arc<std::sync::atomic::AtomicUsize>, tok: Option<u32> }
impl Sampler for Probe {
    fn sample<'a>(&mut self, _r: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.calls.fetch_add(1, std::sync::atomic::Ordering::SeqCst); Ok(l) }
    fn sampled_token_id(&self) -> Option<u32> { self.tok }
}
'''
CNT='''
#[derive(Debug)]
struct CountRes { rng: rand::rngs::StdRng, asks: usize, last: Vec<u32> }
impl HasSamplerResources for CountRes {
    fn with_rng_mut(&mut self, f: &mut dyn FnMut(&mut dyn rand::RngCore)) -> Result<(), SamplerError> { self.asks += 1; f(&mut self.rng); Ok(()) }
    fn with_last_tokens(&self, f: &mut dyn FnMut(&Vec<u32>)) -> Result<(), SamplerError> { f(&self.last); Ok(()) }
}
fn cres() -> CountRes { CountRes { rng: rand::rngs::StdRng::seed_from_u64(3), asks: 0, last: vec![] } }
'''
BUGS=[
dict(id="b10", property="C12", needs="a list in which a single candidate is left when the random picker runs",
  breaks="the random distribution sampler picks a lone candidate without asking for the generator, so the random stream depends on the filters before it",
  edits=[(S+"rand_distrib.rs","        let dist = WeightedIndex::new","        if logits.len() == 1 {\n            self.token_id = logits.first().map(|l| l.token_id);\n            return Ok(logits);\n        }\n        let dist = WeightedIndex::new")],
  main='''let mut r = cres(); let mut l = plain(&[1.0]); let mut s = SampleRandDistrib::new();
 assert_eq!(l.sample_token(&mut r, &mut s).unwrap(), Some(0)); assert_eq!(r.asks, 1);''', items=CNT),
dict(id="b11", property="C13", needs="sequence repetition with only the flat penalty active and a provider without a history",
  breaks="the missing history is silently ignored when the stacking penalty is zero",
  edits=[(S+"sequence_repetition.rs","                });\n        })?;","                });\n        })\n        .or_else(|e| if stacking_penalty == 0f32 { Ok(()) } else { Err(e) })?;")],
  main='''let mut l = plain(&[1.0, 2.0]);
 assert!(SampleSeqRepetition::new(1.0, 0.0, 2, 0, 1, 64).sample(&mut (), &mut l).is_err());
 assert!(SampleSeqRepetition::new(1.0, 1.0, 2, 0, 1, 64).sample(&mut (), &mut l).is_err());'''),
dict(id="b12", property="C15", needs="the same top-k sampler used for a short list and then for a longer one",
  breaks="top-k remembers the effective k of a short list and keeps cutting to it",
  edits=[(S+"top_k.rs","        let k = self.k.max(self.min_keep).min(logits.len());","        let k = self.k.max(self.min_keep).min(logits.len());\n        self.k = k;")],
  main='''let mut s = SampleTopK::new(4, 1); let mut l = plain(&[1.0, 2.0]); s.sample(&mut (), &mut l).unwrap();
 let mut l = plain(&[1.0, 2.0, 3.0, 4.0, 5.0]); s.sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), 4);'''),
dict(id="b13", property="C16", needs="a list that is empty, or becomes empty in the middle of a chain",
  breaks="the samplers after the point where the list became empty are skipped",
  edits=[("src/chain.rs","                let new_logits = sampler.sample(res, logits)?;","                if logits.is_empty() {\n                    return Ok(logits);\n                }\n                let new_logits = sampler.sample(res, logits)?;")],
  main='''let p = Probe::default(); let n = p.calls.clone(); let mut c = SamplerChain::new() + SampleTopK::new(0, 0) + p;
 let mut l = plain(&[1.0, 2.0]); c.sample(&mut (), &mut l).unwrap(); assert_eq!(n.load(std::sync::atomic::Ordering::SeqCst), 1);''', items=PROBE),
dict(id="b14", property="C17", needs="another thread holding the lock at the moment the picked token is read",
  breaks="a shared sampler reports no token while another thread holds its lock",
  edits=[("src/types.rs","self.lock().ok()?.sampled_token_id()","self.try_lock().ok()?.sampled_token_id()")],
  main='''use std::sync::{Arc, Mutex}; let a: Arc<Mutex<dyn Sampler>> = Arc::new(Mutex::new(Probe { tok: Some(5), ..Default::default() }));
 let b = a.clone(); let (tx, rx) = std::sync::mpsc::channel();
 let h = std::thread::spawn(move || { let g = b.lock().unwrap(); tx.send(()).unwrap(); std::thread::sleep(std::time::Duration::from_millis(400)); drop(g); });
 rx.recv().unwrap(); let t = a.sampled_token_id(); h.join().unwrap(); assert_eq!(t, Some(5));''', items=PROBE),
dict(id="b15", property="C17", needs="a sampler with its own sample_token inside a boxed buildable sampler",
  breaks="the boxed buildable sampler runs sample and reads the token instead of forwarding sample_token",
  edits=[(C+"building.rs","        (**self).sample_token(res, logits)","        self.sample(res, logits)?;\n        Ok(self.sampled_token_id())")],
  main='''let mut b: Box<dyn BuildableSampler<usize, f32>> = Box::new(Own); let mut l = plain(&[1.0]);
 assert_eq!(b.sample_token(&mut (), &mut l).unwrap(), Some(77));''', items='''
#[derive(Debug)] struct Own;
impl Sampler for Own {
    fn sample<'a>(&mut self, _r: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> { Ok(l) }
    fn sample_token(&mut self, _r: &mut dyn HasSamplerResources, _l: &mut Logits) -> Result<Option<u32>, SamplerError> { Ok(Some(77)) }
}
impl HasSamplerMetadata<usize, f32> for Own {}
impl ConfigurableSampler<usize, f32> for Own {}
'''),
dict(id="b16", property="C19", needs="a prefix that fits two options of which the second cannot be accessed",
  breaks="an ambiguous prefix is accepted when the second fitting option has no accessor",
  edits=[(C+"metadata.rs","        if it.next().is_some() {","        if it.next().is_some_and(|(_omd, acc)| acc.is_some()) {")],
  main='''let md = |k| SamplerOptionMetadata { key: k, description: None, option_type: SamplerOptionType::UInt };
 let o: SamplerOptions<()> = SamplerOptions::from([(md("abc"), Some(())), (md("abd"), None)]);
 assert!(o.find_option_definition("ab").is_err()); assert_eq!(o.find_option_definition("abc").unwrap().1, Some(0));'''),
dict(id="b17", property="C20", needs="a string option whose value itself contains an equals sign",
  breaks="the key is everything up to the last equals sign",
  edits=[(C+"configurable.rs","kv.split_once('=').unwrap_or((\"\", kv))","kv.rsplit_once('=').unwrap_or((\"\", kv))")],
  main='''let mut s = Txt { t: std::borrow::Cow::Borrowed("") }; s.configure("t=a=b").unwrap(); assert_eq!(s.t, "a=b");''', items='''
#[derive(Debug)] struct Txt { t: std::borrow::Cow<'static, str> }
impl HasSamplerMetadata<usize, f32> for Txt {
    fn sampler_metadata(&self) -> SamplerMetadata { SamplerMetadata { name: "txt", description: None, options: vec![SamplerOptionMetadata { key: "t", description: None, option_type: SamplerOptionType::String }] } }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> { unsafe { SamplerOptions::build_options(HasSamplerMetadata::<usize, f32>::sampler_metadata(self).options, [Some(SamplerOptionValue::String(self.t.clone()))]) } }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> { unsafe { SamplerOptions::build_options(HasSamplerMetadata::<usize, f32>::sampler_metadata(self).options, [Some(SamplerOptionValueMut::String(&mut self.t))]) } }
}
impl ConfigurableSampler<usize, f32> for Txt {}
'''),
dict(id="b18", property="C21", needs="an unsigned option given a fractional or exponent number",
  breaks="text that is not an unsigned integer is read as a float and rounded to one",
  edits=[(C+"value.rs","        Ok(u64::from_str(s.trim())?)","        let s = s.trim();\n        Ok(match u64::from_str(s) {\n            Ok(v) => v,\n            Err(e) => match f64::from_str(s) {\n                Ok(v) if v >= 0f64 => v as u64,\n                _ => Err(e)?,\n            },\n        })")],
  main='''let mut s = SampleTopK::new(7, 1); 
 assert!(ConfigurableSampler::<usize, f32>::configure(&mut s, "k=1.5").is_err());
 assert!(matches!(ConfigurableSampler::<usize, f32>::get_option(&s, "k").unwrap(), SamplerOptionValue::UInt(7)));'''),
dict(id="b19", property="C21", needs="an unsigned value given for a float option through the typed interface",
  breaks="a value of another type is converted instead of refused",
  edits=[(C+"configurable.rs","            (SamplerOptionValueMut::Bool(rv)","            (SamplerOptionValueMut::Float(rv), SamplerOptionValue::UInt(v)) => {\n                *rv = F::from_u64(v)\n                    .ok_or_else(|| ConfigureSamplerError::ConversionFailure(key.to_string()))?\n            }\n            (SamplerOptionValueMut::Bool(rv)")],
  main='''let mut s = SampleTemperature::new(0.5);
 assert!(ConfigurableSampler::<usize, f32>::set_option(&mut s, "temperature", SamplerOptionValue::UInt(2)).is_err());'''),
dict(id="b20", property="C22", needs="two slots whose names differ only in upper and lower case",
  breaks="slot names are compared without regard to case, so the wrong slot is configured",
  edits=[(C+"building.rs","slotname == name)","slotname.eq_ignore_ascii_case(name))")],
  main='''let mut b: SamplerChainBuilder<usize, f32> = SamplerChainBuilder::from([
   ("K", SamplerSlot::new_single(|| Box::new(SampleTopK::default()), Option::<SampleTopK>::None)),
   ("k", SamplerSlot::new_single(|| Box::new(SampleTopK::default()), Option::<SampleTopK>::None))]);
 b.configure("k", "k=2").unwrap();
 assert!(matches!(&b[0].1, SamplerSlot::Single { sampler: None, .. })); assert!(matches!(&b[1].1, SamplerSlot::Single { sampler: Some(_), .. }));'''),
dict(id="b21", property="C22", needs="ensure_present called on a chain slot that already holds one sampler",
  breaks="a chain slot is materialised a second time",
  edits=[(C+"building.rs","SamplerSlot::Chain { factory, samplers } if samplers.is_empty() => {","SamplerSlot::Chain { factory, samplers } if samplers.len() <= 1 => {")],
  main='''let mut s: SamplerSlot<usize, f32> = SamplerSlot::new_chain(|| Box::new(SampleTopK::default()), []);
 s.ensure_present(); s.ensure_present(); match s { SamplerSlot::Chain { samplers, .. } => assert_eq!(samplers.len(), 1), _ => panic!() }'''),
dict(id="b22", property="C23", needs="a chain slot with two or more samplers",
  breaks="the samplers of a chain slot enter the chain newest first",
  edits=[(C+"building.rs","samplers.into_iter().for_each(|sampler| chain += sampler)","samplers.into_iter().rev().for_each(|sampler| chain += sampler)")],
  main='''let mut b: SamplerChainBuilder<usize, f32> = SamplerChainBuilder::from([("f", SamplerSlot::new_chain(|| Box::new(SampleTopK::default()), [
   Box::new(SampleTemperature::new(2.0)) as Box<dyn BuildableSampler<usize, f32>>, Box::new(SampleFlatBias::new([(0u32, 1.0f32)]))]))]);
 let mut c = b.into_chain(); let mut l = plain(&[4.0]); c.sample(&mut (), &mut l).unwrap(); assert_eq!(l[0].logit, 3.0);'''),
dict(id="b23", property="C26", needs="tau set after mu was set by hand",
  breaks="setting tau leaves a mu that was set before as it is",
  edits=[(S+"mirostat.rs","        self.tau = val;\n        self.mu = val * (1f32 + 1f32);","        if self.mu == self.tau * (1f32 + 1f32) {\n            self.mu = val * (1f32 + 1f32);\n        }\n        self.tau = val;")], count=2,
  main='''let s = SampleMirostat2::default().mu(1.0).tau(3.0);
 assert!(matches!(ConfigurableSampler::<usize, f32>::get_option(&s, "mu").unwrap(), SamplerOptionValue::Float(x) if x == 6.0));'''),
dict(id="b24", property="C27", needs="a default top-p sampler on a list whose first candidate alone exceeds p",
  breaks="default top-p promises no minimum any more",
  edits=[(S+"top_p.rs","            min_keep: 1,","            min_keep: 0,")],
  main='''let s = SampleTopP::default();
 assert!(matches!(ConfigurableSampler::<usize, f32>::get_option(&s, "min_keep").unwrap(), SamplerOptionValue::UInt(1)));'''),
dict(id="b25", property="C28", needs="a caller that shortens the history through mutable access",
  breaks="mutable access works on a copy that is only written back when it did not shrink",
  edits=[("src/resource.rs","        self.last_tokens.as_mut().map_or_else(\n            || Err(SamplerError::MissingResource(\"last_tokens\".to_string())),\n            |lt| {\n                fun(lt);","        self.last_tokens.as_mut().map_or_else(\n            || Err(SamplerError::MissingResource(\"last_tokens\".to_string())),\n            |lt| {\n                let mut copy = lt.clone();\n                fun(&mut copy);\n                if copy.len() >= lt.len() {\n                    *lt = copy;\n                }")],
  main='''let mut r = res(&[1, 2, 3]); r.with_last_tokens_mut(&mut |t| { t.pop(); }).unwrap();
 let mut n = 0; r.with_last_tokens(&mut |t| n = t.len()).unwrap(); assert_eq!(n, 2);'''),
dict(id="b26", property="C30", needs="looking samplers up by their names",
  breaks="both mirostat samplers carry the same name",
  edits=[(S+"mirostat.rs","name: \"mirostat 2\",","name: \"mirostat 1\",")],
  main='''assert_ne!(HasSamplerMetadata::<usize, f32>::sampler_metadata(&SampleMirostat1::default()).name, HasSamplerMetadata::<usize, f32>::sampler_metadata(&SampleMirostat2::default()).name);'''),
dict(id="b27", property="C31", needs="feedback that drives mu below zero",
  breaks="mirostat 2 never lets mu fall below zero",
  edits=[(S+"mirostat.rs","        if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {\n            let logit = logits.iter().find(|l| l.token_id == tid).ok_or_else(|| {\n                SamplerError::InternalError(String::from(\"Impossible: sample token not in logits?\"))\n            })?;\n\n            self.mu -= eta * (-logit.prob.log2() - tau);\n            self.token = Some(tid);\n        }\n        Ok(logits)\n    }\n\n    fn sampled_token_id(&self) -> Option<TID> {\n        self.token\n    }\n}\n\nimpl ConfigurableSampler<usize, L> for SampleMirostat2",
   "        if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {\n            let logit = logits.iter().find(|l| l.token_id == tid).ok_or_else(|| {\n                SamplerError::InternalError(String::from(\"Impossible: sample token not in logits?\"))\n            })?;\n\n            self.mu = (mu - eta * (-logit.prob.log2() - tau)).max(0f32);\n            self.token = Some(tid);\n        }\n        Ok(logits)\n    }\n\n    fn sampled_token_id(&self) -> Option<TID> {\n        self.token\n    }\n}\n\nimpl ConfigurableSampler<usize, L> for SampleMirostat2")],
  main='''let mut s = SampleMirostat2::new(-4.0, 0.5).mu(0.25); let mut l = plain(&[0.0, 0.0, 0.0, 0.0]);
 let mut r = res(&[]); s.sample(&mut r, &mut l).unwrap();
 let mu = match ConfigurableSampler::<usize, f32>::get_option(&s, "mu").unwrap() { SamplerOptionValue::Float(x) => x, _ => panic!() };
 assert_eq!(l.len(), 1); assert!((mu - (0.25 - 0.5 * (0.0 + 4.0))).abs() < 1e-5, "{mu}");'''),
dict(id="b28", property="C32", needs="a candidate in the window with a tiny negative logit",
  breaks="logits just below zero are divided by the penalty, which raises them",
  edits=[(S+"repetition.rs","if l.logit <= 0f32 {","if l.logit <= -0.001f32 {")],
  main='''let mut l = plain(&[-0.0005, 1.0]); SampleRepetition::new(2.0, 8).sample(&mut res(&[0]), &mut l).unwrap();
 assert!(l[0].logit <= -0.0005, "{}", l[0].logit);'''),
dict(id="b29", property="C36", needs="a positive temperature below one thousandth",
  breaks="small positive temperatures are raised to 0.001",
  edits=[(S+"temperature.rs","        let temp = self.temperature;","        let temp = if self.temperature > 0f32 {\n            self.temperature.max(1e-3f32)\n        } else {\n            self.temperature\n        };")],
  main='''let mut l = plain(&[1.0, 2.0]); SampleTemperature::new(1e-4).sample(&mut (), &mut l).unwrap(); assert!(near(l[0].logit, 10000.0));'''),
dict(id="b30", property="C37", needs="a candidate more than 16 below the best one",
  breaks="candidates far below the best get probability zero",
  edits=[("src/types.rs","            l.prob = (l.logit - max_l).exp();","            let diff = l.logit - max_l;\n            l.prob = if diff < -16f32 { 0f32 } else { diff.exp() };")],
  main='''let mut l = plain(&[0.0, 20.0]); l.ensure_softmax().unwrap(); assert!(l[1].prob > 1e-9, "{:?}", l);'''),
dict(id="b31", property="C05", needs="flat bias applied to a list marked sorted that the bias puts out of order",
  breaks="flat bias reorders the candidates",
  edits=[(S+"flat_bias.rs","        if changed > 0 {\n            logits.set_sorted(false);\n            logits.set_softmax(false);\n        }","        if changed > 0 {\n            let was_sorted = logits.get_sorted();\n            logits.set_sorted(false);\n            logits.set_softmax(false);\n            if was_sorted {\n                logits.ensure_sorted()?;\n            }\n        }")],
  main='''let mut l = plain(&[3.0, 2.0]); l.ensure_sorted().unwrap(); SampleFlatBias::new([(0u32, -5.0f32)]).sample(&mut (), &mut l).unwrap();
 assert_eq!(pairs(&l), vec![(0, -2.0), (1, 2.0)]);'''),
dict(id="b32", property="C06", needs="a history longer than last_n with a token just outside the window",
  breaks="the frequency/presence window is one token too long",
  edits=[(S+"freq_presence.rs","&orig_tokens[orig_tokens.len() - last_n..]","&orig_tokens[orig_tokens.len().saturating_sub(last_n + 1)..]")],
  main='''let mut l = plain(&[1.0, 1.0, 1.0]); SampleFreqPresence::new(0.5, 0.5, 2).sample(&mut res(&[0, 1, 2]), &mut l).unwrap();
 assert_eq!(l[0].logit, 1.0);'''),
dict(id="b33", property="C07", needs="a token that occurs twice in the window with another token between",
  breaks="only directly repeated tokens are counted once: a token seen again later is penalised again",
  edits=[(S+"repetition.rs","            logits\n                .iter_mut()\n                .filter(|l| tokens.contains(&l.token_id))\n                .for_each(|l| {\n                    l.logit = if","            let mut prev = None;\n            tokens\n                .iter()\n                .filter(|&t| prev.replace(*t) != Some(*t))\n                .for_each(|t| {\n                    let Some(l) = logits.iter_mut().find(|l| l.token_id == *t) else {\n                        return;\n                    };\n                    l.logit = if")],
  main='''let mut l = plain(&[8.0, 8.0]); SampleRepetition::new(2.0, 8).sample(&mut res(&[0, 1, 0]), &mut l).unwrap();
 assert_eq!(l[0].logit, 4.0);'''),
dict(id="b34", property="C08", needs="two biases configured for the same token",
  breaks="all biases configured for a token are added",
  edits=[(S+"flat_bias.rs","            if let Some((_tid, bv)) = bi.clone().find(|(tid, _bv)| tid == &l.token_id) {\n                l.logit += bv;\n                changed += 1;\n            }","            for (_tid, bv) in bi.clone().filter(|(tid, _bv)| tid == &l.token_id) {\n                l.logit += bv;\n                changed += 1;\n            }")],
  main='''let mut l = plain(&[1.0]); SampleFlatBias::new([(0u32, 1.0f32), (0, 4.0)]).sample(&mut (), &mut l).unwrap();
 assert!(l[0].logit == 2.0 || l[0].logit == 5.0);'''),
dict(id="b35", property="C09", needs="min-p with p zero on an unsorted list",
  breaks="min-p with p zero sorts the list",
  edits=[(S+"min_p.rs","if p == 0f32 || logits.is_empty() {","if p < 0f32 || logits.is_empty() {")],
  main='''let mut l = plain(&[1.0, 2.0]); SampleMinP::new(0.0, 1).sample(&mut (), &mut l).unwrap(); assert_eq!(pairs(&l), vec![(0, 1.0), (1, 2.0)]);'''),
dict(id="b36", property="C10", needs="a picker used again on an empty list after a successful pick",
  breaks="on an empty list the token of the previous pick is reported",
  edits=[(S+"rand_distrib.rs","        self.token_id = None;\n        if logits.is_empty() {\n            return Ok(logits);\n        }","        if logits.is_empty() {\n            return Ok(logits);\n        }\n        self.token_id = None;")],
  main='''let mut s = SampleRandDistrib::new(); let mut r = res(&[]); plain(&[1.0]).sample_token(&mut r, &mut s).unwrap();
 let mut e = plain(&[]); assert_eq!(e.sample_token(&mut r, &mut s).unwrap(), None);'''),
dict(id="b37", property="C11", needs="an unsorted list with an infinite logit",
  breaks="greedy ignores candidates whose logit is infinite",
  edits=[(S+"greedy.rs",".filter(|l| !l.logit.is_nan())",".filter(|l| l.logit.is_finite())")],
  main='''let mut l = plain(&[1.0, f32::INFINITY]); assert_eq!(l.sample_token(&mut (), &mut SampleGreedy::new()).unwrap(), Some(1));'''),
dict(id="b38", property="C14", needs="a history exactly one token shorter than last_n",
  breaks="repetition slices past the front of the history when it is one token short of the window",
  edits=[(S+"repetition.rs","let tokens = if last_n > tokens.len() {","let tokens = if last_n > tokens.len() + 1 {")],
  main='''let mut l = plain(&[1.0]); SampleRepetition::new(1.5, 4).sample(&mut res(&[0, 1, 2]), &mut l).unwrap();'''),
dict(id="b39", property="C18", needs="reading mirostat 1's m or n_vocab through the option table",
  breaks="the readable table of mirostat 1 has m and n_vocab exchanged",
  edits=[(S+"mirostat.rs","                    Some(SamplerOptionValue::UInt(self.m)),\n                    Some(SamplerOptionValue::UInt(self.n_vocab)),","                    Some(SamplerOptionValue::UInt(self.n_vocab)),\n                    Some(SamplerOptionValue::UInt(self.m)),")],
  main='''let s = SampleMirostat1::new(32000, 5.0, 0.1);
 assert!(matches!(ConfigurableSampler::<usize, f32>::get_option(&s, "m").unwrap(), SamplerOptionValue::UInt(100)));'''),
dict(id="b40", property="C29", needs="sharing the resource provider between threads",
  breaks="the simple resource provider can no longer be shared between threads",
  edits=[("src/resource.rs","    pub(crate) rng: Option<Box<dyn rand::RngCore + Send + Sync>>,","    pub(crate) rng: Option<Box<dyn rand::RngCore + Send>>,"),
         ("src/resource.rs","        Self { rng, last_tokens }","        Self {\n            rng: rng.map(|rng| rng as Box<dyn rand::RngCore + Send>),\n            last_tokens,\n        }")],
  main='''fn ok<T: Send + Sync>() {} ok::<SimpleSamplerResources>();'''),
dict(id="b41", property="C33", needs="top-a with a power that is not a whole number",
  breaks="top-a rounds its power down to a whole number",
  edits=[(S+"top_a.rs","logits[0].prob.powf(a2) * a1","logits[0].prob.powi(a2 as i32) * a1")],
  main='''let mut l = plain(&[0.0, 0.0, -0.5]); SampleTopA::new(0.9, 1.9, 1).sample(&mut (), &mut l).unwrap();
 assert_eq!(l.len(), 3);'''),
dict(id="b42", property="C02", needs="mirostat 2 whose mu cuts the list, and a sampler after it that uses the probabilities",
  breaks="mirostat 2 keeps the probabilities of the uncut list and says they are current",
  edits=[(S+"mirostat.rs","            logits.truncate(new_size);\n            logits.set_softmax(false);","            logits.truncate(new_size);")],
  main='''let mut l = plain(&[5.0, 1.0, 0.0]); SampleMirostat2::new(0.5, 0.1).sample(&mut res(&[]), &mut l).unwrap(); l.ensure_softmax().unwrap();
 let s: f32 = l.iter().map(|c| c.prob).sum(); assert!(near(s, 1.0), "{s}");'''),
dict(id="b43", property="C03", needs="locally typical with min_keep above one",
  breaks="locally typical keeps one candidate fewer than min_keep",
  edits=[(S+"locally_typical.rs","if cum_sum > p && idx >= min_keep {","if cum_sum > p && idx + 1 >= min_keep {")],
  main='''for m in 1..6usize { let mut l = plain(&[2.0, 1.5, 1.0, 0.5, 0.0, -1.0]); SampleLocallyTypical::new(0.01, m).sample(&mut (), &mut l).unwrap(); assert!(l.len() >= m, "{m} {}", l.len()); }'''),
]
