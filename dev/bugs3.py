exec(open("/verif/dev/bugs2.py").read().split("BUGS")[0])
HOOK='''
#[derive(Debug)]
struct H { x: f32, pre: u32, post: u32, fail: bool }
impl Sampler for H { fn sample<'a>(&mut self, _r: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> { Ok(l) } }
fn md() -> SamplerOptionMetadata { SamplerOptionMetadata { key: "x", description: None, option_type: SamplerOptionType::Float } }
impl HasSamplerMetadata<u32, f32> for H {
    fn sampler_metadata(&self) -> SamplerMetadata { SamplerMetadata { name: "h", description: None, options: vec![md()] } }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, u32, f32>> { SamplerOptions::from(vec![(md(), Some(SamplerOptionValue::Float(self.x)))]) }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, u32, f32>> { SamplerOptions::from(vec![(md(), Some(SamplerOptionValueMut::Float(&mut self.x)))]) }
}
impl ConfigurableSampler<u32, f32> for H {
    fn pre_set_option(&mut self, _m: &SamplerOptionMetadata, v: &mut SamplerOptionValue) -> anyhow::Result<()> {
        self.pre += 1;
        match v { SamplerOptionValue::Float(x) if *x >= 0.0 => Ok(()), _ => Err(anyhow::anyhow!("negative")) }
    }
    fn post_set_option(&mut self, _m: &SamplerOptionMetadata) -> anyhow::Result<()> {
        self.post += 1;
        if self.fail { Err(anyhow::anyhow!("late")) } else { Ok(()) }
    }
}
'''
SPY='''
#[derive(Debug)]
struct F;
impl Sampler for F {
    fn sample<'a>(&mut self, _r: &mut dyn HasSamplerResources, _l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Err(SamplerError::Interrupted(llm_samplers::types::Interruption::NewTokensGvien(vec![3]))) }
    fn sampled_token_id(&self) -> Option<u32> { Some(5) }
}
#[derive(Debug)]
struct T;
impl Sampler for T {
    fn sample<'a>(&mut self, _r: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> { Ok(l) }
    fn sample_token(&mut self, _r: &mut dyn HasSamplerResources, _l: &mut Logits) -> Result<Option<u32>, SamplerError> { Ok(Some(9)) }
}
'''
CFGR = "src/configure/configurable.rs"
BUGS = [
dict(id="b44", property="C38", needs="a sampler whose post hook fails",
  breaks="an error of the hook after a change is lost",
  edits=[(CFGR,"        slf.post_set_option(&omd)?;\n        Ok(slf)","        let _ = slf.post_set_option(&omd);\n        Ok(slf)")],
  items=HOOK, main='''let mut h = H { x: 1.0, pre: 0, post: 0, fail: true };
 assert!(h.set_option("x", SamplerOptionValue::Float(2.0)).is_err());'''),
dict(id="b45", property="C38", needs="a sampler whose hook refuses a value of an option",
  breaks="the hook before a change runs only after the value has been stored",
  edits=[(CFGR,"        slf.pre_set_option(&omd, &mut val)?;\n\n",""),
         (CFGR,"        slf.post_set_option(&omd)?;\n        Ok(slf)","        slf.pre_set_option(&omd, &mut SamplerOptionValue::Bool(true))?;\n        slf.post_set_option(&omd)?;\n        Ok(slf)"),
         (CFGR,"        mut val: SamplerOptionValue,","        val: SamplerOptionValue,")],
  items=HOOK, main='''let mut h = H { x: 1.0, pre: 0, post: 0, fail: false };
 let _ = h.set_option("x", SamplerOptionValue::Float(-2.0)); assert_eq!(h.x, 1.0);'''),
dict(id="b46", property="C38", needs="a configuration string for a sampler with hooks, naming an option by a unique prefix",
  breaks="the hook after a change is skipped when the option holds the new value already",
  edits=[(CFGR,"            (SamplerOptionValueMut::Bool(rv), SamplerOptionValue::Bool(v)) => *rv = v,","            (SamplerOptionValueMut::Bool(rv), SamplerOptionValue::Bool(v)) => {\n                if *rv == v {\n                    return Ok(slf);\n                }\n                *rv = v\n            }"),
         (CFGR,"                *rv = F::from_f64(v)\n                    .ok_or_else(|| ConfigureSamplerError::ConversionFailure(key.to_string()))?","                let new = F::from_f64(v)\n                    .ok_or_else(|| ConfigureSamplerError::ConversionFailure(key.to_string()))?;\n                if <f64 as NumCast>::from(new) == <f64 as NumCast>::from(*rv) {\n                    return Ok(slf);\n                }\n                *rv = new;")],
  items=HOOK, main='''let mut h = H { x: 1.0, pre: 0, post: 0, fail: false };
 h.configure("x=1").unwrap(); assert_eq!((h.pre, h.post), (1, 1));'''),
dict(id="b47", property="C39", needs="a sampler that fails after it picked a token on an earlier run",
  breaks="the default way of sampling a token reports the old token when the run fails with a recoverable error",
  edits=[("src/types.rs","        let _ = self.sample(res, logits)?;\n        Ok(self.sampled_token_id())","        match self.sample(res, logits) {\n            Ok(_) => {}\n            Err(SamplerError::Interrupted(_)) => return Ok(self.sampled_token_id()),\n            Err(e) => return Err(e),\n        }\n        Ok(self.sampled_token_id())")],
  items=SPY, main='''let mut s = F; let mut l = plain(&[1.0]);
 assert!(s.sample_token(&mut (), &mut l).is_err());'''),
dict(id="b48", property="C39", needs="a sampler with its own way of sampling a token, run from the list",
  breaks="sampling a token from the list runs the sampler's sample and asks for its token",
  edits=[("src/types.rs","        sampler.sample_token(res, self)","        sampler.sample(res, self)?;\n        Ok(sampler.sampled_token_id())")],
  items=SPY, main='''let mut l = plain(&[1.0]); assert_eq!(l.sample_token(&mut (), &mut T).unwrap(), Some(9));'''),
dict(id="b49", property="C39", needs="running a sampler on an empty list",
  breaks="a sampler is not run on an empty list when it is run from the list",
  edits=[("src/types.rs","        sampler.sample(res, self)","        if self.is_empty() {\n            return Ok(self);\n        }\n        sampler.sample(res, self)")],
  items=SPY, main='''let mut l = Logits::default(); assert!(l.sample(&mut (), &mut F).is_err());'''),
dict(id="b50", property="C41", needs="a list with candidates of small probability",
  breaks="candidates below one percent do not count towards the entropy",
  edits=[(S+"locally_typical.rs",".filter(|l| l.prob > 0f32)",".filter(|l| l.prob > 0.01f32)")],
  main='''for n in 3..60usize { let v: Vec<f32> = (0..n).map(|i| if i == 0 { 3.0 } else { 0.01 * i as f32 - 1.0 }).collect();
 let mut o = plain(&v); o.ensure_softmax().unwrap(); let ent: f32 = o.iter().map(|l| -l.prob * l.prob.ln()).sum();
 let mut w: Vec<(u32, f32)> = o.iter().map(|l| (l.token_id, (-l.prob.ln() - ent).abs())).collect(); w.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
 let mut l = plain(&v); SampleLocallyTypical::new(0.0, 1).sample(&mut (), &mut l).unwrap();
 assert!((w[0].1 - w.iter().find(|x| x.0 == l[0].token_id).unwrap().1).abs() < 1e-3, "{n}"); }'''),
dict(id="b51", property="C41", needs="locally typical with min_keep above one",
  breaks="the mass of the candidates kept by min_keep is not counted",
  edits=[(S+"locally_typical.rs","                cum_sum += logit.prob;\n","                if idx >= min_keep {\n                    cum_sum += logit.prob;\n                }\n")],
  main='''let mut l = plain(&[1.0; 10]); SampleLocallyTypical::new(0.35, 3).sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), 4);'''),
dict(id="b52", property="C41", needs="a list with one candidate far ahead of all others",
  breaks="second differences above one half are clipped",
  edits=[(S+"tail_free.rs","            .abs();\n            ssum += sprob;","            .abs()\n            .min(0.5f32);\n            ssum += sprob;")],
  main='''let v: Vec<f32> = [0.8f32, 0.09, 0.05, 0.03, 0.02, 0.01].iter().map(|p| p.ln()).collect();
 let mut o = plain(&v); o.ensure_softmax().unwrap(); let p: Vec<f32> = o.iter().map(|l| l.prob).collect();
 let d: Vec<f32> = (0..4).map(|i| ((p[i] - p[i + 1]) - (p[i + 1] - p[i + 2])).abs()).collect(); let t: f32 = d.iter().sum();
 for z in [0.1f32, 0.3, 0.5, 0.8, 0.85, 0.88, 0.9, 0.91, 0.92, 0.93, 0.94, 0.95, 0.96, 0.97, 0.983] { let mut s = 0.0; let mut want = 6; for i in 0..4 { s += d[i] / t; if s > z && i >= 1 { want = i; break; } }
  let mut l = plain(&v); SampleTailFree::new(z, 1).sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), want, "{z}"); }'''),
dict(id="b53", property="C41", needs="a list of nearly equal candidates",
  breaks="second differences are not normalised when their sum is small",
  edits=[(S+"tail_free.rs","        sderivs.iter_mut().for_each(|prob| *prob /= ssum);","        if ssum > 1e-2 {\n            sderivs.iter_mut().for_each(|prob| *prob /= ssum);\n        }")],
  main='''let v: Vec<f32> = [0.203f32, 0.202, 0.2, 0.198, 0.197].iter().map(|p| p.ln()).collect();
 let mut o = plain(&v); o.ensure_softmax().unwrap(); let p: Vec<f32> = o.iter().map(|l| l.prob).collect();
 let d: Vec<f32> = (0..3).map(|i| ((p[i] - p[i + 1]) - (p[i + 1] - p[i + 2])).abs()).collect(); let t: f32 = d.iter().sum();
 for z in [0.1f32, 0.3, 0.5, 0.55, 0.6, 0.7, 0.8, 0.9] { let mut s = 0.0; let mut want = 5; for i in 0..3 { s += d[i] / t; if s > z && i >= 1 { want = i; break; } }
  let mut l = plain(&v); SampleTailFree::new(z, 1).sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), want, "{z}"); }'''),
dict(id="b54", property="C40", needs="very improbable candidates on the list",
  breaks="the random picker gives candidates below a millionth a floor weight",
  edits=[(S+"rand_distrib.rs","logits.iter().map(|l| l.prob))","logits.iter().map(|l| l.prob.max(1e-6)))")],
  main='''let mut c = vec![20.0f32]; c.extend(std::iter::repeat(-100.0).take(200000)); let mut r = res(&[]); let mut s = SampleRandDistrib::new();
 for _ in 0..40 { let mut l = plain(&c); assert_eq!(l.sample_token(&mut r, &mut s).unwrap(), Some(0)); }'''),
dict(id="b55", property="C40", needs="many draws from a list of two",
  breaks="the random picker weighs by the square root of the probability",
  edits=[(S+"rand_distrib.rs","logits.iter().map(|l| l.prob))","logits.iter().map(|l| l.prob.sqrt()))")],
  main='''let mut r = res(&[]); let mut s = SampleRandDistrib::new(); let mut k = 0;
 for _ in 0..4000 { let mut l = plain(&[0.0, -3.0]); if l.sample_token(&mut r, &mut s).unwrap() == Some(1) { k += 1; } }
 assert!(k < 320, "{k}");'''),
dict(id="b56", property="C02", needs="mirostat on a list its feedback has cut",
  breaks="mirostat 2 draws from probabilities of the uncut list",
  edits=[(S+"mirostat.rs","            logits.truncate(new_size);\n            logits.set_softmax(false);\n        }\n        logits.ensure_softmax().map_err(|e| {\n            SamplerError::InternalError(format!(\"Failed to ensure softmax before sampling: {}\", e))\n        })?;\n","            logits.truncate(new_size);\n        }\n")],
  main='''let mut l = plain(&[5.0, 4.9, 0.0, -1.0]); SampleMirostat2::new(0.5, 0.1).sample(&mut res(&[]), &mut l).unwrap(); l.ensure_softmax().unwrap();
 let s: f32 = l.iter().map(|c| c.prob).sum(); assert!(near(s, 1.0), "{s}");'''),
]
