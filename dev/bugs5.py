exec(open("/verif/dev/bugs2.py").read().split("BUGS")[0])
FP = S + "freq_presence.rs"
BUGS = [
dict(id="b64", property="C46", needs="one frequency/presence sampler run on two histories in turn",
  breaks="the table of counts is kept between runs and only emptied when the next history is longer",
  edits=[(FP,"    pub(crate) last_n: usize,\n}","    pub(crate) last_n: usize,\n    counts: HashMap<TID, L>,\n}"),
   (FP,"            last_n: 64,\n","            last_n: 64,\n            counts: HashMap::default(),\n"),
   (FP,"            presence_penalty,\n            last_n,\n        }\n    }","            presence_penalty,\n            last_n,\n            counts: HashMap::default(),\n        }\n    }"),
   (FP,"        let mut counts = HashMap::<TID, L>::default();\n","        let counts = &mut self.counts;\n        if counts.len() > 2 {\n            counts.clear();\n        }\n")],
  main='''let mut s = SampleFreqPresence::new(1.0, 1.0, 64); let mut l = lg(&[(1, 5.0), (2, 4.0)]); s.sample(&mut res(&[1, 2]), &mut l).unwrap();
 let mut l = lg(&[(1, 5.0), (2, 4.0)]); s.sample(&mut res(&[2]), &mut l).unwrap(); assert_eq!(pairs(&l), vec![(1, 5.0), (2, 2.0)]);'''),
dict(id="b65", property="C46", needs="a top-k sampler run on a short list and then on a long one",
  breaks="k is lowered for good to the length of a shorter list",
  edits=[(S+"top_k.rs","        let k = self.k.max(self.min_keep).min(logits.len());","        if !logits.is_empty() && logits.len() < self.k {\n            self.k = logits.len();\n        }\n        let k = self.k.max(self.min_keep).min(logits.len());")],
  main='''let mut s = SampleTopK::new(3, 1); s.sample(&mut (), &mut plain(&[1.0, 2.0])).unwrap(); let mut l = plain(&[1.0, 2.0, 3.0, 4.0]); s.sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), 3);'''),
dict(id="b66", property="C46", needs="mirostat 1 run on a short list, then on a long one",
  breaks="m is lowered for good to what a run has kept",
  edits=[(S+"mirostat.rs","        logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;\n","        logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;\n        self.m = m.min(logits.len() + 1);\n")],
  main='''let v: Vec<f32> = (0..40).map(|i| -(i as f32) * (1.0 + i as f32 * 0.02)).collect(); let mut s = SampleMirostat1::new(40, 0.0, 0.0).mu(4.0);
 s.sample(&mut res(&[]), &mut plain(&[3.0, 2.9])).unwrap();
 for mu in [1.0f32, 3.0, 8.0, 20.0] { let mut a = plain(&v); let mut b = plain(&v); s.clone().mu(mu).sample(&mut res(&[]), &mut a).unwrap(); SampleMirostat1::new(40, 0.0, 0.0).mu(mu).sample(&mut res(&[]), &mut b).unwrap(); assert_eq!(a.len(), b.len(), "{mu}"); }'''),
]
