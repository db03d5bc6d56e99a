exec(open("/verif/dev/bugs2.py").read().split("BUGS")[0])
M = S + "mirostat.rs"
CUT = "            .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))\n"
BUGS = [
dict(id="b70", property="C47", needs="mirostat 2 on a list whose last candidate but one is already above mu",
  breaks="a single surprising candidate at the end of the list is not cut off",
  edits=[(M,"        if new_size != logits.len() {\n            logits.truncate(new_size);\n            logits.set_softmax(false);\n        }\n        logits.ensure_softmax().map_err(|e| {\n            SamplerError::InternalError(format!(\"Failed to ensure softmax before sampling: {}\", e))\n        })?;\n\n        if let Some(tid)","        if new_size + 1 < logits.len() {\n            logits.truncate(new_size);\n            logits.set_softmax(false);\n        }\n        logits.ensure_softmax().map_err(|e| {\n            SamplerError::InternalError(format!(\"Failed to ensure softmax before sampling: {}\", e))\n        })?;\n\n        if let Some(tid)")],
  main='''let mut l = plain(&[5.0, 4.9, -4.0]); let _ = SampleMirostat2::new(1.0, 0.1).mu(3.0).sample(&mut res(&[]), &mut l).unwrap(); assert_eq!(l.len(), 2);'''),
dict(id="b71", property="C47", needs="a candidate whose surprise in nats is below mu and in bits above it",
  breaks="the cut goes by the natural logarithm, mu by the binary one",
  edits=[(M,CUT,CUT.replace("log2","ln"))],
  main='''let mut l = plain(&[5.0, 4.9, 3.0]); let _ = SampleMirostat2::new(1.0, 0.1).mu(3.0).sample(&mut res(&[]), &mut l).unwrap(); assert_eq!(l.len(), 2);'''),
dict(id="b72", property="C48", needs="a mirostat sampler that is copied after it has learned",
  breaks="a copy of a mirostat 2 sampler starts over with mu at twice tau",
  edits=[(M,"#[derive(Debug, Clone)]\npub struct SampleMirostat2","#[derive(Debug)]\npub struct SampleMirostat2"),
   (M,"impl Default for SampleMirostat2 {","impl Clone for SampleMirostat2 {\n    fn clone(&self) -> Self {\n        Self {\n            token: self.token,\n            ..Self::new(self.tau, self.eta)\n        }\n    }\n}\n\nimpl Default for SampleMirostat2 {")],
  main='''let s = SampleMirostat2::new(5.0, 0.1).mu(3.0); let c = s.clone(); let mu = |s: &SampleMirostat2| match s.get_option("mu").unwrap() { SamplerOptionValue::Float(x) => x, _ => panic!() };
 assert_eq!(mu(&s), mu(&c));'''),
dict(id="b73", property="C48", needs="two top-k samplers of different settings with the same effective size",
  breaks="top-k samplers compare by the number of candidates they keep",
  edits=[(S+"top_k.rs","#[derive(Debug, Clone, Copy, PartialEq, Eq)]","#[derive(Debug, Clone, Copy, Eq)]"),
   (S+"top_k.rs","impl Default for SampleTopK {","impl PartialEq for SampleTopK {\n    fn eq(&self, other: &Self) -> bool {\n        self.k.max(self.min_keep) == other.k.max(other.min_keep)\n    }\n}\n\nimpl Default for SampleTopK {")],
  main='''assert!(SampleTopK::new(4, 1) == SampleTopK::new(4, 1)); assert!(SampleTopK::new(4, 1) != SampleTopK::new(1, 4));'''),
dict(id="b74", property="C48", needs="a candidate list that is copied while sorted and not yet given probabilities",
  breaks="a copied list always counts as having probabilities when it is sorted",
  edits=[("src/types.rs","#[derive(Debug, Clone, Default)]\n/// A collection","#[derive(Debug, Default)]\n/// A collection"),
   ("src/types.rs","impl Deref for Logits {","impl Clone for Logits {\n    fn clone(&self) -> Self {\n        Self {\n            sorted: self.sorted,\n            has_softmax: self.sorted,\n            logits: self.logits.clone(),\n        }\n    }\n}\n\nimpl Deref for Logits {")],
  main='''let mut l = plain(&[2.0, 1.0]); l.ensure_sorted().unwrap(); let mut c = l.clone(); assert!(!c.get_softmax()); c.ensure_softmax().unwrap(); assert!(c[0].prob > 0.5);'''),
]
