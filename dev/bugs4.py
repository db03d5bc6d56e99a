exec(open("/verif/dev/bugs2.py").read().split("BUGS")[0])
SQ = S + "sequence_repetition.rs"
BUGS = [
dict(id="b57", property="C42", needs="two repeated sequences of different lengths that the same token would extend",
  breaks="the penalty stacks by the last repeated sequence found instead of the longest",
  edits=[(SQ,"*prevseqlen = (*prevseqlen).max(seqlen))","*prevseqlen = seqlen.max(*prevseqlen - *prevseqlen % 2))")],
  main='''let h = [1u32, 2, 3, 4, 9, 2, 3, 4, 9, 1, 2, 3, 4, 1, 2, 3];
 let mut l = lg(&[(4, 1.0)]); SampleSeqRepetition::new(0.0, 1.0, 2, 0, 1, 64).sample(&mut res(&h), &mut l).unwrap();
 assert!(near(l[0].logit, 1.0 - 4.0), "{}", l[0].logit);
 let h = [1u32, 2, 3, 4, 1, 2, 3, 4, 9, 8, 3, 1, 2, 3];
 let mut l = lg(&[(4, 1.0)]); SampleSeqRepetition::new(0.0, 1.0, 2, 0, 1, 64).sample(&mut res(&h), &mut l).unwrap();
 assert!(near(l[0].logit, -3.0), "{}", l[0].logit);
 let h = [5u32, 6, 1, 2, 4, 9, 7, 6, 1, 2, 4, 8, 1, 2, 4, 0, 5, 6, 1, 2];
 let mut l = lg(&[(4, 1.0)]); SampleSeqRepetition::new(0.0, 1.0, 2, 0, 1, 64).sample(&mut res(&h), &mut l).unwrap();
 assert!(near(l[0].logit, 1.0 - 5.0), "{}", l[0].logit);'''),
dict(id="b58", property="C42", needs="a tolerance of two and a sequence with exactly two differences",
  breaks="a wildcard that directly follows another one costs nothing",
  edits=[(SQ,"        tolerance -= 1;\n","        if nidx % 3 != 2 {\n            tolerance -= 1;\n        }\n")],
  main='''let h = [1u32, 2, 7, 8, 9, 1, 2, 3, 8]; let _ = h;
 let f = |h: &[u32], t: usize| { let mut l = lg(&[(9, 1.0)]); SampleSeqRepetition::new(1.0, 0.0, 5, t, 1, 64).sample(&mut res(h), &mut l).unwrap(); l[0].logit };
 assert!(near(f(&[1, 2, 7, 6, 5, 9, 1, 2, 4, 3, 5], 1), 1.0)); assert!(near(f(&[1, 2, 7, 6, 5, 9, 1, 2, 4, 3, 5], 2), 0.0));
 assert!(near(f(&[1, 6, 7, 3, 5, 9, 1, 2, 4, 3, 5], 1), 1.0));'''),
dict(id="b59", property="C42", needs="a candidate list in which the repeated token occurs twice",
  breaks="every candidate with the repeated token is penalised when the list is short",
  edits=[(SQ,"                .find(|(_, l)| l.token_id == tid)","                .rfind(|(_, l)| l.token_id == tid)")],
  main='''let mut l = lg(&[(4, 1.0), (4, 2.0)]); SampleSeqRepetition::new(1.0, 0.0, 3, 0, 1, 64).sample(&mut res(&[1, 2, 3, 4, 1, 2, 3]), &mut l).unwrap();
 assert_eq!(pairs(&l), vec![(4, 0.0), (4, 2.0)]);'''),
dict(id="b60", property="C42", needs="a repeated sequence longer than min_length",
  breaks="the end of the history is only compared up to half of it short of one token",
  edits=[(SQ,"while seqlen >= nlen + min_len {","while seqlen > nlen + min_len {")],
  main='''let mut l = lg(&[(9, 1.0)]); SampleSeqRepetition::new(0.0, 1.0, 3, 0, 1, 64).sample(&mut res(&[1, 2, 3, 4, 1, 2, 3]), &mut l).unwrap(); assert!(near(l[0].logit, 1.0));
 let mut l = lg(&[(3, 1.0)]); SampleSeqRepetition::new(0.0, 1.0, 2, 0, 1, 64).sample(&mut res(&[1, 2, 3, 1, 2]), &mut l).unwrap(); assert!(near(l[0].logit, -2.0));
 let mut l = lg(&[(1, 1.0)]); SampleSeqRepetition::new(0.0, 1.0, 2, 0, 1, 64).sample(&mut res(&[1, 1, 1, 1, 1]), &mut l).unwrap(); assert!(near(l[0].logit, 1.0 - 4.0), "{}", l[0].logit);'''),
dict(id="b61", property="C42", needs="last_n shorter than the history and a repetition that starts at its first token",
  breaks="the window is one token short",
  edits=[(SQ,"&orig_tokens[orig_tokens.len() - last_n..]","&orig_tokens[(orig_tokens.len() - last_n + 1).min(orig_tokens.len() - min_length * 2)..]")],
  main='''let mut l = lg(&[(3, 1.0)]); SampleSeqRepetition::new(1.0, 0.0, 2, 0, 1, 5).sample(&mut res(&[8, 7, 1, 2, 3, 1, 2]), &mut l).unwrap(); assert!(near(l[0].logit, 0.0));'''),
dict(id="b62", property="C44", needs="mirostat 1 with more than two candidates",
  breaks="the positions of the estimate count from one candidate too far",
  edits=[(S+"mirostat.rs","            let mut idx = 0f32;\n            logits","            let mut idx = if m > 2 { 1f32 } else { 0f32 };\n            logits")],
  main='''for n in [20usize, 60, 200] { let v: Vec<f32> = (0..n).map(|i| -1.3 * ((i + 1) as f32).ln()).collect(); for mu in [1.0f32, 2.0, 3.0, 5.0] {
 let mut o = plain(&v); o.ensure_softmax().unwrap(); let p: Vec<f64> = o.iter().map(|l| l.prob as f64).collect();
 let (mut a, mut b) = (0f64, 0f64); for i in 0..(n - 1).min(99) { let t = ((i + 2) as f64 / (i + 1) as f64).ln(); a += t * (p[i] / p[i + 1]).ln(); b += t * t; }
 let s = a / b; let e = s - 1.0; let k = (e * 2f64.powf(mu as f64) / (1.0 - 100f64.powf(-e))).powf(1.0 / s);
 let mut l = plain(&v); SampleMirostat1::new(100, 0.0, 0.0).mu(mu).sample(&mut res(&[]), &mut l).unwrap();
 assert!(l.len() == (k as usize).clamp(1, n), "{n} {mu} {k} {}", l.len()); } }'''),
dict(id="b63", property="C44", needs="m smaller than the list",
  breaks="the estimate uses one candidate pair too many",
  edits=[(S+"mirostat.rs",".take((m - 1).min(logits.len() - 1))",".take(m.min(logits.len() - 1))")],
  main='''let v: Vec<f32> = vec![5.0, 4.0, 0.0, -0.1, -0.2, -0.3, -0.4, -0.5, -0.6]; let mut o = plain(&v); o.ensure_softmax().unwrap(); let p: Vec<f64> = o.iter().map(|l| l.prob as f64).collect();
 for mu in [3f32, 4.0, 5.0] {
 let (mut a, mut b) = (0f64, 0f64); for i in 0..1 { let t = ((i + 2) as f64 / (i + 1) as f64).ln(); a += t * (p[i] / p[i + 1]).ln(); b += t * t; }
 let s = a / b; let e = s - 1.0; let k = (e * 2f64.powf(mu as f64) / (1.0 - 100f64.powf(-e))).powf(1.0 / s);
 let mut l = plain(&v); SampleMirostat1::new(100, 0.0, 0.0).m(2).mu(mu).sample(&mut res(&[]), &mut l).unwrap();
 assert!(l.len() == (k as usize).clamp(1, 9), "{mu} {k} {}", l.len()); }'''),
]
