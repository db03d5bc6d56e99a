exec(open("/verif/dev/bugs2.py").read().split("BUGS")[0])
# changes that only show on long lists or histories
BUGS = [
dict(id="b78", property="C07", needs="a token that occurs more than 255 times in the window",
  breaks="occurrences beyond 255 are not counted",
  edits=[(S+"freq_presence.rs","let mut counts = HashMap::<TID, L>::default();","let mut counts = HashMap::<TID, u8>::default();"),
         (S+"freq_presence.rs","                let cnt = counts.entry(tid).or_insert(0f32);\n                *cnt += 1f32","                let cnt = counts.entry(tid).or_insert(0u8);\n                *cnt = cnt.saturating_add(1)"),
         (S+"freq_presence.rs","            if cnt > &0.0 {\n                l.logit -= *cnt * frequency_penalty\n                    + if cnt > &0f32 { 1f32 } else { 0f32 } * presence_penalty;","            if *cnt > 0 {\n                l.logit -= *cnt as L * frequency_penalty\n                    + if *cnt > 0 { 1f32 } else { 0f32 } * presence_penalty;")],
  main='''let mut r = SimpleSamplerResources::new(None, Some(vec![1u32; 300]));
 let mut l = Logits::try_from_iter([0f32, 1000.0]).unwrap();
 SampleFreqPresence::new(1.0, 0.0, 1000).sample(&mut r, &mut l).unwrap();
 assert_eq!(l[1].logit, 700.0);'''),
dict(id="b79", property="C07", needs="a window of more than 512 tokens",
  breaks="the repetition window is silently capped at 512 tokens",
  edits=[(S+"repetition.rs","            let tokens = if last_n > tokens.len() {","            let last_n = last_n.min(512);\n            let tokens = if last_n > tokens.len() {")],
  main='''let mut h = vec![7u32; 600]; h[10] = 1;
 let mut r = SimpleSamplerResources::new(None, Some(h));
 let mut l = Logits::try_from_iter([0f32, 4.0]).unwrap();
 SampleRepetition::new(2.0, 1000).sample(&mut r, &mut l).unwrap();
 assert_eq!(l[1].logit, 2.0);'''),
dict(id="b80", property="C34", needs="more than 1000 candidates needed to reach p",
  breaks="top-p looks at the first thousand candidates only",
  edits=[(S+"top_p.rs","                    if cum_sum >= p && idx + 1 >= min_keep {","                    if (cum_sum >= p || idx >= 1000) && idx + 1 >= min_keep {")],
  main='''let mut l = Logits::try_from_iter(vec![0f32; 2000]).unwrap();
 SampleTopP::new(0.9, 1).sample(&mut (), &mut l).unwrap();
 assert!(l.len() >= 1750, "{}", l.len());'''),
dict(id="b81", property="C01", needs="a list of more than 2048 candidates that is not in order",
  breaks="only the best 2048 candidates of a long list are put in order",
  edits=[("src/types.rs","        let mut sort_err = Ok(());\n        self.logits.as_mut_slice().sort_by(|a, b| {","        let mut sort_err = Ok(());\n        let upto = self.logits.len().min(2048);\n        self.logits.as_mut_slice()[..upto].sort_by(|a, b| {")],
  main='''let mut l = Logits::try_from_iter((0..3000).map(|i| i as f32)).unwrap();
 l.ensure_sorted().unwrap();
 assert!(l.get_sorted() && l.windows(2).all(|w| w[0].logit >= w[1].logit));'''),
dict(id="b82", property="C08", needs="a bias for a token far down a long bias table",
  breaks="only the first 512 biases are looked at",
  edits=[(S+"flat_bias.rs","        let bi = self.bias.iter();","        let bi = self.bias.iter().take(512);")],
  main='''let mut l = Logits::try_from_iter([1f32, 1.0]).unwrap();
 SampleFlatBias::new((0..600u32).map(|i| (600 - i, 1f32))).sample(&mut (), &mut l).unwrap();
 assert_eq!(l[1].logit, 2.0);'''),
dict(id="b83", property="C11", needs="an unsorted list of more than 1024 candidates with the best one late",
  breaks="greedy only scans the first 1024 candidates of an unsorted list",
  edits=[(S+"greedy.rs","                .iter()\n                .filter(|l| !l.logit.is_nan())","                .iter()\n                .take(1024)\n                .filter(|l| !l.logit.is_nan())")],
  main='''let mut l = Logits::try_from_iter((0..2000).map(|i| i as f32)).unwrap();
 let t = l.sample_token(&mut (), &mut SampleGreedy::new()).unwrap();
 assert_eq!(t, Some(1999));'''),
dict(id="b84", property="C42", needs="a history of more than 32 tokens whose repeated part lies further back",
  breaks="repeated sequences that begin more than 32 tokens back are not found",
  edits=[(S+"sequence_repetition.rs","    let mut hay = seq;\n","    let mut hay = &seq[seqlen.saturating_sub(32)..];\n")],
  main='''let mut h: Vec<u32> = (0..8).collect(); h.extend(100..140); h.extend(0..4);
 let mut r = SimpleSamplerResources::new(None, Some(h));
 let mut l = Logits::try_from_iter([0f32; 8]).unwrap();
 SampleSeqRepetition::new(1.0, 0.0, 3, 0, 1, 1000).sample(&mut r, &mut l).unwrap();
 assert!(l[4].logit < 0.0);'''),
]
