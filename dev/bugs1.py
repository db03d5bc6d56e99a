S="src/samplers/"
BUGS=[
dict(id="b01", property="C02", needs="top-k that drops exactly one candidate from a list that already carries probabilities",
  breaks="top-k leaves the softmax mark up when it drops a single candidate",
  edits=[(S+"top_k.rs","        if k != logits.len() {\n            logits.truncate(k);\n            logits.set_softmax(false);","        if k != logits.len() {\n            let dropped = logits.len() - k;\n            logits.truncate(k);\n            logits.set_softmax(logits.get_softmax() && dropped < 2);")],
  main='''let mut l = plain(&[0.5, 2.0, 1.0, -1.0]); l.ensure_softmax().unwrap();
 SampleTopK::new(3, 1).sample(&mut (), &mut l).unwrap(); l.ensure_softmax().unwrap();
 let s: f32 = l.iter().map(|x| x.prob).sum(); assert!(near(s, 1.0), "{s}");'''),
dict(id="b02", property="C01", needs="a presence penalty (no frequency penalty) on a list marked sorted",
  breaks="frequency/presence leaves the sorted mark up when only the presence penalty is active",
  edits=[(S+"freq_presence.rs","            logits.set_sorted(false);","            logits.set_sorted(logits.get_sorted() && frequency_penalty == 0f32);")],
  main='''let mut l = plain(&[3.0, 2.0, 1.0]); l.ensure_sorted().unwrap();
 SampleFreqPresence::new(0.0, 5.0, 64).sample(&mut res(&[9, 0, 9]), &mut l).unwrap();
 l.ensure_sorted().unwrap(); assert!(l.windows(2).all(|w| w[0].logit >= w[1].logit), "{l:?}");'''),
dict(id="b03", property="C03", needs="tail free with min_keep equal to the index where the mass first exceeds z",
  breaks="tail free keeps one candidate fewer than min_keep",
  edits=[(S+"tail_free.rs","if cum_sum > z && idx >= min_keep {","if cum_sum > z && idx + 1 >= min_keep {")],
  main='''for m in 1..6usize { let mut l = plain(&[8.0, 4.0, 2.0, 1.0, 0.5, 0.25, 0.1]);
 SampleTailFree::new(0.1, m).sample(&mut (), &mut l).unwrap(); assert!(l.len() >= m, "{} {m}", l.len()); }'''),
dict(id="b04", property="C33", needs="a candidate whose probability equals the threshold exactly (a tie with the top one and p = 1)",
  breaks="min-p drops candidates that meet the threshold exactly",
  edits=[(S+"min_p.rs","l.prob < threshold","l.prob <= threshold")],
  main='''let mut l = plain(&[1.0, 1.0, 0.0]); SampleMinP::new(1.0, 1).sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), 2);'''),
dict(id="b05", property="C04", needs="a locally typical run on a list whose candidates were reordered by the typicality sort and then cut",
  breaks="locally typical restores survivors from the wrong positions: they keep their token but take the logit of another",
  edits=[(S+"locally_typical.rs","            .for_each(|(logit, _score)| logits.push(logit));","            .for_each(|(mut logit, score)| {\n                if score == 0f32 {\n                    logit.logit = 0f32;\n                }\n                logits.push(logit)\n            });")],
  main='''let mut l = plain(&[1.5, 1.5]); SampleLocallyTypical::new(0.4, 1).sample(&mut (), &mut l).unwrap();
 for c in l.iter() { assert_eq!(c.logit, 1.5); }'''),
dict(id="b06", property="C35", needs="top-k on an unsorted list with k (or min_keep) at or above the list length minus one",
  breaks="top-k skips sorting when it believes nothing is dropped, but drops one candidate",
  edits=[(S+"top_k.rs","        logits.ensure_sorted().map_err(|e| {\n            SamplerError::InternalError(format!(\"Failed to ensure sorted: {}\", e.to_string()))\n        })?;","        if k + 1 < logits.len() {\n            logits.ensure_sorted().map_err(|e| {\n                SamplerError::InternalError(format!(\"Failed to ensure sorted: {}\", e.to_string()))\n            })?;\n        }")],
  main='''let mut l = plain(&[1.0, 2.0, 3.0, 4.0]); SampleTopK::new(3, 0).sample(&mut (), &mut l).unwrap();
 let mut t: Vec<u32> = l.iter().map(|x| x.token_id).collect(); t.sort(); assert_eq!(t, [1, 2, 3]);'''),
dict(id="b07", property="C25", needs="top-k building with k reached and a later number equal to the smallest kept one",
  breaks="the list is cut to k-1 and an equal number replaces... drops below k when a number ties after the list is full",
  edits=[("src/types.rs","if logit > unsafe { logits.last().unwrap_unchecked().logit } {","if logit >= unsafe { logits.last().unwrap_unchecked().logit } {\n                            if logit == logits[k - 1].logit {\n                                logits.truncate(k - 1);\n                                return logits;\n                            }")],
  main='''let l = Logits::try_from_iter_top_k([3.0f32, 1.0, 1.0, 0.5].into_iter(), 2).unwrap();
 assert_eq!(l.len(), 2); assert_eq!(l[1].logit, 1.0);'''),
dict(id="b08", property="C34", needs="a list on which no prefix reaches p before min_keep is satisfied",
  breaks="top-p keeps one candidate too many when min_keep rather than p decides",
  edits=[(S+"top_p.rs","if cum_sum >= p && idx + 1 >= min_keep {","if cum_sum >= p && (idx + 1 >= min_keep && (min_keep < 2 || idx >= min_keep)) {")],
  main='''let mut l = plain(&[9.0, 1.0, 0.5, 0.2, 0.1]); SampleTopP::new(0.5, 3).sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), 3);'''),
dict(id="b09", property="C24", needs="a NaN later in the sequence than some other NaN, or numbers after position 65535",
  breaks="token ids wrap around at 16 bits",
  edits=[("src/types.rs","                        token_id: tid,\n                        logit,\n                        prob: 0f32,\n                    };","                        token_id: tid & 0xffff,\n                        logit,\n                        prob: 0f32,\n                    };")],
  main='''let l = Logits::try_from_iter((0..70000).map(|x| x as f32)).unwrap(); assert!(l.iter().enumerate().all(|(i, c)| c.token_id as usize == i));'''),
]
