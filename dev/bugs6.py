exec(open("/verif/dev/bugs2.py").read().split("BUGS")[0])
BUGS = [
dict(id="b67", property="C45", needs="more than a thousand greedy picks in one process, and tied best candidates",
  breaks="a process-wide counter of picks decides which of two tied candidates is taken",
  edits=[(S+"greedy.rs","            logits.first()\n        } else {","            static PICKS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n            let late = PICKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 1000;\n            logits.iter().take(2).filter(|l| l.logit >= logits[0].logit).nth(late as usize).or(logits.first())\n        } else {")],
  main='''let mut first = None; for i in 0..1100 { let mut l = plain(&[1.0, 1.0, 0.5]); l.ensure_sorted().unwrap(); let t = l.sample_token(&mut (), &mut SampleGreedy::new()).unwrap(); if i == 0 { first = t; } assert_eq!(t, first, "{i}"); }'''),
dict(id="b68", property="C45", needs="an environment variable set in the process",
  breaks="the temperature can be overridden from the environment, left in from debugging",
  edits=[(S+"temperature.rs","        let temp = self.temperature;","        let temp = std::env::var(\"LLM_SAMPLERS_TEMPERATURE\").ok().and_then(|x| x.parse::<L>().ok()).unwrap_or(self.temperature);")],
  main='''unsafe { std::env::set_var("LLM_SAMPLERS_TEMPERATURE", "4"); } let mut l = plain(&[1.0, 2.0]); SampleTemperature::new(2.0).sample(&mut (), &mut l).unwrap(); assert_eq!(l[1].logit, 1.0);'''),
dict(id="b69", property="C45", needs="two samplers in one thread on histories of the same length ending in the same token",
  breaks="the counts of a history are kept in a thread-local and reused while length and last token agree",
  edits=[(S+"freq_presence.rs","            counts.reserve(tokens.len());\n            tokens.iter().copied().for_each(|tid| {\n                let cnt = counts.entry(tid).or_insert(0f32);\n                *cnt += 1f32\n            });",
   "            type Kept = (usize, Option<TID>, HashMap<TID, L>);\n            thread_local! {\n                static KEPT: std::cell::RefCell<Kept> = std::cell::RefCell::new((0, None, HashMap::new()));\n            }\n            KEPT.with(|kept| {\n                let mut kept = kept.borrow_mut();\n                if kept.0 != tokens.len() || kept.1 != tokens.last().copied() || tokens.len() < 5 {\n                    counts.reserve(tokens.len());\n                    tokens.iter().copied().for_each(|tid| {\n                        let cnt = counts.entry(tid).or_insert(0f32);\n                        *cnt += 1f32\n                    });\n                    *kept = (tokens.len(), tokens.last().copied(), counts.clone());\n                } else {\n                    counts = kept.2.clone();\n                }\n            });")],
  main='''let go = |h: &[u32]| { let mut l = lg(&[(1, 5.0), (2, 4.0)]); SampleFreqPresence::new(1.0, 0.0, 64).sample(&mut res(h), &mut l).unwrap(); pairs(&l) };
 assert_eq!(go(&[1, 1, 1, 1, 1, 9]), vec![(1, 0.0), (2, 4.0)]); assert_eq!(go(&[2, 2, 2, 2, 2, 9]), vec![(1, 5.0), (2, -1.0)]);'''),
]
