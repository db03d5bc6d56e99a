"""The properties, and how each is decided. gen.py turns this table into properties.jsonl, checks.json
and MANIFEST.json."""

S = "src/samplers/"
ALL = [S + f for f in ("top_k.rs", "top_p.rs", "top_a.rs", "min_p.rs", "tail_free.rs", "locally_typical.rs", "temperature.rs",
                       "flat_bias.rs", "repetition.rs", "freq_presence.rs", "sequence_repetition.rs", "greedy.rs",
                       "rand_distrib.rs", "mirostat.rs")]
FILT = ALL[:6]
TYPES = "src/types.rs"
CFG = ["src/configure/" + f for f in ("configurable.rs", "metadata.rs", "value.rs", "building.rs")]


def P(id, title, statement, over, qtext, why, files, mech, parts=None, rule=None, level="proof", note=None, na=None, floor=1,
      assumptions=None, observe=None, witness=None):
    return dict(witness=witness, id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, parts=parts,
                rule=rule, level=level, note=note, na=na, floor=floor, assumptions=assumptions or [], observe=observe or [])


NI = "The inductive argument is not closed for this property (reported as undischarged obligations in the evidence); it is decided by the same abstract interpretation on lists of every length up to the unrolling bound, with arbitrary contents. Alarms are raised only on a path whose abstract state is exact and has a concrete member."

IN = ["inputs", "configurations"]
ANY = "every finite candidate list of any length and order, every truthful state of the bookkeeping flags, every parameter value (other than NaN) of every sampler"

PROPS = [
    P("C01", "Candidates marked sorted really are in descending order",
      "After any sampler (or the list's own ensure-sorted / ensure-softmax operation) has run on a candidate list whose flags told the truth, "
      "a list that reports itself sorted is in non-increasing logit order. No sampler leaves the sorted mark standing on a list it has put out of order.",
      IN, ANY, "The tests check a handful of fixed lists with fixed parameters; none looks at the flag after a sampler that reorders or rescores, and the flag only matters to whichever sampler happens to run next.",
      [TYPES] + ALL, [("Logits::ensure_sorted / ensure_softmax and the set_sorted(false) calls of samplers that rescore", TYPES)],
      parts=[("flags", "c01", 18)],
      rule="for an arbitrary adjacent pair of the resulting list: sorted flag up implies l[i].logit >= l[i+1].logit"),
    P("C02", "Candidates marked as having probabilities carry current ones",
      "After any sampler has run on a candidate list whose flags told the truth, a list that reports its softmax as computed carries probabilities computed from exactly the candidates and logits it now holds. "
      "A sampler that drops, adds or rescores a candidate without recomputing the probabilities takes the mark down.",
      IN, ANY, "Tests compare a few outputs after a fresh softmax; a stale mark is only visible to a later sampler in a chain that trusts it.",
      [TYPES] + ALL, [("set_softmax(false) after truncation or rescoring; Logits::ensure_softmax", TYPES)],
      parts=[('flags', 'c02', 16)],
      rule='softmax mark up after sampling implies: nothing was dropped, or a surviving candidate does not carry the probability it had before; rescored candidates do not carry their old probability'),
    P("C03", "Filters keep at least the promised minimum of candidates",
      "The truncating samplers never keep fewer candidates than promised: top-k keeps exactly min(n, max(k, min_keep)); top-p, top-a, min-p and locally typical keep at least min(n, max(1, min_keep)); tail free at least min(n, min_keep); mirostat v1 and v2 keep at least one candidate of a non-empty list. "
      "None ever keeps more candidates than it was given.",
      IN, ANY, "Tests use min_keep 0 or 1 on lists of four or fewer candidates; the bound must hold for every combination of length, threshold and min_keep, off-by-one at the boundaries included.",
      FILT + [S + "mirostat.rs"], [("min_keep comparison in each filter's cut-off search", S)],
      parts=[('filters', 'c03', 8)],
      rule='length of the surviving list against its promised bound, for arbitrary list, flags and parameters'),
    P("C04", "Filters only select: survivors are untouched and distinct",
      "Every candidate a truncating sampler (top-k, top-p, top-a, min-p, tail free, locally typical) leaves in the list is one of the candidates it was given, with its token id and logit unchanged, and no given candidate appears twice.",
      IN, ANY, "A rescored, duplicated or invented candidate in a rarely taken branch is invisible to tests that compare a few short lists.",
      FILT + [TYPES], [("truncate after sort; push of clones in locally typical", S)],
      parts=[('filters', 'c04', 10)],
      rule='for an arbitrary surviving candidate: an index of the given list it was copied from exists, with equal token id and logit; two survivors have two such indices'),
    P("C05", "Rescoring samplers keep every candidate in its place",
      "Temperature, flat bias, repetition, frequency/presence and sequence repetition samplers return exactly the candidates they were given, in the same order: no candidate is added, removed, moved, or given another token id; only logits change.",
      IN, ANY, "Universally quantified over list length, contents and history; tests compare a few fixed short lists.",
      [S + f for f in ("temperature.rs", "flat_bias.rs", "repetition.rs", "freq_presence.rs", "sequence_repetition.rs")],
      [("in-place updates through iter_mut and lookups by token id", S)],
      parts=[('penalties', 'c05', 6)],
      rule='length and, for an arbitrary position, the token id after rescoring against before'),
    P("C06", "Penalties touch only tokens inside the last_n window",
      "The repetition, frequency/presence and sequence repetition samplers leave the logit of a candidate unchanged unless its token occurs among the last last_n tokens of the history. A last_n of zero changes nothing.",
      ["inputs", "histories", "configurations"], "every history of any length, every last_n, every candidate list, every penalty setting",
      "Tests use a few short histories, mostly with last_n at least as long as the history, so an off-by-one in the window or a wrong end of the history goes unnoticed.",
      [S + f for f in ("repetition.rs", "freq_presence.rs", "sequence_repetition.rs")], [("computation of the window slice from last_n", S)],
      parts=[('penalties', 'c06', 4)],
      rule='an arbitrary candidate whose token differs from every element of the window keeps its logit',
      level='other',
      note=NI),
    P("C07", "Penalties reach every candidate whose token is in the window",
      "For every candidate whose token occurs among the last last_n history tokens: the repetition sampler with a penalty above one divides a positive logit by the penalty and multiplies a non-positive one by it, once however often the token occurs; the frequency/presence sampler subtracts exactly count*frequency + presence, with count the number of occurrences inside the window.",
      ["inputs", "histories", "configurations"], "every history of any length, every last_n, every candidate list, every penalty setting",
      "The tests repeat each token in one fixed pattern; missing the oldest token of the window, applying a penalty twice or miscounting is not excluded by them.",
      [S + f for f in ("repetition.rs", "freq_presence.rs")], [("loop over the window and per-token counters", S)],
      parts=[('penalties', 'c07', 8)],
      rule='the logit of an arbitrary candidate whose token occurs at an arbitrary window position, against the penalty formula',
      level='other',
      note=NI),
    P("C08", "Flat bias adds each bias to the matching candidate only",
      "The flat bias sampler adds to each candidate's logit exactly the bias configured for its token id, once, and leaves candidates without a configured bias unchanged; of several values configured for one token exactly one is added; a bias for a token not among the candidates has no effect.",
      IN, "every candidate list in any order and every list of (token, bias) pairs", "The test uses one fixed bias list over candidates whose token id equals their position.",
      [S + "flat_bias.rs"], [("lookup of the candidate by token id", S + "flat_bias.rs")],
      parts=[('penalties', 'c08', 3)],
      rule='the logit of an arbitrary candidate with no bias, with one bias, and with several'),
    P("C09", "Neutral settings leave the candidates and the resources alone",
      "At its documented neutral setting each sampler returns the candidates exactly as they were and needs no resource: top-a with a1 or a2 zero, min-p with p zero, tail free with z at least one, repetition with penalty 1 or last_n 0, frequency/presence with both penalties 0 or last_n 0, sequence repetition with both penalties 0 or last_n 0, flat bias with no biases, temperature 1.",
      ["inputs", "configurations", "histories"], "every candidate list, every resource provider including ones that provide nothing, all remaining parameters arbitrary",
      "Tests mention few neutral settings, and only with one list and with all resources present.",
      ALL, [("early returns for neutral parameters", S)],
      parts=[('penalties', 'c09', 12)],
      rule="with the neutral setting and a provider that has nothing: success, same length, an arbitrary candidate's token, logit and current probability unchanged"),
    P("C10", "The picked token is always one of the surviving candidates",
      "When a picking sampler (greedy, random distribution, mirostat v1 or v2) succeeds on a non-empty list, the token it reports is the token id of a candidate still in the list; on an empty list, or when it fails, it does not report a token left over from an earlier call.",
      ["inputs", "histories", "configurations"], "every candidate list including the empty one, every generator outcome, every earlier call",
      "Tests pick from fixed lists with a fixed seed; the generator outcomes and previous-state combinations are unbounded.",
      [S + f for f in ("greedy.rs", "rand_distrib.rs", "mirostat.rs")], [("token id stored from the candidate at the chosen index; reset at the start", S)],
      parts=[('picking', 'c10', 13)],
      rule='the reported token is the token id of a candidate of the resulting list (its origin in the list is exhibited); none after a failure or an empty list, also when an earlier call picked one; sample_token returns the remembered token'),
    P("C11", "Greedy picks a candidate with the highest logit",
      "On a non-empty list the greedy sampler reports the token of a candidate whose logit no other candidate exceeds, and leaves the list's candidates untouched.",
      ["inputs"], "every candidate list of any length and order", "Tests use two fixed lists.",
      [S + "greedy.rs"], [("running maximum over the candidates", S + "greedy.rs")],
      parts=[('picking', 'c11', 1)],
      rule="the picked candidate's logit against an arbitrary candidate's; candidates unchanged",
      level='other',
      note=NI),
    P("C12", "Randomness comes only from the supplied generator, one draw per pick",
      "Every random choice goes through the resource provider's generator: random distribution and mirostat ask for it exactly once and sample exactly once per pick, every other sampler never asks for it. No sampler requests mutable access to the token history.",
      ["inputs", "configurations", "histories"], "every candidate list and parameter setting",
      "A second source of randomness or an extra draw does not change what fixed-seed tests with loose expectations observe, but destroys reproducibility for users.",
      ALL, [("with_rng_mut calls in rand_distrib.rs and mirostat.rs", S)],
      parts=[('picking', 'c12', 16)],
      rule='number of generator requests, draws and mutable-history requests recorded by an arbitrary provider'),
    P("C13", "Samplers fail only for a missing resource, and then always report it",
      "On NaN-free candidates a sampler returns an error only when a resource it needs is missing, and then the error it returns is the provider's missing-resource error: a picker without a generator, or an active penalty without a history, never silently succeeds. Filters, temperature, flat bias and greedy never fail. The one exception is mirostat v1 without a vocabulary size, which reports an internal error for a non-empty list.",
      ["inputs", "configurations", "fault_sequences"], "every candidate list, every combination of missing resources, every parameter setting",
      "Tests only run with the resources present.", ALL + ["src/resource.rs"], [("error propagation with ? around with_rng_mut / with_last_tokens", S)],
      parts=[('picking', 'c13', 15)],
      rule='result against the presence of the resource the sampler needs, for a provider that may lack any of them',
      level='other',
      note=NI),
    P("C14", "Sampling never panics",
      "Building a candidate list from finite numbers and running any sampler with any parameters on it does not panic: no out-of-range index, no arithmetic overflow, no unwrap of an absent value, for every list including the empty one and every history.",
      ["inputs", "histories", "configurations"], ANY + ", every history", "The tests run a few parameter combinations on lists of at most a few dozen candidates.",
      [TYPES] + ALL, [("bounds and length guards in every sampler", S)],
      parts=[('panics', 'c14', 21)],
      rule='every assert terminator, bounds check, overflow check, unwrap and panic call of the crate reachable from a sampler or list constructor',
      level='other',
      note="Discharged for all list and history sizes except the sequence search of the sequence repetition sampler and the insertion of the top-k constructor, which are decided on bounded lists and histories (see undischarged in the evidence). Alarms are raised only on a path whose abstract state is exact and has a concrete member."),
    P("C15", "Sampling does not change a sampler's configuration",
      "Running a sampler leaves its configured options exactly as they were, so the same sampler can be reused for any number of tokens; only mirostat's mu, which is feedback state, and the remembered picked token may change.",
      ["inputs", "histories", "configurations"], "every candidate list, history and configuration", "Tests run a sampler once and never read its options back.",
      ALL, [("samplers read their options by value", S)],
      parts=[('picking', 'c15', 14)],
      rule='every option readable before sampling equals the same option after it'),
    P("C16", "A chain runs its samplers in order, once each, and stops at the first error",
      "A chain applies its samplers once each in the order they were added, to the same list and resources; when one fails, the error is returned and no later sampler runs. The chain reports the token of its last sampler, none if that picked none or the run failed, and never one from an earlier run.",
      ["inputs", "configurations", "fault_sequences", "histories"], "chains of every length of samplers of any behaviour, failing at any position", "Tests run two fixed chains in which nothing fails.",
      ["src/chain.rs"], [("SamplerChain::sample loop", "src/chain.rs")],
      parts=[('chain', 'c16', 11)],
      rule='marks left by recording samplers on the resources and the candidates, and the reported token, against the ordered list of samplers: for chains of any length (inductively), for every combination of failures and picks of up to three samplers over two runs, nested chains included'),
    P("C17", "Wrapped samplers behave exactly like the sampler inside",
      "A boxed sampler, a shared and locked sampler, and a sampler held as a boxed buildable object forward every sampler operation — prepare, sample, report token, sample-a-token — to the sampler inside with the same arguments, exactly once, and return its result unchanged.",
      ["programs", "configurations"], "every implementation of the sampler interface", "Tests use boxed samplers only for samplers that do not override the default operations.",
      [TYPES, "src/chain.rs", "src/configure/building.rs"], [("forwarding impls of Sampler", TYPES)],
      parts=[('chain', 'c17', 15)],
      rule='each operation of each wrapper reaches the wrapped sampler exactly once, as the same operation, with the same resources and candidates, and its result or error comes back'),
    P("C18", "Option tables name, type and order every option alike",
      "For every sampler the option list, the readable option values and the writable option slots agree: same keys in the same order, each value of the declared type, and writing an option through its key changes exactly the option that reading that key returns.",
      ["configurations", "programs"], "every sampler, every option, every value", "The tests set a few options of one sampler by key; a swapped pair of slots of the same type would not be seen.",
      ALL + CFG[:2], [("sampler_metadata / sampler_options / sampler_options_mut of each sampler", S)],
      parts=[('tables', 'c18', 15)],
      rule="metadata, readable values and writable slots compared option by option (count, key, type, presence); writing an arbitrary value into each slot changes exactly that option's reading"),
    P("C19", "Option lookup by key is exact-first and refuses ambiguity",
      "Looking up an option by key (blanks around it aside) finds the option whose key equals it; otherwise the only option whose key starts with it; an unknown or ambiguous key is an error and changes nothing.",
      ["inputs", "configurations"], "every key string and every sampler's option table", "Tests try a few keys of one sampler.",
      CFG, [("SamplerOptions::find_option_definition", "src/configure/metadata.rs")],
      parts=[('config', 'c19', 60)],
      rule="lookup, read and write by an arbitrary key against a reference lookup (equal key, else the only key it begins), for tables of up to three arbitrary keys and for every sampler's own table",
      level='proof',
      note="Decided for every text at once (keys, names and values are unknown texts), every sampler's own option table, and option tables, slot lists and histories up to the sizes the drivers build (tables of up to three options with arbitrary keys, besides the fifteen samplers' own); larger ones are not covered. Alarms are raised only on a path whose abstract state is exact and has a concrete member."),
    P("C20", "Configuring from a string applies exactly the named options",
      "Configuring from a string of key=value parts separated by colons sets exactly the named options to the given values in order, leaves every other option alone, ignores blank space around parts, and reports an error for a malformed value or unknown key.",
      ["inputs", "configurations"], "every configuration string", "Tests try a few strings.",
      CFG, [("ConfigurableSampler::configure", "src/configure/configurable.rs")],
      parts=[('config', 'c20', 80)],
      rule='options after configuring from a text against the options the parts name and the numbers the values read as; error exactly for a malformed value or unknown or ambiguous key',
      level='other',
      note="Decided for every text at once (keys, names and values are unknown texts), every sampler's own option table, and option tables, slot lists and histories up to the sizes the drivers build (one part in every spelling, two parts for four samplers; keys and values are texts without blanks, ':' and '=' inside); larger ones are not covered. Alarms are raised only on a path whose abstract state is exact and has a concrete member."),
    P("C21", "Option values are parsed into the option's own type or refused",
      "A value for an unsigned option must be a non-negative integer, for a float option a number, for a bool option a boolean, for a string option any text; a value of another type set through the typed interface is refused, and a refused value leaves the option unchanged.",
      ["inputs", "configurations"], "every value and option type", "Tests set well-typed values only.",
      CFG, [("parse_value / set_option", "src/configure/configurable.rs")],
      parts=[('config', 'c21', 60)],
      rule="parse_value of an arbitrary text against the standard library's reading of it; set_option of a value of every type on every option",
      level='proof',
      note="Decided for every text at once (keys, names and values are unknown texts), every sampler's own option table, and option tables, slot lists and histories up to the sizes the drivers build (every option of every sampler and of a sampler with an option of each type); larger ones are not covered. Alarms are raised only on a path whose abstract state is exact and has a concrete member."),
    P("C22", "Builder slots configure exactly the named sampler",
      "A builder keeps its slots in insertion order; configuring a slot by name affects that slot only; a slot is materialised at most once; unknown slot names are errors that change nothing.",
      ["inputs", "configurations", "histories"], "every sequence of slot additions and configure calls", "Tests build one fixed slot list.",
      ["src/configure/building.rs"], [("SamplerChainBuilder::configure / push_slot", "src/configure/building.rs")],
      parts=[('config', 'c22', 20)],
      rule="the builder's slots after pushes and configure calls against a reference model of slots",
      level='other',
      note="Decided for every text at once (keys, names and values are unknown texts), every sampler's own option table, and option tables, slot lists and histories up to the sizes the drivers build (up to three slots of arbitrary kinds and names; up to three configure calls); larger ones are not covered. Alarms are raised only on a path whose abstract state is exact and has a concrete member."),
    P("C23", "A built chain contains the configured samplers in slot order",
      "Turning a builder into a chain yields the static and configured samplers in slot order, skipping optional slots never configured.",
      ["inputs", "configurations"], "every slot list", "Tests build one fixed chain.",
      ["src/configure/building.rs"], [("SamplerChainBuilder::into_chain", "src/configure/building.rs")],
      parts=[('config', 'c23', 15)],
      rule='samplers that run when the built chain runs against the static and configured samplers of the slots, in order',
      level='other',
      note="Decided for every text at once (keys, names and values are unknown texts), every sampler's own option table, and option tables, slot lists and histories up to the sizes the drivers build (up to four slots holding up to two samplers each); larger ones are not covered. Alarms are raised only on a path whose abstract state is exact and has a concrete member."),
    P("C24", "Building a candidate list keeps every logit under its position",
      "Building a candidate list from a sequence of numbers gives one candidate per number, in order, with token id equal to its position, its logit the number, and both flags down; a NaN anywhere is refused with the position of the first NaN.",
      ["inputs"], "every sequence of floats of any length", "Tests use two fixed sequences.",
      [TYPES], [("Logits::try_from_iter", TYPES)],
      parts=[('flags', 'c24', 4)],
      rule='for an arbitrary position of the result: token id == position, logit == number; a refused position holds NaN and no earlier one does'),
    P("C25", "Building a top-k candidate list keeps exactly the k best",
      "Building a candidate list limited to k keeps min(k, number of finite values) candidates, each with its own position as token id and its own value as logit, in descending order and marked sorted but not as having probabilities, and no dropped finite value exceeds a kept one; non-finite values are never kept.",
      ["inputs", "configurations"], "every sequence of floats and every k", "Tests use one fixed sequence.",
      [TYPES], [("Logits::try_from_iter_top_k", TYPES)],
      parts=[('flags', 'c25', 3)],
      rule='order, selection and dominance of the kept candidates over an arbitrary dropped number',
      level='other',
      note=NI),
    P("C26", "Constructors and setters store each argument under its own option",
      "Each constructor and each setter stores every argument in the option of that name and leaves all other options alone; setting mirostat's tau also resets mu to twice tau.",
      ["configurations", "programs"], "every argument value of every constructor and setter", "Tests construct samplers with a few values and check only the outcome of sampling.",
      ALL, [("new() and the setters of each sampler", S)],
      parts=[('tables', 'c26', 25)],
      rule="every constructor and every setter with arbitrary arguments: each option reads back as the argument of that name, all others as before; mirostat's tau setter makes mu twice tau"),
    P("C27", "Default samplers carry the expected default options",
      "A default-constructed sampler has these option values: top-k 40/1, top-p 0.9/1, top-a 0.2/2/1, min-p 0.05/1, tail free 1/1, locally typical 1/1, temperature 1, repetition 1.1/64, frequency/presence 0/0/64, sequence repetition 0/0 with min length 4, tolerance 0, max merge 1, last_n 64, mirostat tau 5, eta 0.1, mu 10 and m 100.",
      ["configurations"], "every sampler type", "No test reads the defaults.", ALL, [("Default impls", S)],
      parts=[('tables', 'c27', 14)],
      rule='each Default value read back through the option table and compared with the specified constant (floats to within 1e-6)'),
    P("C28", "Resource providers hand out exactly what they hold",
      "The simple resource provider gives its generator and its token history to the caller exactly once per request when it holds them and otherwise returns a missing-resource error without calling back; an empty provider always returns the missing-resource error; mutable and shared access see the same history.",
      ["configurations", "histories"], "every combination of present and absent resources and every callback", "Tests only use fully equipped providers.",
      ["src/resource.rs"], [("HasSamplerResources impls", "src/resource.rs")],
      parts=[('tables', 'c28', 7)],
      rule='number of call backs, identity of what is handed to them and the error kind, for a provider with and without a generator and a history of any length'),
    P("C29", "Samplers, chains and resources can cross threads",
      "Every sampler (built in or a user's own), boxed or shared sampler, sampler chain, candidate list, resource provider of the crate, error and option value or description can be sent to and shared between threads. (Chain builders hold the user's factories and make no such promise.)",
      ["programs", "schedules"], "every public type that owns its data, chain builders aside; every implementation of the sampler trait", "No test moves a sampler to another thread; losing the guarantee is a compile error only in user code.",
      ["src/lib.rs", "src/chain.rs", "src/resource.rs"], [("Send + Sync supertraits and bounds", TYPES)],
      witness="sendsync", rule="sends::<T>() and shares::<T>() type-check for every listed T and for every T: Sampler",
      note="Decided by the compiler's trait solver for the listed types and for an arbitrary implementation of the sampler traits; unsafe impls are not audited (there are none)."),
    P("C30", "Sampler names and option keys are unambiguous",
      "No two samplers share a name, every sampler's name is non-empty, and within a sampler no two options share a key.",
      ["programs", "configurations"], "every sampler and option", "No test compares names across samplers.",
      ALL, [("sampler_metadata of each sampler", S)],
      parts=[('tables', 'c30', 16)],
      rule='names of all fifteen samplers pairwise distinct and non-empty; option keys of each sampler pairwise distinct and non-empty'),
    P("C31", "Mirostat feedback moves mu by eta times the surprise error",
      "After a successful pick mirostat has changed mu by exactly eta times (tau minus the surprise of the picked candidate), surprise being minus the base-2 logarithm of that candidate's probability; no other option changes, and a failed or empty run leaves mu alone.",
      ["inputs", "histories", "configurations"], "every candidate list, generator outcome and parameter value", "Tests run one pick with fixed numbers.",
      [S + "mirostat.rs"], [("mu update at the end of Mirostat sampling", S + "mirostat.rs")],
      parts=[('picking', 'c31', 2)],
      rule='mu after a pick against mu - eta * (surprise - tau) for a surviving candidate with the picked token; mu unchanged otherwise',
      level='other',
      note=NI),
    P("C32", "Penalties never raise a logit",
      "With a penalty of at least 1 the repetition sampler, and with non-negative penalties the frequency/presence and sequence repetition samplers, never raise any candidate's logit.",
      ["inputs", "histories", "configurations"], "every candidate list, history and non-negative penalty setting", "Tests use one sign of logits and one history.",
      [S + f for f in ("repetition.rs", "freq_presence.rs", "sequence_repetition.rs")], [("sign-dependent scaling in repetition; subtraction elsewhere", S)],
      parts=[('penalties', 'c32', 4)],
      rule='the logit of an arbitrary candidate after the penalty is at most its logit before',
      level='other',
      note=NI),
    P("C33", "Min-p and top-a cut exactly at their threshold",
      "Beyond the guaranteed minimum, min-p keeps a candidate exactly when its probability is at least p times the highest probability, and top-a exactly when it is at least a1 times the highest probability to the power a2.",
      IN, ANY, "Tests use lists whose probabilities stay away from the threshold.",
      [S + "min_p.rs", S + "top_a.rs"], [("threshold comparison", S)],
      parts=[('filters', 'c33', 2)],
      rule='first dropped candidate is below the threshold; an arbitrary one kept beyond the minimum is at or above it'),
    P("C34", "Top-p stops at the first candidate that reaches p",
      "Top-p keeps the shortest prefix, in descending order, that has at least max(1, min_keep) candidates and whose cumulative probability is at least p; if none reaches p it keeps everything.",
      IN, ANY, "Tests use four fixed probabilities and a few thresholds.", [S + "top_p.rs"], [("cumulative sum and cut-off", S + "top_p.rs")],
      parts=[('filters', 'c34', 1)],
      rule='running sum over the kept prefix against p at every admissible shorter prefix and at the cut',
      level='other',
      note=NI),
    P("C35", "Rank-based filters never drop a better candidate than they keep",
      "Top-k, top-p, top-a, min-p and tail free keep a set of highest-ranked candidates: no dropped candidate has a higher logit than a kept one, and the survivors are in descending order.",
      IN, ANY, "Tests use short lists, mostly already sorted.", FILT[:5] + [TYPES], [("sort before truncation", TYPES)],
      parts=[('filters', 'c35', 5)],
      rule='the survivors are the first ones of the descending order of the given list'),
    P("C36", "Temperature divides every logit by the temperature",
      "The temperature sampler divides the logit of every candidate by the configured temperature; a temperature of zero leaves every logit as it is.",
      IN, ANY, "Tests use three fixed temperatures.", [S + "temperature.rs"], [("division of each logit", S + "temperature.rs")],
      parts=[('penalties', 'c36', 2)],
      rule='an arbitrary logit after sampling equals logit divided by temperature; unchanged for temperature 0'),
    P("C37", "Softmax assigns probabilities that respect the ranking",
      "After probabilities have been computed the list is in descending order, every candidate still has its own token id and logit, candidates with higher logits have probabilities at least as high, and the probabilities are the exponentials of the logit differences to the highest logit divided by their sum.",
      ["inputs"], "every finite candidate list", "Tests check the probabilities of two fixed lists.", [TYPES], [("Logits::ensure_softmax", TYPES)],
      parts=[('picking', 'c37', 4)],
      rule='for arbitrary positions i < j after ensure_softmax: order, non-negativity, monotonicity, proportionality to the exponential, normalisation, identity',
      level='other',
      note=NI),
    P("C38", "Option hooks run around every change",
      "Setting an option, through the typed interface or a configuration string, calls the sampler's hook before the change once, with that option and the value given and the option still as it was; the value the hook leaves is the one stored; a hook that fails stops the change, which is then an error and changes nothing. The hook after the change is called once, with that option and the value stored, and only after a change; its error is the error reported. By default both hooks do nothing.",
      ["inputs", "programs", "fault_sequences"], "every hook behaviour, option value and configuration string for one option", "Tests have no sampler with hooks of its own; only mirostat's is exercised.",
      [CFG[0]] , [("configurable_sampler::set_option and configure", "src/configure/configurable.rs")],
      parts=[('config', 'c38', 8)],
      rule="what a sampler's own hooks see, store, replace and report, against the option set, for every combination of refusal, replacement and failure",
      level='proof',
      note="Decided for every value and every configuration string of one part that reads as a number, on a sampler with an unsigned and a float option whose hooks record what they see. Alarms are raised only on a path whose abstract state is exact and has a concrete member."),
    P("C39", "Sampling through the list or the trait's defaults is running the sampler",
      "Running a sampler from a candidate list is running that sampler once on that very list and those resources, with its result or error unchanged; sampling a token from a list uses the sampler's own way of doing so; a sampler that has none gives the token it reports after one run of it, or the run's error. A sampler that says nothing else asks for nothing in preparation and reports no token.",
      ["programs", "inputs", "fault_sequences"], "every sampler, list and outcome", "Tests call these with the built-in samplers only and see errors of none.",
      [TYPES], [("Logits::sample, Logits::sample_token and the default methods of Sampler", TYPES)],
      parts=[('chain', 'c39', 4)],
      rule='marks left by samplers of arbitrary outcome on the resources and the candidates, the returned result and error and the reported token, against one run of that sampler'),
    P("C40", "Random picks weigh each candidate by its softmax probability",
      "The random distribution sampler, and mirostat after it has cut the list, decide a pick by one weighted draw over the candidates that are left: every candidate takes part, the weights are in proportion to the candidates' up-to-date softmax probabilities, and the candidate at the drawn position is the one reported.",
      ["inputs", "configurations", "draws"], "every candidate list, sampler state and draw", "Tests compare picks of one list with a fixed seed; weights that are nearly right give the same picks.",
      [S + "rand_distrib.rs", S + "mirostat.rs"], [("WeightedIndex over the probabilities", S + "rand_distrib.rs")],
      parts=[('picking', 'c40', 3)],
      rule='weights handed to the weighted draw, against the probabilities of the list at an arbitrary position; token at the drawn position against the token reported',
      note="That frequencies converge to the weights is the contract of rand's WeightedIndex and of the supplied generator, which is relied upon; a sampler that drew in another way than through rand's weighted or uniform draws would be reported as undecided. Decided for every finite candidate list; alarms only on a path whose abstract state is exact and has a concrete member."),
    P("C41", "Locally typical and tail-free cut where their scores say",
      "Locally typical keeps candidates in order of the distance of their surprise (negative log probability) from the entropy of the list, and of that order the shortest beginning that has at least max(1, min_keep) candidates and whose total probability exceeds p; it keeps everything if none does. "
      "Tail free leaves lists of up to two candidates, and any list for z of one or more, as they are; otherwise it cuts the descending list at the first position, not below min_keep, at which the running sum of the absolute second differences of the probabilities, divided by their total, exceeds z.",
      IN, "every finite candidate list, threshold and min_keep", "Tests compare a few outputs with reference numbers.", [S + "locally_typical.rs", S + "tail_free.rs"], [("score computation and cut-off search", S + "locally_typical.rs"), ("second differences and cut-off search", S + "tail_free.rs")],
      parts=[('filters', 'c41', 2)],
      rule='kept candidates against an independent recomputation of entropy, distances, second differences and running sums, at every admissible cut',
      level='other',
      note=NI + " Lists whose second differences are all zero are left out: the scores are then 0/0."),
    P("C44", "Mirostat 1 cuts the list to its Zipf estimate",
      "Mirostat 1 keeps as many of the best candidates as its paper's estimate k says, and at least one: k = (e * 2^mu / (1 - N^-e))^(1/s), where N is the vocabulary size, e = s - 1 and s is the sum of t*b over the sum of t*t, with t = ln((i+2)/(i+1)) and b the logarithm of the quotient of the probabilities of candidates i and i+1, over the first m candidates.",
      IN, "every list of at least two candidates, N and m of at least two, and every mu", "Tests run it twice on lists with a single possible candidate, where every formula keeps the same one.",
      [S + "mirostat.rs"], [("estimate of k and the cut to it", S + "mirostat.rs")],
      parts=[('picking', 'c44', 1)],
      rule='number of kept candidates against an independent computation of k, up to a thousandth of k for rounding',
      level='other',
      note=NI + " Lists of up to three candidates in the deciding phase."),
    P("C42", "Sequence repetition penalises exactly the repeated sequences",
      "Let w be the last min(last_n, length) tokens of the history. With merging off (max_merge of 0 or 1) a token t loses the penalty exactly if the end of w repeats earlier tokens of w that t followed: for some length n of at least min_length, n tokens of w (with the token t after them, which is not the last of w) agree with the last n tokens of w in the first and the last place and in all places in between but at most `tolerance` many; n is small enough to leave min_length tokens before the repetition. "
      "The first candidate with that token id loses flat_penalty + (n + 1) * stacking_penalty for the largest such n, and no other candidate changes. Nothing changes if min_length is below 2, if last_n is below min_length, or if w has fewer than 2 * min_length tokens. "
      "With a tolerance of one and max_merge of at least 2, the one tolerated token may stand for up to max_merge tokens of the earlier sequence, and for no more.",
      ["inputs", "histories", "configurations"], "every history and setting", "Tests use two histories, and the existing test fails on the unmodified tree.",
      [S + "sequence_repetition.rs"], [("find_seqs and fuzzy_match", S + "sequence_repetition.rs")],
      parts=[('penalties', 'c42', 8)],
      rule='logit after sampling against an independent search of the history for repeated sequences, for every pattern of equal and different tokens',
      level='other',
      note="Histories of up to 7 arbitrary tokens, min_length 2 and 3, arbitrary tolerance and penalties, max_merge 0 to 3, one candidate; every pattern of equal tokens is followed to the end. That longer histories are treated alike is not shown."),
    P("C46", "A sampler that has run behaves like a fresh one",
      "What a sampler does to a list does not depend on the lists, histories and failures of its earlier runs: a sampler that has been run before gives the outcome, the list and (for greedy) the pick that a newly made one with the same settings gives on the same list and resources. Mirostat carries over its mu, and nothing else.",
      ["inputs", "histories", "configurations", "fault_sequences"], "every sampler, every earlier run, of whatever outcome, and every list after it", "Tests make a new sampler for nearly every list; state left behind by a run, such as a table that is not emptied, would not show.",
      ALL, [("fields of each sampler", S)],
      parts=[('filters', 'c46', 6), ('penalties', 'c46', 6), ('picking', 'c46', 6)],
      rule='either sampling leaves every field of the sampler as it was, or a second run on an arbitrary short list equals the run of a fresh sampler on it, candidate by candidate',
      level='other',
      note=NI + " Filters and penalties: sampling leaves every field as it was, proved for every list. Mirostat's settings other than mu: proved for every list. Greedy, random distribution and mirostat beyond that: one earlier run on one candidate, later run on up to two; random picks are not compared."),
    P("C47", "Mirostat 2 cuts the list where the surprise exceeds mu",
      "Mirostat 2 keeps the candidates before the first one, in descending order, whose surprise (minus the base-2 logarithm of its probability) exceeds mu, and at least one; it keeps everything if no surprise does.",
      IN, "every list, mu, tau and eta", "Tests run it with few values of mu on one list.",
      [S + "mirostat.rs"], [("first candidate above mu and the cut to it", S + "mirostat.rs")],
      parts=[('picking', 'c47', 2)],
      level="other",
      rule='surprise of an arbitrary kept candidate, and of the first dropped one, against mu',
      note=NI + " Probabilities that are computed afresh from lists of up to three candidates; probabilities already there, for every list."),
    P("C48", "A copy is like its original, and equal means equal in every setting",
      "A cloned sampler has every option of its original and remembers the same pick; a cloned candidate list has the same candidates in the same order and the same marks; changing the clone leaves the original as it was. Two samplers of a kind that can be compared, and two candidates, are equal just when every part of them is. The marks of a list read as they were last set, and greedy's other accessors give the token it reports.",
      ["inputs", "configurations"], "every option value, list and pick", "No test clones or compares anything.",
      ALL, [("derived and written copies and comparisons", S), ("Logits and Logit", "src/types.rs")],
      parts=[('tables', 'c48', 20)],
      rule='options, biases, candidates, marks and picks of a clone against those of its original; equality against equality of every option',
      note="The comparison of two flat bias samplers is left out (a comparison of vectors of arbitrary length). Floats are read as reals: NaN options, which equal nothing, are not considered."),
    P("C49", "Configuration errors are of the fitting kind and name what they are about",
      "An unknown key, or a value of another type than the option's, is reported as unknown-or-bad-type, a key that several options begin with as ambiguous, an option that cannot be reached as inaccessible, a number its option cannot hold as a failed conversion, each naming the key; an unknown slot, a static slot, and a failure of the sampler in a slot are reported as such by a builder, each naming the slot, the last holding the sampler's own error. A candidate list's error that becomes a sampler's keeps its kind and position.",
      ["inputs", "configurations"], "every key, name, table and option", "Tests look at few errors, and at their kind only by chance.",
      ["src/configure/mod.rs", "src/configure/metadata.rs", "src/configure/configurable.rs", "src/configure/building.rs", "src/types.rs"],
      [("ConfigureSamplerError", "src/configure/mod.rs"), ("BuildSamplersError", "src/configure/building.rs")],
      parts=[('config', 'c49', 10)],
      rule='kind and text of the error of every failing lookup, reading, setting and configuring, against the reason there is for it to fail',
      note="Tables of up to three options and builders of one slot. Malformed numbers and booleans are errors of other types and not looked at; nor are the wording of messages and the text given for a blank key."),
    P("C45", "Nothing but the arguments",
      "What the crate does depends on its arguments alone, and touches nothing else: no function of it reads the clock, the environment, files, the network, the addresses of objects or a random source other than the resources' own; none keeps anything that changes in a global or a thread-local; none prints.",
      ["inputs", "histories", "configurations", "schedules"], "every function and closure of the crate, generic ones included", "A test would only see an ambient source when it happens to differ between two runs; a reproducible stream of tokens is what a seeded generator is for.",
      ALL, [("lib.rs", "src/lib.rs"), ("resources", "src/resource.rs"), ("samplers", S)],
      parts=[('tables', 'c45', 1)],
      rule='no function, closure or global of the crate, in its MIR, calls, names the type of, or holds one of the listed effects (clock, environment, files, network, processes, threads, console, ambient randomness, randomly keyed hashing, addresses as numbers, foreign functions, inline assembly), and no global or thread-local of it can change',
      level='proof',
      note="The list names what the standard library and rand offer; a dependency called in the future that does such a thing behind an innocent name would not be seen. Errors' backtraces (anyhow) and allocation are not counted."),
    P("C43", "Sampling time is linear or log-linear in the number of candidates",
      "Sampling a token takes time at most proportional to n log n for n candidates plus the history length.",
      ["inputs"], "every input size", "No test measures time.", ALL, [("loops of each sampler", S)],
      na="a running-time property; the loops of the standard library's sort and of hash lookups are outside what this analysis bounds"),
]
