#![allow(dead_code, unused)]
#[path = "../../common.rs"]
#[macro_use]
mod common;
use common::*;
use llm_samplers::{configure::*, prelude::*};
use std::borrow::Cow;

trait Conf: Sampler + HasSamplerMetadata<usize, f32> + ConfigurableSampler<usize, f32> {}
impl<T: Sampler + HasSamplerMetadata<usize, f32> + ConfigurableSampler<usize, f32>> Conf for T {}

macro_rules! each_configurable {
    ($m:ident, $f:path $(, $more:item)*) => {
        pub mod $m {
            use super::*;
            $($more)*
            pub fn top_k() { $f(&mut SampleTopK::new(vm::any_usize(), vm::any_usize())) }
            pub fn top_p() { $f(&mut SampleTopP::new(vm::any_f32(), vm::any_usize())) }
            pub fn top_a() { $f(&mut SampleTopA::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
            pub fn min_p() { $f(&mut SampleMinP::new(vm::any_f32(), vm::any_usize())) }
            pub fn tail_free() { $f(&mut SampleTailFree::new(vm::any_f32(), vm::any_usize())) }
            pub fn locally_typical() { $f(&mut SampleLocallyTypical::new(vm::any_f32(), vm::any_usize())) }
            pub fn temperature() { $f(&mut SampleTemperature::new(vm::any_f32())) }
            pub fn flat_bias() { $f(&mut SampleFlatBias::new(vm::any_vec::<(u32, f32)>())) }
            pub fn repetition() { $f(&mut SampleRepetition::new(vm::any_f32(), vm::any_usize())) }
            pub fn freq_presence() { $f(&mut SampleFreqPresence::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
            pub fn seq_repetition() { $f(&mut free_seq()) }
            pub fn greedy() { $f(&mut SampleGreedy::new()) }
            pub fn rand_distrib() { $f(&mut SampleRandDistrib::new()) }
            pub fn mirostat1() { $f(&mut any_mirostat1()) }
            pub fn mirostat2() { $f(&mut any_mirostat2()) }
        }
    };
}
fn free_seq() -> SampleSeqRepetition {
    SampleSeqRepetition::new(vm::any_f32(), vm::any_f32(), vm::any_usize(), vm::any_usize(), vm::any_usize(), vm::any_usize())
}

// ---------------------------------------------------------------- the specification of a lookup
#[derive(Clone, Copy)]
enum Found {
    At(usize),
    No,
    Many,
}
fn look(keys: &Vec<&'static str>, key: &str) -> Found {
    let key = key.trim();
    let mut k = 0;
    while k < keys.len() {
        if keys[k] == key {
            return Found::At(k);
        }
        k += 1;
    }
    let mut r = Found::No;
    let mut k = 0;
    while k < keys.len() {
        if keys[k].starts_with(key) {
            r = match r {
                Found::No => Found::At(k),
                _ => Found::Many,
            };
        }
        k += 1;
    }
    r
}

// C19
fn entry(key: &'static str, t: SamplerOptionType) -> SamplerOptionMetadata {
    SamplerOptionMetadata { key, description: None, option_type: t }
}
fn table(keys: &Vec<&'static str>) {
    let mut rows = Vec::new();
    let mut open = Vec::new();
    let mut k = 0;
    while k < keys.len() {
        let a = choose();
        open.push(a);
        rows.push((entry(keys[k], SamplerOptionType::UInt), if a { Some(k) } else { None }));
        k += 1;
    }
    let o = SamplerOptions::from(rows);
    let key = vm::any_text();
    match (look(keys, key), o.find_option_definition(key)) {
        (Found::At(i), Ok((md, at))) => {
            prove(md.key == keys[i], "the option named, or the only one the key begins");
            prove(at == if open[i] { Some(i) } else { None }, "its place in the list, if it can be accessed");
        }
        (Found::At(_), Err(e)) => {
            prove(false, "an unambiguous key is found");
            std::mem::forget(e);
        }
        (_, Ok(_)) => prove(false, "an unknown or ambiguous key is an error"),
        (_, Err(e)) => std::mem::forget(e),
    }
    vm::reached("looked up");
}
type Value<'a> = SamplerOptionValue<'a, usize, f32>;
fn plain(v: &Option<Value>) -> (SamplerOptionType, usize, f32) {
    match v {
        Some(SamplerOptionValue::UInt(x)) => (SamplerOptionType::UInt, *x, 0.0),
        Some(SamplerOptionValue::Float(x)) => (SamplerOptionType::Float, 0, *x),
        _ => (SamplerOptionType::Bool, 0, 0.0),
    }
}
const TWICE: usize = 1;
/// type, number of an unsigned option, number of a float option (or, marked TWICE, half of it)
type Snap = Vec<(SamplerOptionType, usize, f32)>;
fn snapshot<S: Conf>(s: &S) -> Snap {
    let o = s.sampler_options();
    let mut r = Vec::new();
    for k in 0..o.len() {
        r.push(plain(&o[k].1));
    }
    r
}
fn keys_of<S: Conf>(s: &S) -> Vec<&'static str> {
    let md = s.sampler_metadata().options;
    let mut r = Vec::new();
    for k in 0..md.len() {
        r.push(md[k].key);
    }
    r
}
fn put(keys: &Vec<&'static str>, b: &mut Snap, i: usize, x: usize, y: f32) {
    b[i] = (b[i].0, if b[i].0 == SamplerOptionType::UInt { x } else { 0 }, if b[i].0 == SamplerOptionType::Float { y } else { 0.0 });
    if keys[i] == "tau" {
        // setting the target surprise restarts mirostat's own estimate
        let mut k = 0;
        while k < keys.len() {
            if keys[k] == "mu" {
                b[k] = (b[k].0, TWICE, y);
            }
            k += 1;
        }
    }
}
fn same(a: &Snap, b: &Snap, what: &str) {
    prove(a.len() == b.len(), "the same options");
    let mut k = 0;
    while k < a.len() {
        if a[k].0 == FLOAT {
            let (x, y) = (b[k].2, a[k].2);
            if a[k].1 == TWICE {
                if !(y == f32::INFINITY || y == f32::NEG_INFINITY) {
                    prove(x == y * 2.0, what);
                }
            } else {
                prove(x == y, what);
            }
        } else {
            prove(a[k].1 == b[k].1, what);
        }
        k += 1;
    }
}
fn by_key<S: Conf>(s: &mut S) {
    let keys = keys_of(s);
    let mut want = snapshot(s);
    let key = vm::any_text();
    let found = look(&keys, key);
    let (x, y) = (vm::any_u64(), vm::any_f64());
    // reading
    match (found, s.get_option(key)) {
        (Found::At(i), Ok(v)) => {
            let ok = match v {
                SamplerOptionValue::UInt(n) => want[i].0 == SamplerOptionType::UInt && n == want[i].1 as u64,
                SamplerOptionValue::Float(n) => want[i].0 == SamplerOptionType::Float && n == want[i].2 as f64,
                _ => false,
            };
            prove(ok, "reading by key gives the value of that option");
        }
        (Found::At(_), Err(e)) => prove(false, "an unambiguous key can be read"),
        (_, Ok(_)) => prove(false, "reading an unknown or ambiguous key is an error"),
        (_, Err(e)) => std::mem::forget(e),
    }
    same(&want, &snapshot(s), "reading changes nothing");
    // writing
    let v = match found {
        Found::At(i) => {
            if want[i].0 == SamplerOptionType::UInt {
                SamplerOptionValue::UInt(x)
            } else {
                SamplerOptionValue::Float(y)
            }
        }
        _ => {
            if choose() {
                SamplerOptionValue::UInt(x)
            } else {
                SamplerOptionValue::Float(y)
            }
        }
    };
    match (found, s.set_option(key, v)) {
        (Found::At(i), Ok(())) => put(&keys, &mut want, i, x as usize, y as f32),
        (Found::At(_), Err(e)) => prove(false, "an unambiguous key can be set"),
        (_, Ok(())) => prove(false, "setting an unknown or ambiguous key is an error"),
        (_, Err(e)) => std::mem::forget(e),
    }
    same(&want, &snapshot(s), "setting by key changes just that option");
    vm::reached("set");
}
each_configurable! { c19, by_key,
    pub fn table0() { table(&vec![]) },
    pub fn table1() { table(&vec![vm::any_str()]) },
    pub fn table2() {
        let (a, b) = (vm::any_str(), vm::any_str());
        assume(a != b);
        table(&vec![a, b])
    },
    pub fn table3() {
        let (a, b, c) = (vm::any_str(), vm::any_str(), vm::any_str());
        assume(a != b);
        assume(a != c);
        assume(b != c);
        table(&vec![a, b, c])
    }
}

// ---------------------------------------------------------------- the specification of values
const UNSIGNED: SamplerOptionType = SamplerOptionType::UInt;
const FLOAT: SamplerOptionType = SamplerOptionType::Float;
const FLAG: SamplerOptionType = SamplerOptionType::Bool;
const TEXT: SamplerOptionType = SamplerOptionType::String;

fn yes(t: &str) -> bool {
    t == "true" || t == "t" || t == "yes" || t == "1"
}
fn no(t: &str) -> bool {
    t == "false" || t == "f" || t == "no" || t == "0"
}

// C21
fn refused(r: anyhow::Result<SamplerOptionValue>, what: &str) {
    match r {
        Ok(_) => prove(false, what),
        Err(e) => std::mem::forget(e),
    }
}
fn parses(s: &str, t: &str) {
    match t.parse::<u64>() {
        Ok(x) => match SamplerOptionValue::parse_value(UNSIGNED, s) {
            Ok(SamplerOptionValue::UInt(y)) => prove(x == y, "an unsigned value is the number written"),
            _ => prove(false, "a number is a value of an unsigned option"),
        },
        Err(_) => refused(SamplerOptionValue::parse_value(UNSIGNED, s), "anything but a non-negative integer is refused by an unsigned option"),
    }
    match t.parse::<f64>() {
        Ok(x) => match SamplerOptionValue::parse_value(FLOAT, s) {
            Ok(SamplerOptionValue::Float(y)) => prove(x == y, "a float value is the number written"),
            _ => prove(false, "a number is a value of a float option"),
        },
        Err(_) => {
            assume(!infinite(t));
            refused(SamplerOptionValue::parse_value(FLOAT, s), "anything but a number is refused by a float option")
        }
    }
    match SamplerOptionValue::parse_value(FLAG, s) {
        Ok(SamplerOptionValue::Bool(x)) => prove(if x { yes(t) } else { no(t) }, "a bool value is the one written"),
        Ok(_) => prove(false, "a bool option has bool values"),
        Err(e) => {
            prove(!yes(t) && !no(t), "a boolean is a value of a bool option");
            std::mem::forget(e);
        }
    }
    match SamplerOptionValue::parse_value(TEXT, s) {
        Ok(SamplerOptionValue::String(x)) => prove(&*x == t, "a string value is the text written"),
        Ok(_) => prove(false, "a string option has string values"),
        Err(e) => {
            prove(false, "any text is a value of a string option");
            std::mem::forget(e);
        }
    }
    vm::reached("parsed");
}
/// set through the typed interface, every option of every sampler, every type of value
fn typed<S: Conf>(s: &mut S) {
    let keys = keys_of(s);
    let types = {
        let md = s.sampler_metadata().options;
        let mut r = Vec::new();
        for k in 0..md.len() {
            r.push(md[k].option_type);
        }
        r
    };
    let mut k = 0;
    while k < keys.len() {
        one_typed(s, &keys, k, types[k], UNSIGNED);
        one_typed(s, &keys, k, types[k], FLOAT);
        one_typed(s, &keys, k, types[k], FLAG);
        one_typed(s, &keys, k, types[k], TEXT);
        k += 1;
    }
    vm::reached("set");
}
fn one_typed<S: Conf>(s: &mut S, keys: &Vec<&'static str>, k: usize, own: SamplerOptionType, given: SamplerOptionType) {
    let mut want = snapshot(s);
    let (x, y) = (vm::any_u64(), vm::any_f64());
    let v = match given {
        SamplerOptionType::UInt => SamplerOptionValue::UInt(x),
        SamplerOptionType::Float => SamplerOptionValue::Float(y),
        SamplerOptionType::Bool => SamplerOptionValue::Bool(choose()),
        SamplerOptionType::String => SamplerOptionValue::String(Cow::from(vm::any_text())),
    };
    match s.set_option(keys[k], v) {
        Ok(()) => {
            prove(own == given, "a value of another type is refused");
            if own == given {
                put(keys, &mut want, k, x as usize, y as f32);
            }
        }
        Err(e) => {
            prove(own != given, "a value of the option's own type is taken");
            std::mem::forget(e);
        }
    }
    same(&want, &snapshot(s), "a refused value changes nothing, another just that option");
}
/// a sampler with an option of each type, of narrow numbers
#[derive(Debug)]
struct Own {
    u: u8,
    f: f32,
    b: bool,
    s: Cow<'static, str>,
}
impl Sampler for Own {
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(logits)
    }
}
impl ConfigurableSampler<u8, f32> for Own {}
impl HasSamplerMetadata<u8, f32> for Own {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "own", description: None, options: vec![entry("u", UNSIGNED), entry("f", FLOAT), entry("b", FLAG), entry("s", TEXT)] }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, u8, f32>> {
        SamplerOptions::from(vec![
            (entry("u", UNSIGNED), Some(SamplerOptionValue::UInt(self.u))),
            (entry("f", FLOAT), Some(SamplerOptionValue::Float(self.f))),
            (entry("b", FLAG), Some(SamplerOptionValue::Bool(self.b))),
            (entry("s", TEXT), Some(SamplerOptionValue::String(self.s.clone()))),
        ])
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, u8, f32>> {
        SamplerOptions::from(vec![
            (entry("u", UNSIGNED), Some(SamplerOptionValueMut::UInt(&mut self.u))),
            (entry("f", FLOAT), Some(SamplerOptionValueMut::Float(&mut self.f))),
            (entry("b", FLAG), Some(SamplerOptionValueMut::Bool(&mut self.b))),
            (entry("s", TEXT), Some(SamplerOptionValueMut::String(&mut self.s))),
        ])
    }
}
fn any_own() -> Own {
    let u = vm::any_u64();
    assume(u < 256);
    Own { u: u as u8, f: vm::any_f32(), b: choose(), s: Cow::from(vm::any_text()) }
}
fn own_typed(k: usize) {
    let keys = vec!["u", "f", "b", "s"];
    let mut o = any_own();
    let (u, f, b, t) = (o.u, o.f, o.b, o.s.clone());
    let (x, y, z, w) = (vm::any_u64(), vm::any_f64(), choose(), vm::any_text());
    let g = if choose() { if choose() { 0 } else { 1 } } else if choose() { 2 } else { 3 };
    let v = match g {
        0 => SamplerOptionValue::UInt(x),
        1 => SamplerOptionValue::Float(y),
        2 => SamplerOptionValue::Bool(z),
        _ => SamplerOptionValue::String(Cow::from(w)),
    };
    let ok = match o.set_option(keys[k], v) {
        Ok(()) => true,
        Err(e) => {
            std::mem::forget(e);
            false
        }
    };
    prove(ok == (g == k && !(k == 0 && x > 255)), "a value is taken just when it is of the option's own type and fits");
    prove(o.u as u64 == if ok && k == 0 { x } else { u as u64 }, "a refused value changes nothing, another just that option");
    prove(o.f == if ok && k == 1 { y as f32 } else { f }, "a refused value changes nothing, another just that option");
    prove(o.b == if ok && k == 2 { z } else { b }, "a refused value changes nothing, another just that option");
    prove(&*o.s == if ok && k == 3 { w } else { &*t }, "a refused value changes nothing, another just that option");
    // and is read back
    let same = match o.get_option(keys[k]) {
        Ok(SamplerOptionValue::UInt(n)) => k == 0 && n == o.u as u64,
        Ok(SamplerOptionValue::Float(n)) => k == 1 && n == o.f as f64,
        Ok(SamplerOptionValue::Bool(n)) => k == 2 && n == o.b,
        Ok(SamplerOptionValue::String(n)) => k == 3 && &*n == &*o.s,
        Err(e) => {
            std::mem::forget(e);
            false
        }
    };
    prove(same, "an option is read as it was set");
    vm::reached("set");
}
each_configurable! { c21, typed,
    pub fn any_value() {
        let s = vm::any_text();
        parses(s, s.trim())
    },
    pub fn own_u() { own_typed(0) },
    pub fn own_f() { own_typed(1) },
    pub fn own_b() { own_typed(2) },
    pub fn own_s() { own_typed(3) }
}

// C20
fn join(parts: &[&str]) -> String {
    let mut r = String::new();
    let mut k = 0;
    while k < parts.len() {
        r.push_str(parts[k]);
        k += 1;
    }
    r
}
/// what `key=value` makes of the options; false: an error
fn assign(keys: &Vec<&'static str>, b: &mut Snap, key: &str, value: &str) -> bool {
    match look(keys, key) {
        Found::At(i) => {
            if b[i].0 == UNSIGNED {
                match value.parse::<u64>() {
                    Ok(x) => {
                        put(keys, b, i, x as usize, 0.0);
                        true
                    }
                    Err(_) => false,
                }
            } else {
                match value.parse::<f64>() {
                    Ok(x) => {
                        put(keys, b, i, 0, x as f32);
                        true
                    }
                    Err(_) => false,
                }
            }
        }
        _ => false,
    }
}
const ONE: &str = "just the option named is set, to the value given";
/// one part, spelled in some way
fn one<S: Conf>(s: &mut S, text: &str, key: &str, value: &str) {
    let keys = keys_of(s);
    let mut want = snapshot(s);
    let good = assign(&keys, &mut want, key, value);
    match s.configure(text) {
        Ok(()) => prove(good, "a malformed value or unknown key is an error"),
        Err(e) => {
            prove(!good, "a well-formed part is taken");
            std::mem::forget(e);
        }
    }
    same(&want, &snapshot(s), ONE);
    vm::reached("configured");
}
fn named<S: Conf>(s: &mut S) {
    let (k, v) = (vm::any_word(), vm::any_word());
    one(s, &join(&[k, "=", v]), k, v)
}
fn blanks<S: Conf>(s: &mut S) {
    let (k, v) = (vm::any_word(), vm::any_word());
    one(s, &join(&["\t ", k, " = ", v, "  \n"]), k, v)
}
fn bare<S: Conf>(s: &mut S) {
    let v = vm::any_word();
    if choose() {
        one(s, v, "", v)
    } else {
        one(s, &join(&[" = ", v, " "]), "", v)
    }
}
fn odd<S: Conf>(s: &mut S) {
    let (k, v) = (vm::any_word(), vm::any_word());
    if choose() {
        one(s, &join(&[k, "="]), k, "")
    } else {
        one(s, &join(&[k, "=", v, "=", v]), k, "=")
    }
}
fn empty<S: Conf>(s: &mut S) {
    let want = snapshot(s);
    let ok = s.configure("").is_ok() && s.configure("  ").is_ok() && s.configure(":").is_ok() && s.configure(" : :").is_ok();
    prove(ok, "blank parts are nothing");
    same(&want, &snapshot(s), "blank parts are nothing");
}
fn infinite(t: &str) -> bool {
    t == "inf" || t == "INF" || t == "+inf" || t == "+INF" || t == "-inf" || t == "-INF"
}
fn two<S: Conf>(s: &mut S) {
    let keys = keys_of(s);
    let before = snapshot(s);
    let mut want = snapshot(s);
    let (k, v) = (vm::any_word(), vm::any_word());
    let (l, w) = (vm::any_word(), vm::any_word());
    assume(!infinite(v) && !infinite(w));
    let blank = choose();
    let text = if blank { join(&[" : ", k, "=", v, " :: ", l, " =", w, ":"]) } else { join(&[k, "=", v, ":", l, "=", w]) };
    let first = assign(&keys, &mut want, k, v);
    let second = assign(&keys, &mut want, l, w);
    match s.configure(&text) {
        Ok(()) => {
            prove(first && second, "a malformed value or unknown key is an error");
            if first && second {
                same(&want, &snapshot(s), "just the options named are set, in order");
            }
        }
        Err(e) => {
            prove(!first || !second, "well-formed parts are taken");
            std::mem::forget(e);
            // an option named by neither part is as it was
            let now = snapshot(s);
            let mut i = 0;
            while i < keys.len() {
                let named = match (look(&keys, k), look(&keys, l)) {
                    (Found::At(a), _) if a == i || keys[a] == "tau" => true,
                    (_, Found::At(b)) if b == i || keys[b] == "tau" => true,
                    _ => false,
                };
                if !named {
                    prove(now[i].1 == before[i].1 && now[i].2 == before[i].2, "options not named are left alone");
                }
                i += 1;
            }
        }
    }
    vm::reached("configured");
}
fn own_configured() {
    let mut o = any_own();
    let (u, f, b, t) = (o.u, o.f, o.b, o.s.clone());
    let v = vm::any_word();
    let k = if choose() { if choose() { 0 } else { 1 } } else if choose() { 2 } else { 3 };
    let keys = ["u", "f", "b", "s"];
    let good = match o.configure(&join(&[keys[k], " = ", v])) {
        Ok(()) => true,
        Err(e) => {
            std::mem::forget(e);
            false
        }
    };
    let x = match v.parse::<u64>() {
        Ok(x) => if x < 256 { Some(x) } else { None },
        Err(_) => None,
    };
    let y = match v.parse::<f64>() {
        Ok(y) => Some(y),
        Err(_) => None,
    };
    match k {
        0 => {
            prove(good == x.is_some(), "a value is taken just when it reads as one of the option's type");
            prove(o.u as u64 == match x { Some(x) => x, None => u as u64 }, ONE);
        }
        1 => {
            prove(good == y.is_some(), "a value is taken just when it reads as one of the option's type");
            prove(o.f == match y { Some(y) => y as f32, None => f }, ONE);
        }
        2 => {
            prove(good == (yes(v) || no(v)), "a value is taken just when it reads as one of the option's type");
            prove(o.b == if yes(v) { true } else if no(v) { false } else { b }, ONE);
        }
        _ => {
            prove(good, "a value is taken just when it reads as one of the option's type");
            prove(&*o.s == v, ONE);
        }
    }
    if k != 0 { prove(o.u == u, ONE) }
    if k != 1 { prove(o.f == f, ONE) }
    if k != 2 { prove(o.b == b, ONE) }
    if k != 3 { prove(&*o.s == &*t, ONE) }
    vm::reached("configured");
}
fn spellings<S: Conf>(s: &mut S) {
    let w = if choose() { if choose() { 0 } else { 1 } } else if choose() { 2 } else if choose() { 3 } else { 4 };
    match w {
        0 => named(s),
        1 => blanks(s),
        2 => bare(s),
        3 => odd(s),
        _ => empty(s),
    }
}
each_configurable! { c20, spellings,
    pub fn own() { own_configured() },
    pub fn two_top_k() { two(&mut SampleTopK::new(vm::any_usize(), vm::any_usize())) },
    pub fn two_top_p() { two(&mut SampleTopP::new(vm::any_f32(), vm::any_usize())) },
    pub fn two_freq_presence() { two(&mut SampleFreqPresence::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) },
    pub fn two_mirostat2() { two(&mut any_mirostat2()) }
}

// C38
/// an error that can be told apart
#[derive(Debug)]
struct Probe(u32);
impl std::fmt::Display for Probe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("probe")
    }
}
impl std::error::Error for Probe {}
/// what a hook has seen
#[derive(Debug, Clone, Copy)]
struct Seen {
    times: u32,
    key: usize,
    kind: SamplerOptionType,
    given: Option<(u64, f64)>,
    n: u8,
    x: f32,
    others: u32,
}
fn unseen() -> Seen {
    Seen { times: 0, key: 9, kind: TEXT, given: None, n: 0, x: 0.0, others: 0 }
}
/// a sampler with hooks: what they see is kept, and they may refuse, replace the value, or fail afterwards
#[derive(Debug)]
struct Hooked {
    n: u8,
    x: f32,
    before: Seen,
    after: Seen,
    refuse: bool,
    replace: bool,
    other: (u64, f64),
    fail: bool,
    tag: u32,
}
impl Sampler for Hooked {
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(logits)
    }
}
impl HasSamplerMetadata<u8, f32> for Hooked {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "hooked", description: None, options: vec![entry("n", UNSIGNED), entry("x", FLOAT)] }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, u8, f32>> {
        SamplerOptions::from(vec![(entry("n", UNSIGNED), Some(SamplerOptionValue::UInt(self.n))), (entry("x", FLOAT), Some(SamplerOptionValue::Float(self.x)))])
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, u8, f32>> {
        SamplerOptions::from(vec![(entry("n", UNSIGNED), Some(SamplerOptionValueMut::UInt(&mut self.n))), (entry("x", FLOAT), Some(SamplerOptionValueMut::Float(&mut self.x)))])
    }
}
fn which(key: &str) -> usize {
    if key == "n" { 0 } else if key == "x" { 1 } else { 9 }
}
impl ConfigurableSampler<u8, f32> for Hooked {
    fn pre_set_option(&mut self, md: &SamplerOptionMetadata, val: &mut SamplerOptionValue) -> anyhow::Result<()> {
        self.before = Seen {
            times: self.before.times + 1,
            key: which(md.key),
            kind: md.option_type,
            given: match val {
                SamplerOptionValue::UInt(k) => Some((*k, 0.0)),
                SamplerOptionValue::Float(y) => Some((0, *y)),
                _ => None,
            },
            n: self.n,
            x: self.x,
            others: self.after.times,
        };
        if self.replace {
            *val = match val {
                SamplerOptionValue::UInt(_) => SamplerOptionValue::UInt(self.other.0),
                _ => SamplerOptionValue::Float(self.other.1),
            };
        }
        if self.refuse {
            Err(Probe(self.tag))?
        }
        Ok(())
    }
    fn post_set_option(&mut self, md: &SamplerOptionMetadata) -> anyhow::Result<()> {
        self.after = Seen { times: self.after.times + 1, key: which(md.key), kind: md.option_type, given: None, n: self.n, x: self.x, others: self.before.times };
        if self.fail {
            Err(Probe(self.tag + 1))?
        }
        Ok(())
    }
}
fn any_hooked() -> Hooked {
    let (u, t) = (vm::any_u64(), vm::any_u32());
    assume(u < 256);
    assume(t < 1000);
    Hooked { n: u as u8, x: vm::any_f32(), before: unseen(), after: unseen(), refuse: choose(), replace: choose(), other: (vm::any_u64(), vm::any_f64()), fail: choose(), tag: t }
}
/// the change of option k to the value given went as it should
fn changed(h: &Hooked, r: anyhow::Result<()>, k: usize, value: (u64, f64), n: u8, x: f32) {
    let kinds = [UNSIGNED, FLOAT];
    prove(h.before.times == 1, "the hook before a change runs once");
    prove(h.before.key == k && h.before.kind == kinds[k], "the hooks are given the option that is set");
    prove(h.before.given == Some(if k == 0 { (value.0, 0.0) } else { (0, value.1) }), "the hook before a change is given the value");
    prove(h.before.n == n && h.before.x == x && h.before.others == 0, "the hook before a change runs before it");
    let v = if h.replace { h.other } else { value };
    let stored = !h.refuse && !(k == 0 && v.0 > 255);
    prove(h.n as u64 == if k == 0 && stored { v.0 } else { n as u64 }, "the value the hook leaves is stored, and none when it refuses");
    prove(h.x == if k == 1 && stored { v.1 as f32 } else { x }, "the value the hook leaves is stored, and none when it refuses");
    prove(h.after.times == if stored { 1 } else { 0 }, "the hook after a change runs once, and only then");
    if stored && h.after.times == 1 {
        prove(h.after.key == k && h.after.kind == kinds[k], "the hooks are given the option that is set");
        prove(h.after.n == h.n && h.after.x == h.x && h.after.others == 1, "the hook after a change runs after it");
    }
    match r {
        Ok(()) => prove(stored && !h.fail, "an error of a hook is reported"),
        Err(e) => {
            prove(!stored || h.fail, "no error but a hook's or a refused value");
            if h.refuse || stored && h.fail {
                match e.downcast_ref::<Probe>() {
                    Some(p) => prove(p.0 == if h.refuse { h.tag } else { h.tag + 1 }, "the error of the hook is the one reported"),
                    None => prove(false, "the error of the hook is the one reported"),
                }
            }
            std::mem::forget(e);
        }
    }
}
fn configured_as(refuse: bool, replace: bool) {
    let mut h = any_hooked();
    h.refuse = refuse;
    h.replace = replace;
    let (n, x) = (h.n, h.x);
    let w = vm::any_word();
    if choose() {
        match w.parse::<u64>() {
            Ok(v) => {
                let r = h.configure(&join(&["n=", w]));
                changed(&h, r, 0, (v, 0.0), n, x)
            }
            Err(_) => {}
        }
    } else {
        match w.parse::<f64>() {
            Ok(v) => {
                assume(!infinite(w));
                let r = h.configure(&join(&["x=", w]));
                changed(&h, r, 1, (0, v), n, x)
            }
            Err(_) => {}
        }
    }
    vm::reached("configured");
}
pub mod c38 {
    use super::*;
    pub fn set_number() {
        let mut h = any_hooked();
        let (n, x) = (h.n, h.x);
        let v = vm::any_u64();
        let r = h.set_option("n", SamplerOptionValue::UInt(v));
        changed(&h, r, 0, (v, 0.0), n, x)
    }
    pub fn set_float() {
        let mut h = any_hooked();
        let (n, x) = (h.n, h.x);
        let v = vm::any_f64();
        let r = h.set_option("x", SamplerOptionValue::Float(v));
        changed(&h, r, 1, (0, v), n, x)
    }
    pub fn configured() { configured_as(false, false) }
    pub fn configured_replaced() { configured_as(false, true) }
    pub fn configured_refused() { configured_as(true, choose()) }
    pub fn nothing_set() {
        // an unknown option: no hook runs
        let mut h = any_hooked();
        match h.set_option("none of them", SamplerOptionValue::UInt(vm::any_u64())) {
            Ok(()) => prove(false, "an unknown option is an error"),
            Err(e) => std::mem::forget(e),
        }
        prove(h.before.times == 0 && h.after.times == 0, "no hook runs for an option that is not there");
    }
    pub fn boxed() {
        // through the interface the builders use
        let mut h = any_hooked();
        let (n, x) = (h.n, h.x);
        let v = vm::any_f64();
        let r = {
            let d: &mut dyn ConfigurableSampler<u8, f32> = &mut h;
            d.set_option("x", SamplerOptionValue::Float(v))
        };
        changed(&h, r, 1, (0, v), n, x)
    }
    pub fn plain() {
        // a sampler that says nothing about hooks has hooks that do nothing
        let mut o = any_own();
        let (u, f, b) = (o.u, o.f, o.b);
        let mut v = SamplerOptionValue::UInt(vm::any_u64());
        let w = match &v {
            SamplerOptionValue::UInt(k) => *k,
            _ => 0,
        };
        let md = entry("u", UNSIGNED);
        prove(o.pre_set_option(&md, &mut v).is_ok() && o.post_set_option(&md).is_ok(), "by default hooks do nothing");
        prove(o.u == u && o.f == f && o.b == b, "by default hooks do nothing");
        match v {
            SamplerOptionValue::UInt(k) => prove(k == w, "by default hooks do nothing"),
            _ => prove(false, "by default hooks do nothing"),
        }
    }
}

// ---------------------------------------------------------------- builders
/// a sampler that can be told apart, counts how often it was configured, and with what
#[derive(Debug, Clone)]
struct Rec {
    slot: u32,
    serial: u32,
    bad: bool,
    times: usize,
    last: &'static str,
}
impl Sampler for Rec {
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        logits.push(Logit { token_id: self.slot * 100 + self.serial, logit: 0.0, prob: 0.0 });
        Ok(logits)
    }
}
impl HasSamplerMetadata<usize, f32> for Rec {}
impl ConfigurableSampler<usize, f32> for Rec {
    fn get_option(&self, key: &str) -> anyhow::Result<SamplerOptionValue> {
        Ok(match key {
            "slot" => SamplerOptionValue::UInt(self.slot as u64),
            "serial" => SamplerOptionValue::UInt(self.serial as u64),
            "times" => SamplerOptionValue::UInt(self.times as u64),
            _ => SamplerOptionValue::String(Cow::from(self.last)),
        })
    }
    fn configure(&mut self, s: &str) -> anyhow::Result<()> {
        if self.bad {
            return Err(anyhow::Error::new(ConfigureSamplerError::UnknownOrBadType(String::from("bad"))));
        }
        self.times += 1;
        // the texts the drivers pass live forever
        self.last = unsafe { std::mem::transmute::<&str, &'static str>(s) };
        Ok(())
    }
}
type Slot = SamplerSlot<usize, f32>;
type Dyn = Box<dyn BuildableSampler<usize, f32>>;
/// what a slot should hold
#[derive(Clone)]
struct Want {
    name: &'static str,
    kind: usize,
    bad: bool,
    made: u32,
    held: Vec<Rec>,
}
const STATIC: usize = 0;
const SINGLE: usize = 1;
const CHAIN: usize = 2;
fn factory(slot: u32, bad: bool) -> impl FnMut() -> Dyn + 'static {
    let mut n = 0;
    move || {
        n += 1;
        Box::new(Rec { slot, serial: n, bad, times: 0, last: "" }) as Dyn
    }
}
fn early(slot: u32, serial: u32, bad: bool) -> Rec {
    Rec { slot, serial, bad, times: 0, last: "" }
}
fn of_kind(i: u32, name: &'static str, kind: usize, full: bool, bad: bool) -> (Slot, Want) {
    let held = if full && kind != STATIC { vec![early(i, 50, bad)] } else { Vec::new() };
    let slot = match kind {
        STATIC => Slot::new_static(factory(i, bad)),
        SINGLE => Slot::new_single(factory(i, bad), if full { Some(early(i, 50, bad)) } else { None }),
        _ => {
            let mut v: Vec<Dyn> = Vec::new();
            if full {
                v.push(Box::new(early(i, 50, bad)));
            }
            Slot::new_chain(factory(i, bad), v)
        }
    };
    (slot, Want { name, kind, bad, made: 0, held })
}
fn any_slot(i: u32, name: &'static str) -> (Slot, Want) {
    let bad = choose();
    let kind = if choose() { STATIC } else if choose() { SINGLE } else { CHAIN };
    if kind == STATIC {
        of_kind(i, name, kind, false, bad)
    } else if choose() {
        of_kind(i, name, kind, true, bad)
    } else {
        of_kind(i, name, kind, false, bad)
    }
}
fn is_rec(s: &Dyn, r: &Rec, what: &str) {
    let n = |k: &str| match s.get_option(k) {
        Ok(SamplerOptionValue::UInt(x)) => x,
        _ => 1000000,
    };
    prove(n("slot") == r.slot as u64 && n("serial") == r.serial as u64, what);
    prove(n("times") == r.times as u64, what);
    match s.get_option("last") {
        Ok(SamplerOptionValue::String(t)) => prove(&*t == r.last, what),
        _ => prove(false, what),
    }
}
fn as_wanted(b: &SamplerChainBuilder<usize, f32>, want: &Vec<Want>, what: &str) {
    prove(b.len() == want.len(), what);
    if b.len() != want.len() {
        return;
    }
    let mut k = 0;
    while k < want.len() {
        let (name, slot) = &b[k];
        prove(name == want[k].name, what);
        match slot {
            SamplerSlot::Static { .. } => prove(want[k].kind == STATIC, what),
            SamplerSlot::Single { sampler, .. } => {
                prove(want[k].kind == SINGLE && sampler.is_some() == (want[k].held.len() == 1), what);
                if let Some(s) = sampler {
                    if want[k].held.len() == 1 {
                        is_rec(s, &want[k].held[0], what);
                    }
                }
            }
            SamplerSlot::Chain { samplers, .. } => {
                prove(want[k].kind == CHAIN && samplers.len() == want[k].held.len(), what);
                if samplers.len() == want[k].held.len() {
                    let mut j = 0;
                    while j < samplers.len() {
                        is_rec(&samplers[j], &want[k].held[j], what);
                        j += 1;
                    }
                }
            }
        }
        k += 1;
    }
}
/// what configuring a slot by name should do; false: an error
fn configured(want: &mut Vec<Want>, name: &str, s: &'static str) -> bool {
    let mut k = 0;
    while k < want.len() {
        if want[k].name == name {
            let w = &mut want[k];
            if w.kind == STATIC {
                return false;
            }
            if w.kind == SINGLE && w.held.len() == 1 {
                if w.bad {
                    return false;
                }
                w.held[0].times += 1;
                w.held[0].last = s;
                return true;
            }
            w.made += 1;
            if w.bad {
                return false;
            }
            let id = (k + 1) as u32;
            w.held.push(Rec { slot: id, serial: w.made, bad: false, times: 1, last: s });
            return true;
        }
        k += 1;
    }
    false
}
fn step(b: &mut SamplerChainBuilder<usize, f32>, want: &mut Vec<Want>) {
    let (name, s) = (vm::any_text(), vm::any_text());
    let good = configured(want, name, s);
    match b.configure(name, s) {
        Ok(()) => prove(good, "an unknown or static slot, or a failure of the sampler, is an error"),
        Err(e) => {
            prove(!good, "a slot that can be configured is");
            std::mem::forget(e);
        }
    }
    as_wanted(b, want, "just the slot named is changed, and as it should be");
    vm::reached("configured");
}
fn with_names(names: &[&'static str]) -> (SamplerChainBuilder<usize, f32>, Vec<Want>) {
    let mut b = SamplerChainBuilder::default();
    let mut want = Vec::new();
    let mut k = 0;
    while k < names.len() {
        let (s, w) = any_slot((k + 1) as u32, names[k]);
        b.push_slot(String::from(names[k]), s);
        want.push(w);
        k += 1;
    }
    (b, want)
}
fn one_kind(kind: usize, full: bool) {
    let mut b = SamplerChainBuilder::default();
    let name = vm::any_text();
    let (s, w) = of_kind(1, name, kind, full, choose());
    b.push_slot(String::from(name), s);
    let mut want = vec![w];
    step(&mut b, &mut want);
    step(&mut b, &mut want);
    step(&mut b, &mut want);
}
pub mod c22 {
    use super::*;
    pub fn no_slots() {
        let (mut b, mut w) = with_names(&[]);
        step(&mut b, &mut w)
    }
    pub fn one_static() { one_kind(STATIC, false) }
    pub fn one_single() { one_kind(SINGLE, false) }
    pub fn one_single_full() { one_kind(SINGLE, true) }
    pub fn one_chain() { one_kind(CHAIN, false) }
    pub fn one_chain_full() { one_kind(CHAIN, true) }
    pub fn two_slots() {
        let (mut b, mut w) = with_names(&[vm::any_text(), vm::any_text()]);
        as_wanted(&b, &w, "slots are kept in the order in which they were added");
        step(&mut b, &mut w);
        step(&mut b, &mut w)
    }
    pub fn three_slots() {
        let (mut b, mut w) = with_names(&[vm::any_text(), vm::any_text(), vm::any_text()]);
        as_wanted(&b, &w, "slots are kept in the order in which they were added");
        step(&mut b, &mut w)
    }
    pub fn added() {
        let (x, y, z) = (vm::any_text(), vm::any_text(), vm::any_text());
        let (s, v) = any_slot(1, x);
        let (t, w) = any_slot(2, y);
        let (u, q) = of_kind(3, z, CHAIN, choose(), choose());
        let mut b = SamplerChainBuilder::from(vec![(x, s)]) + (String::from(y), t);
        b += (String::from(z), u);
        as_wanted(&b, &vec![v, w, q], "slots are kept in the order in which they were added");
        vm::reached("compared");
    }
    pub fn present() {
        let (mut s, mut w) = any_slot(1, "a");
        s.ensure_present();
        s.ensure_present();
        if w.kind != STATIC && w.held.len() == 0 {
            w.held.push(early(1, 1, w.bad));
        }
        as_wanted(&SamplerChainBuilder::from(vec![("a", s)]), &vec![w], "a slot is filled just when it is empty");
        vm::reached("compared");
    }
}

// C23
fn runs(b: SamplerChainBuilder<usize, f32>, want: &Vec<Want>) {
    let mut ids = Vec::new();
    let mut k = 0;
    while k < want.len() {
        if want[k].kind == STATIC {
            ids.push((k as u32 + 1) * 100 + 1);
        }
        let mut j = 0;
        while j < want[k].held.len() {
            ids.push(want[k].held[j].slot * 100 + want[k].held[j].serial);
            j += 1;
        }
        k += 1;
    }
    let mut c = b.into_chain();
    let mut l = Logits::default();
    match c.sample(&mut NilSamplerResources::new(), &mut l) {
        Ok(_) => (),
        Err(e) => prove(false, "the chain holds the samplers of the builder"),
    }
    prove(l.len() == ids.len(), "every static and configured sampler is in the chain once, and nothing else");
    if l.len() == ids.len() {
        let mut k = 0;
        while k < ids.len() {
            prove(l[k].token_id == ids[k], "in the order of the slots");
            k += 1;
        }
    }
    vm::reached("run");
}
fn more(kind: usize, name: &'static str, i: u32) -> (Slot, Want) {
    if kind == CHAIN && choose() {
        let v: Vec<Dyn> = vec![Box::new(early(i, 50, false)), Box::new(early(i, 51, false))];
        let held = vec![early(i, 50, false), early(i, 51, false)];
        (Slot::new_chain(factory(i, false), v), Want { name, kind, bad: false, made: 0, held })
    } else {
        of_kind(i, name, kind, choose(), false)
    }
}
fn built(kinds: &[usize]) {
    let mut b = SamplerChainBuilder::default();
    let mut want = Vec::new();
    let mut k = 0;
    while k < kinds.len() {
        let (s, w) = more(kinds[k], "x", k as u32 + 1);
        b.push_slot(String::from("x"), s);
        want.push(w);
        k += 1;
    }
    runs(b, &want);
}
fn any_kind() -> usize {
    if choose() { STATIC } else if choose() { SINGLE } else { CHAIN }
}
pub mod c23 {
    use super::*;
    pub fn none() { built(&[]) }
    pub fn one() { built(&[any_kind()]) }
    pub fn two() { built(&[any_kind(), any_kind()]) }
    pub fn three() { built(&[any_kind(), any_kind(), any_kind()]) }
    pub fn four() { built(&[any_kind(), SINGLE, CHAIN, any_kind()]) }
    pub fn after_configuring() {
        let (mut b, mut w) = with_names(&["a", "b"]);
        let (x, y) = (if choose() { "a" } else { "b" }, if choose() { "a" } else { "b" });
        for n in [x, y] {
            configured(&mut w, n, "k=1");
            match b.configure(n, "k=1") {
                Ok(()) => (),
                Err(e) => std::mem::forget(e),
            }
        }
        runs(b, &w);
    }
}

// ---------------------------------------------------------------- C49: what errors say
#[derive(Clone, Copy, PartialEq)]
enum Why {
    Unknown,
    Ambiguous,
    Conversion,
    Closed,
    Else,
}
/// the kind of a configuration error and whether it names the key (blanks aside)
fn why(e: anyhow::Error, key: &str) -> (Why, bool) {
    let key = key.trim();
    let r = match e.downcast_ref::<ConfigureSamplerError>() {
        Some(ConfigureSamplerError::UnknownOrBadType(k)) => (Why::Unknown, k.trim() == key),
        Some(ConfigureSamplerError::AmbiguousKey(k)) => (Why::Ambiguous, k.trim() == key),
        Some(ConfigureSamplerError::ConversionFailure(k)) => (Why::Conversion, k.trim() == key),
        Some(ConfigureSamplerError::CannotAccessOptionValue(k)) => (Why::Closed, k.trim() == key),
        None => (Why::Else, false),
    };
    std::mem::forget(e);
    r
}
const KIND: &str = "the error is of the kind that fits";
const NAMED: &str = "the error names the key";
fn expect(e: anyhow::Error, key: &str, want: Why) {
    let blank = key.trim().is_empty();
    let (w, named) = why(e, key);
    prove(w == want, KIND);
    prove(blank || named, NAMED);
}
fn table_errors(keys: &Vec<&'static str>) {
    let mut rows = Vec::new();
    let mut k = 0;
    while k < keys.len() {
        rows.push((entry(keys[k], SamplerOptionType::UInt), Some(k)));
        k += 1;
    }
    let o = SamplerOptions::from(rows);
    let key = vm::any_text();
    if let Err(e) = o.find_option_definition(key) {
        match look(keys, key) {
            Found::No => expect(e, key, Why::Unknown),
            Found::Many => expect(e, key, Why::Ambiguous),
            Found::At(_) => std::mem::forget(e),
        }
    }
    vm::reached("looked up");
}
fn key_errors<S: Conf>(s: &mut S) {
    let keys = keys_of(s);
    let key = vm::any_text();
    let want = match look(&keys, key) {
        Found::No => Why::Unknown,
        Found::Many => Why::Ambiguous,
        Found::At(_) => Why::Else,
    };
    if want != Why::Else {
        if let Err(e) = s.get_option(key) {
            expect(e, key, want);
        }
        if let Err(e) = s.set_option(key, SamplerOptionValue::UInt(vm::any_u64())) {
            expect(e, key, want);
        }
    } else if let Err(e) = s.set_option(key, SamplerOptionValue::Bool(choose())) {
        // no option of this sampler is a boolean
        expect(e, key, Why::Unknown);
    }
    vm::reached("asked");
}
/// an option that cannot be reached
#[derive(Debug)]
struct Shut;
impl Sampler for Shut {
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(logits)
    }
}
impl ConfigurableSampler<usize, f32> for Shut {}
impl HasSamplerMetadata<usize, f32> for Shut {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "shut", description: None, options: vec![entry("door", UNSIGNED)] }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        SamplerOptions::from(vec![(entry("door", UNSIGNED), None)])
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        SamplerOptions::from(vec![(entry("door", UNSIGNED), None)])
    }
}
fn slot_errors(kind: usize, full: bool) {
    let mut b = SamplerChainBuilder::default();
    let own = vm::any_text();
    let (s, w) = of_kind(1, own, kind, full, true);
    b.push_slot(String::from(own), s);
    let name = vm::any_text();
    match b.configure(name, vm::any_text()) {
        Ok(()) => prove(false, "a failure is an error"),
        Err(e) => {
            let r = match e.downcast_ref::<BuildSamplersError>() {
                Some(BuildSamplersError::UnknownSlot(n)) => (1, n == name),
                Some(BuildSamplersError::CannotConfigureStatic(n)) => (2, n == name),
                Some(BuildSamplersError::ConfigureFailed { name: n, err }) => {
                    let cause = match err.downcast_ref::<ConfigureSamplerError>() {
                        Some(ConfigureSamplerError::UnknownOrBadType(k)) => k == "bad",
                        _ => false,
                    };
                    prove(cause, "the error holds the sampler's own");
                    (3, n == name)
                }
                None => (0, false),
            };
            std::mem::forget(e);
            let want = if name != own { 1 } else if kind == STATIC { 2 } else { 3 };
            prove(r.0 == want, KIND);
            prove(r.1, "the error names the slot");
        }
    }
    vm::reached("configured");
}
pub mod c49 {
    use super::*;
    pub fn table0() { table_errors(&vec![]) }
    pub fn table1() { table_errors(&vec![vm::any_str()]) }
    pub fn table2() {
        let (a, b) = (vm::any_str(), vm::any_str());
        assume(a != b);
        table_errors(&vec![a, b])
    }
    pub fn table3() {
        let (a, b, c) = (vm::any_str(), vm::any_str(), vm::any_str());
        assume(a != b);
        assume(a != c);
        assume(b != c);
        table_errors(&vec![a, b, c])
    }
    pub fn top_k() { key_errors(&mut SampleTopK::new(vm::any_usize(), vm::any_usize())) }
    pub fn top_p() { key_errors(&mut SampleTopP::new(vm::any_f32(), vm::any_usize())) }
    pub fn top_a() { key_errors(&mut SampleTopA::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
    pub fn freq_presence() { key_errors(&mut SampleFreqPresence::new(vm::any_f32(), vm::any_f32(), vm::any_usize())) }
    pub fn mirostat2() { key_errors(&mut any_mirostat2()) }
    pub fn greedy() { key_errors(&mut SampleGreedy::new()) }
    pub fn narrow() {
        let mut o = any_own();
        let x = vm::any_u64();
        match o.set_option("u", SamplerOptionValue::UInt(x)) {
            Ok(()) => prove(x < 256, "a number too large for its option is an error"),
            Err(e) => {
                prove(x >= 256, "a number that fits its option is taken");
                expect(e, "u", Why::Conversion)
            }
        }
    }
    pub fn closed() {
        let mut s = Shut;
        let key = vm::any_text();
        let there = "door".starts_with(key.trim());
        let want = if there { Why::Closed } else { Why::Unknown };
        match s.get_option(key) {
            Ok(_) => prove(false, "an option that cannot be reached is an error"),
            Err(e) => expect(e, key, want),
        }
        match s.set_option(key, SamplerOptionValue::UInt(vm::any_u64())) {
            Ok(()) => prove(false, "an option that cannot be reached is an error"),
            Err(e) => expect(e, key, want),
        }
    }
    pub fn in_text() {
        let mut s = SampleTopP::new(vm::any_f32(), vm::any_usize());
        let (k, v) = (vm::any_word(), vm::any_word());
        let t = join(&[k, "=", v]);
        match look(&keys_of(&s), k) {
            Found::At(_) => (),
            f => match s.configure(&t) {
                Ok(()) => prove(false, "an unknown or ambiguous key is an error"),
                Err(e) => expect(e, k, match f { Found::Many => Why::Ambiguous, _ => Why::Unknown }),
            },
        }
    }
    pub fn converted() {
        let n = vm::any_usize();
        match SamplerError::from(LogitsError::InvalidLogit(n)) {
            SamplerError::LogitsError(LogitsError::InvalidLogit(m)) => prove(m == n, "a candidate list's error keeps its position when it becomes a sampler's"),
            _ => prove(false, "a candidate list's error stays one when it becomes a sampler's"),
        }
        match SamplerError::from(LogitsError::InternalError(String::from("x"))) {
            SamplerError::LogitsError(LogitsError::InternalError(t)) => prove(t == "x", "a candidate list's error keeps its text when it becomes a sampler's"),
            _ => prove(false, "a candidate list's error stays one when it becomes a sampler's"),
        }
    }
    pub fn slot_static() { slot_errors(STATIC, false) }
    pub fn slot_single() { slot_errors(SINGLE, false) }
    pub fn slot_single_full() { slot_errors(SINGLE, true) }
    pub fn slot_chain() { slot_errors(CHAIN, false) }
}
