#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

mod effects;
mod interp;
mod ir;
mod join;
mod lin;
mod models;
mod state;
mod strs;
mod witness;

use interp::*;
use rustc_public::mir::mono::Instance;
use rustc_public::CrateDef;
use std::collections::*;
use std::ops::ControlFlow;
use std::time::{Duration, Instant};

fn arg_of(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let name = arg_of(&args, "--crate-name").unwrap_or_default();
    let only = std::env::var("SAMPLINT_CRATE").unwrap_or_default();
    let is_target = name.starts_with("vdrv") && (only.is_empty() || only == name);
    if !is_target {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
        eprintln!("exec failed {e}");
        std::process::exit(3);
    }
    // deep recursion over call graphs: large stack
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            args.push("-Coverflow-checks=on".into());
            let r: Result<(), _> = rustc_public::run_with_tcx!(&args, |_tcx| -> ControlFlow<(), ()> {
                analyse();
                ControlFlow::Continue(())
            });
            match r {
                Ok(_) => 0,
                Err(e) => {
                    eprintln!("samplint: {:?}", e);
                    3
                }
            }
        })
        .unwrap();
    std::process::exit(h.join().unwrap_or(4));
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<'a>(it: impl Iterator<Item = &'a String>) -> String {
    format!("[{}]", it.map(|x| js(x)).collect::<Vec<_>>().join(","))
}

fn envn(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn analyse() {
    let filter = std::env::var("SAMPLINT_FN").unwrap_or_default();
    let verbose = std::env::var("SAMPLINT_VERBOSE").is_ok();
    let out = std::env::var("SAMPLINT_OUT").unwrap_or_default();
    let t1 = envn("SAMPLINT_T1", 60);
    let t2 = envn("SAMPLINT_T2", 60);
    let peel = envn("SAMPLINT_PEEL", 3) as u32;
    let only_phase = envn("SAMPLINT_PHASE", 0);
    let mut models: HashMap<String, rustc_public::ty::FnDef> = HashMap::new();
    for c in rustc_public::find_crates("vmodels") {
        for f in c.fn_defs() {
            let n = f.name();
            let last = n.rsplit("::").next().unwrap().to_string();
            if !n.contains("vm::") {
                models.insert(last, f);
            }
        }
    }
    let models = std::rc::Rc::new(models);
    let mut res: Vec<String> = vec![];
    let mut drivers: Vec<(String, Instance)> = vec![];
    for i in rustc_public::all_local_items() {
        let n = i.name();
        let cs: Vec<&str> = n.split("::").collect();
        let mut last = cs[cs.len() - 1].to_string();
        if cs.len() >= 2 {
            let m = cs[cs.len() - 2];
            if m.starts_with('c') && m.len() > 1 && m[1..].bytes().all(|c| c.is_ascii_digit()) {
                last = format!("{m}_{last}");
            }
        }
        if !last.starts_with("c") || !last.as_bytes().get(1).map_or(false, |c| c.is_ascii_digit()) {
            continue;
        }
        if !filter.is_empty() && !filter.split(',').any(|f| last.starts_with(f)) {
            continue;
        }
        if let Ok(inst) = Instance::try_from(i) {
            if inst.has_body() {
                drivers.push((last, inst));
            }
        }
    }
    drivers.sort_by(|a, b| a.0.cmp(&b.0));
    drivers.dedup_by(|a, b| a.0 == b.0);
    let one = |name: &String, inst: Instance| -> String {
        let t0 = Instant::now();
        let mk = |exact: bool, t: f64, peel: u32| Interp {
            exact,
            peel,
            unroll: 0,
            sorts: Default::default(),
            obs: Default::default(),
            fails: Default::default(),
            taints: Default::default(),
            funcs: Default::default(),
            std_funcs: Default::default(),
            models: models.clone(),
            model_used: Default::default(),
            prims_used: Default::default(),
            steps: 0,
            states: 0,
            joins: 0,
            deadline: Instant::now() + Duration::from_secs_f64(t),
            depth: 0,
            target_crate: "llm_samplers".into(),
            verbose,
            panic_obl: name.contains("c14_"),
            calls: 0,
            prof: Default::default(),
            prof_nested: Duration::ZERO,
            max_steps: 20_000_000,
            ob_prefix: None,
            templates: Default::default(),
            lists: exact,
            beam: 1500,
            thinned: 0,
            deep: false,
            cut: 0,
        };
        let mut p1 = mk(false, t1 as f64, peel);
        let openness = |p: &Interp| p.fails.len() + p.taints.len() + p.obs.values().filter(|o| o.open > 0).count();
        if only_phase != 2 {
            for u in 0..2 {
                let mut p = mk(false, t1 as f64, peel);
                p.unroll = u;
                let mut st = state::State::new();
                st.exact = false;
                let o = p.run(st, inst, vec![]);
                if o.is_empty() {
                    p.fails.insert("no path reaches the end of the driver".into(), 1);
                }
                if u == 0 || openness(&p) < openness(&p1) {
                    p1 = p;
                }
                if openness(&p1) == 0 {
                    break;
                }
            }
        }
        if std::env::var("SAMPLINT_PROF").is_ok() {
            let mut v: Vec<_> = p1.prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
            for (n, (t, c)) in v.iter().take(15) {
                eprintln!("PROF {:.2}s {c} {n}", t.as_secs_f64());
            }
        }
        let open1 = only_phase == 2 || !p1.fails.is_empty() || p1.obs.values().any(|o| o.open > 0) || !p1.taints.is_empty();
        let d1 = t0.elapsed().as_secs_f64();
        let mut p2 = None;
        let mut reached2 = 0;
        if open1 && only_phase != 1 {
            // deepening: short collections first
            let mut p = mk(true, t2 as f64, 1);
            for k in 1..=peel {
                if k > 1 {
                    p = mk(true, t2 as f64 / (peel - 1).max(1) as f64, k);
                }
                let mut st = state::State::new();
                st.exact = true;
                p.run(st, inst, vec![]);
                reached2 = k;
                if p.deep || p.obs.values().any(|o| o.violation.is_some()) || (t0.elapsed().as_secs_f64() - d1) > t2 as f64 {
                    break;
                }
            }
            p2 = Some(p);
        }
        let mut obs = vec![];
        let dump = |p: &Interp| -> String {
            let mut v = vec![];
            for (k, o) in &p.obs {
                v.push(format!(
                    "{{\"id\":{},\"proved\":{},\"open\":{},\"why\":{},\"violation\":{}}}",
                    js(k),
                    o.proved,
                    o.open,
                    jl(o.why.iter()),
                    o.violation.as_ref().map(|x| js(x)).unwrap_or("null".into())
                ));
            }
            let fails: Vec<String> = p.fails.iter().map(|(k, n)| format!("{k} (x{n})")).collect();
            let funcs: Vec<String> = p.funcs.iter().map(|(k, b)| format!("{}:{}", js(k), b.len())).collect();
            format!(
                "{{\"obs\":[{}],\"fails\":{},\"taints\":{},\"funcs\":{{{}}},\"std\":{},\"models\":{},\"prims\":{},\"steps\":{},\"states\":{},\"joins\":{},\"calls\":{},\"whole\":{}}}",
                v.join(","),
                jl(fails.iter()),
                jl(p.taints.iter()),
                funcs.join(","),
                jl(p.std_funcs.iter()),
                jl(p.model_used.iter()),
                jl(p.prims_used.iter()),
                p.steps,
                p.states,
                p.joins,
                p.calls,
                p.deep && p.cut == 0 && p.thinned == 0
            )
        };
        obs.push(format!("\"p1\":{}", if only_phase == 2 { "null".into() } else { dump(&p1) }));
        obs.push(format!("\"p2\":{}", p2.as_ref().map(|p| dump(p)).unwrap_or("null".into())));
        let viol = p2.as_ref().map_or(0, |p| p.obs.values().filter(|o| o.violation.is_some()).count());
        eprintln!(
            "samplint: {name}: p1 {} ({:.1}s, {} obs, {} states, {} joins){}",
            if open1 { "OPEN" } else { "proved" },
            d1,
            p1.obs.len(),
            p1.states,
            p1.joins,
            match &p2 {
                Some(p) => format!(
                    "; p2(peel {}) {} violations, {} open, {} fails, thinned {} ({:.1}s)",
                    reached2,
                    viol,
                    p.obs.values().filter(|o| o.open > 0).count(),
                    p.fails.len(),
                    p.thinned,
                    t0.elapsed().as_secs_f64() - d1
                ),
                None => String::new(),
            }
        );
        if verbose || std::env::var("SAMPLINT_SHOW").is_ok() {
            for (t, p) in [("p1", Some(&p1)), ("p2", p2.as_ref())] {
                let Some(p) = p else { continue };
                for (k, o) in &p.obs {
                    if o.open > 0 {
                        eprintln!("   {t} {k}: proved {} open {} {:?}", o.proved, o.open, o.why);
                        if let Some(v) = &o.violation {
                            eprintln!("      VIOLATION {v}");
                        }
                    } else {
                        eprintln!("   {t} {k}: proved {}", o.proved);
                    }
                }
                for (k, n) in &p.fails {
                    eprintln!("   {t} FAIL {k} x{n}");
                }
                for k in &p.taints {
                    eprintln!("   {t} TAINT {k}");
                }
            }
        }
        format!("{{\"driver\":{},\"secs\":{:.2},{}}}", js(&name), t0.elapsed().as_secs_f64(), obs.join(","))
    };
    let jobs = envn("SAMPLINT_JOBS", 8) as usize;
    if drivers.len() <= 1 || jobs <= 1 || out.is_empty() {
        for (name, inst) in &drivers {
            res.push(one(name, *inst));
        }
    } else {
        // one process per driver: parallel, and isolated from each other
        let mut next = 0;
        let mut live: Vec<(i32, usize, Instant)> = vec![];
        let mut slots: Vec<Option<String>> = vec![None; drivers.len()];
        while next < drivers.len() || !live.is_empty() {
            while next < drivers.len() && live.len() < jobs {
                let pid = unsafe { fork() };
                if pid == 0 {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&drivers[next].0, drivers[next].1)));
                    let code = match r {
                        Ok(s) => {
                            std::fs::write(format!("{out}.{next}"), s).unwrap();
                            0
                        }
                        Err(_) => 9,
                    };
                    unsafe { _exit(code) };
                }
                live.push((pid, next, Instant::now()));
                next += 1;
            }
            let mut k = 0;
            let mut any = false;
            while k < live.len() {
                let (pid, ix, t) = live[k];
                let mut status = 0i32;
                let w = unsafe { waitpid(pid, &mut status, 1) };
                if w == 0 {
                    if t.elapsed().as_secs() > t1 + t2 + 20 {
                        unsafe { kill(pid, 9) };
                    }
                    k += 1;
                    continue;
                }
                any = true;
                live.remove(k);
                let f = format!("{out}.{ix}");
                slots[ix] = Some(match std::fs::read_to_string(&f) {
                    Ok(s) if status == 0 => s,
                    _ => format!("{{\"driver\":{},\"secs\":{:.2},\"crash\":{},\"p1\":null,\"p2\":null}}", js(&drivers[ix].0), t.elapsed().as_secs_f64(), js(&format!("analysis ended with status {status}"))),
                });
                let _ = std::fs::remove_file(&f);
            }
            if !any {
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        res = slots.into_iter().flatten().collect();
    }
    if filter.split(',').any(|f| f == "c45" || f == "c") {
        let f = effects::scan("llm_samplers");
        let mut ob = vec![];
        let mut viol = vec![];
        for (n, _) in f.functions.iter() {
            let why: Vec<String> = f.bad.get(n).map(|b| b.iter().cloned().collect()).unwrap_or_default();
            ob.push(format!("{{\"id\":{},\"proved\":{},\"open\":{},\"why\":{},\"violation\":null}}", js(n), why.is_empty() as u8, !why.is_empty() as u8, jl(why.iter())));
        }
        for (n, b) in f.bad.iter() {
            let why: Vec<String> = b.iter().cloned().collect();
            viol.push(format!("{{\"id\":{},\"proved\":0,\"open\":1,\"why\":{},\"violation\":{}}}", js(n), jl(why.iter()), js(&format!("{n}\n  {}", why.join("\n  ")))));
        }
        let funcs: Vec<String> = f.functions.iter().map(|(n, b)| format!("{}:{b}", js(n))).collect();
        let tail = format!("\"fails\":[],\"taints\":[],\"funcs\":{{{}}},\"std\":[],\"models\":[],\"prims\":[],\"steps\":{},\"states\":{},\"joins\":0,\"calls\":{},\"whole\":false", funcs.join(","), f.types, f.functions.values().sum::<usize>(), f.calls);
        eprintln!("samplint: c45_effects: {} functions, {} callees, {} statics, {} with effects", f.functions.len(), f.calls, f.statics.len(), f.bad.len());
        res.push(format!("{{\"driver\":\"c45_effects\",\"secs\":0,\"p1\":{{\"obs\":[{}],{tail}}},\"p2\":{{\"obs\":[{}],{tail}}}}}", ob.join(","), viol.join(",")));
    }
    if !out.is_empty() {
        std::fs::write(&out, format!("[{}]\n", res.join(",\n"))).unwrap();
    }
}
