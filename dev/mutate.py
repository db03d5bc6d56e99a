#!/usr/bin/env python3
"""mutate.py OUT [FILE-SUBSTRING] : mutation testing of the checks (dev helper; no check uses it).
Makes one-token mutants of /repo's non-test sources, keeps those that build and pass the tests, and runs the relevant
checks on each in a private copy of /verif and /repo. Prints the survivors (no check alarms)."""
import json, os, re, shutil, subprocess, sys, threading, queue, time
W = "/tmp/mw"
N = int(os.environ.get("MW", "4"))
BASIC = ["C30", "C27", "C26", "C18", "C15", "C09", "C13"]
FILT = ["C01", "C02", "C03", "C04", "C35", "C14"]
MAP = {
 "top_k.rs": BASIC + FILT, "top_p.rs": BASIC + FILT + ["C34"], "top_a.rs": BASIC + FILT + ["C33"], "min_p.rs": BASIC + FILT + ["C33"],
 "tail_free.rs": BASIC + FILT + ["C41"], "locally_typical.rs": BASIC + FILT + ["C41"],
 "temperature.rs": BASIC + ["C36", "C01", "C02", "C05", "C14"], "flat_bias.rs": BASIC + ["C08", "C01", "C02", "C05", "C14"],
 "repetition.rs": BASIC + ["C32", "C01", "C02", "C05", "C06", "C07", "C14"],
 "freq_presence.rs": BASIC + ["C32", "C01", "C02", "C05", "C06", "C07", "C14"],
 "sequence_repetition.rs": BASIC + ["C42", "C46", "C48", "C32", "C01", "C02", "C05", "C06", "C14"],
 "greedy.rs": BASIC + ["C46", "C48", "C10", "C11", "C12", "C14"], "rand_distrib.rs": BASIC + ["C46", "C48", "C10", "C12", "C14", "C02", "C40"],
 "mirostat.rs": BASIC + ["C44", "C46", "C47", "C48", "C49",  "C31", "C10", "C12", "C03", "C02", "C14", "C40"],
 "types.rs": ["C45", "C48", "C17", "C24", "C37", "C25", "C11", "C01", "C02", "C16", "C39", "C14"], "chain.rs": ["C39", "C45", "C48", "C16", "C17", "C23"],
 "resource.rs": ["C28", "C29", "C45", "C48"],
 "value.rs": ["C49", "C48", "C21", "C20"], "metadata.rs": ["C49", "C19", "C18", "C20", "C21"], "configurable.rs": ["C49", "C45", "C19", "C21", "C20", "C15", "C38"],
 "building.rs": ["C49", "C45", "C48", "C17", "C23", "C22"],
}
SWAP = [(r"(?<![<>=!-])<(?![<=A-Za-z'_&\[(])", ["<=", ">"]), (r"(?<![<>=-])>(?![>=(:,;)\]])", [">=", "<"]), (r"<=", ["<", ">="]), (r"(?<!-)>=", [">", "<="]),
        (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?= )", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
        (r"\+=", ["-="]), (r"-=", ["+="]), (r"/=", ["*="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
        (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])0f32", ["1f32"]), (r"(?<![\w.])1f32", ["0f32", "2f32"]),
        (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
        (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.first\(", [".last("]), (r"\.last\(", [".first("]), (r"\.abs\(\)", [""]), (r"\.trim\(\)", [""]),
        (r"\.skip\(", [".take("]), (r"\.take\((?!\))", [".skip("]), (r"\.iter_mut\(\)", [".iter_mut().skip(1)", ".iter_mut().rev()"]), (r"\.iter\(\)", [".iter().skip(1)", ".iter().rev()"]),
        (r"\.into_iter\(\)", [".into_iter().rev()"]), (r"\.ln\(\)", [".log2()", ".log10()"]), (r"\.log2\(\)", [".ln()"]), (r"\.find\(", [".rfind("]),
        (r"\.saturating_mul\(", [".wrapping_mul("]), (r"\.max_by\(", [".min_by("]), (r"None", []), (r"\.rev\(\)", [""]), (r"split_once", ["rsplit_once"]), (r"starts_with", ["ends_with", "contains"]),
        (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".is_empty() == false"]), (r"is_finite\(\)", ["is_nan()"]), (r"is_nan\(\)", ["is_infinite()"]),
        (r"\?;", [";"]), (r"\bif (?!let)([^{]+) \{$", ["if !(\\1) {", "if true {", "if false {"])]
def mutants(path):
    src = open(path).read()
    lines = src.split("\n")
    out, intest = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith(("//", "#[", "use ", "pub use", "description", "\"", "#![", "impl", "pub trait", "where", "type ", "pub type")) or "concat!" in s or "fn " in s: continue
        if "#[cfg(test)" in s: break
        code = l.split(" // ")[0]
        for pat, reps in SWAP:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                for r in reps:
                    new = code[:m.start()] + m.expand(r) + code[m.end():]
                    out.append((i, l, new))
        if s.endswith(";") and not s.startswith(("let ", "return", "}", ")")) and s.count("(") == s.count(")"):
            out.append((i, l, ""))
    return [(path, i, o, n) for i, o, n in out]
def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout + r.stderr
def prepare(k):
    d = f"{W}/{k}"
    if not os.path.exists(d):
        os.makedirs(d)
        sh(f"cp -a /repo {d}/repo && cp -a /verif {d}/verif && rm -rf {d}/verif/seeded {d}/verif/.git", "/")
        sh(f"sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/verif/drv/*/Cargo.toml", "/")
        sh("python3 check.py --setup", f"{d}/verif", {"SAMPLINT_REPO": f"{d}/repo"})
    else:
        sh(f"rsync -a --exclude target --exclude .git --exclude seeded --exclude evidence /verif/ {d}/verif/ || cp -a /verif/analyzer /verif/drv /verif/vmodels /verif/*.json /verif/*.py {d}/verif/", "/")
        sh(f"sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/verif/drv/*/Cargo.toml", "/")
    return d
def passed(out): return {l.split()[1] for l in out.split("\n") if l.startswith("test ") and l.rstrip().endswith("... ok")}
def main():
    outp, sub = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "")
    allm = []
    for root, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f in MAP and sub in p: allm += mutants(p)
    if os.environ.get("ONLY"):
        keep = {int(x) for x in os.environ["ONLY"].split(",")}
    else: keep = None
    q = queue.Queue()
    for j, m in enumerate(allm):
        if keep is None or j in keep: q.put((j, m))
    print(q.qsize(), "mutants", flush=True)
    res, lock = [], threading.Lock()
    ref = set()
    def work(k):
        d = prepare(k)
        rp = d + "/repo"
        sh("git checkout -q -- .", rp)
        if not ref:
            with lock:
                if not ref: ref.update(passed(sh("cargo test --lib --offline --no-fail-fast", rp)[1]))
        while True:
            try: j, (p, i, old, new) = q.get_nowait()
            except queue.Empty: return
            f = p.replace("/repo", rp)
            src = open(p).read().split("\n"); src[i] = new
            open(f, "w").write("\n".join(src))
            rc, out = sh("cargo test --lib --offline --no-fail-fast", rp, timeout=60)
            if "error: could not compile" in out or "error[" in out: st, by = "nobuild", ""
            elif ref - passed(out): st, by = "tests", ""
            else:
                st, by, na = "MISSED", "", []
                for c in (os.environ["FOCUS"].split(",") if os.environ.get("FOCUS") else MAP[os.path.basename(p)]):
                    rc, out = sh(f"python3 check.py {c}", d + "/verif", {"SAMPLINT_REPO": rp})
                    if rc == 1: st, by = "caught", c; break
                    if rc != 0: na.append(f"{c}:{rc}")
                if na: by += " noanswer " + ",".join(na)
            open(f, "w").write(open(p).read())
            with lock:
                res.append((j, st))
                if st in ("MISSED",) or "noanswer" in by or os.environ.get("ALL"):
                    with open(outp, "a") as o: o.write(f"#{j} {st} {by} {os.path.relpath(p, '/repo')}:{i+1}\n  - {old.strip()}\n  + {new.strip()}\n")
    ts = [threading.Thread(target=work, args=(k,)) for k in range(N)]
    for t in ts: t.start(); time.sleep(0.1)
    for t in ts: t.join()
    from collections import Counter
    with open(outp, "a") as o: o.write(str(Counter(s for _, s in res)) + "\n")
main()
