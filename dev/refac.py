#!/usr/bin/env python3
"""refac.py FILE.py [ID...] : applies behaviour-preserving rewrites in private copies and runs the relevant checks (dev helper).
Each must leave every check at exit 0; prints those that alarm or give no answer."""
import sys, os, threading, queue, time
sys.path.insert(0, "/verif/dev")
src = open("/verif/dev/mutate.py").read().replace("\nmain()\n", "\n")
exec(src)
W = "/tmp/rw"
N = int(os.environ.get("MW", "3"))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
ALL = sorted({c for v in MAP.values() for c in v} | {"C22", "C12"})
q = queue.Queue()
for r in ns["REF"]:
    if not only or r["id"] in only: q.put(r)
lock = threading.Lock()
import json
REFT = {x if isinstance(x, str) else x for x in passed(sh("cargo test --lib --offline --no-fail-fast", prepare("0") + "/repo")[1])}
def work(k):
    d = prepare(k)
    rp = d + "/repo"
    while True:
        try: r = q.get_nowait()
        except queue.Empty: return
        sh("git checkout -q -- . ; cp -a /repo/src .", rp)
        rel, bad = set(), None
        for e in r["edits"]:
            f, o, n = e[:3]
            t = open(f"{rp}/{f}").read()
            if t.count(o) != (e[3] if len(e) > 3 else 1) : bad = f"edit matches {t.count(o)} times in {f}: {o[:60]!r}"
            open(f"{rp}/{f}", "w").write(t.replace(o, n))
            rel |= set(MAP[os.path.basename(f)])
        if os.environ.get("ALLCHECKS"): rel = set(ALL)
        if os.environ.get("CHECKS"): rel = set(os.environ["CHECKS"].split(","))
        rc, out = sh("cargo test --lib --offline --no-fail-fast", rp)
        if "error: could not compile" in out or "error[" in out: bad = "no build: " + out[-1500:]
        elif REFT - passed(out): bad = "tests fail"
        msgs = []
        if not bad:
            for c in sorted(rel):
                rc, out = sh(f"python3 check.py {c}", d + "/verif", {"SAMPLINT_REPO": rp})
                if rc: msgs.append(f"  {c} rc={rc} " + "\n     ".join(x for x in out.split("\n")[:12]))
                elif "undischarged" in out and os.environ.get("UND"): msgs.append(f"  {c} " + "\n     ".join(x for x in out.split("\n") if "undischarged" in x))
        sh("git checkout -q -- .", rp)
        with lock: print(r["id"], bad or ("ok" if not any("rc=" in m for m in msgs) else "FALSE ALARM / NO ANSWER"), *msgs, sep="\n" if msgs else " ", flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(N)]
for t in ts: t.start(); time.sleep(0.1)
for t in ts: t.join()
