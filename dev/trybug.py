#!/usr/bin/env python3
"""trybug.py [ID...] : runs each planted bug's check against it, in private copies (dev helper). CHECKS=C01,.. for other checks."""
import sys, os, json, threading, queue, time
src = open("/verif/dev/mutate.py").read().replace("\nmain()\n", "\n")
exec(src)
W = "/tmp/tb"
N = int(os.environ.get("MW", "2"))
q = queue.Queue()
for b in sys.argv[1:] or sorted(os.listdir("/verif/seeded")): q.put(b)
lock = threading.Lock()
def work(k):
    if q.empty(): return
    d = prepare(k); rp = d + "/repo"
    while True:
        try: b = q.get_nowait()
        except queue.Empty: return
        sh("git checkout -q -- . ; rm -rf src; cp -a /repo/src .", rp)
        p = json.load(open(f"/verif/seeded/{b}/meta.json"))["property"]
        rc, o = sh(f"git apply /verif/seeded/{b}/patch.diff", rp)
        msg = []
        if rc: msg = ["no apply " + o]
        else:
            for c in os.environ.get("CHECKS", p).split(","):
                rc, out = sh(f"python3 check.py {c}", d + "/verif", {"SAMPLINT_REPO": rp})
                v = [x.strip() for x in out.split("\n") if x.strip() and ("VIOLATION" in x or "violat" in x or ":" in x)]
                msg.append(f"{c} rc={rc} " + " | ".join(x[:110] for x in v[:3]))
        with lock: print(b, *msg, flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(N)]
for t in ts: t.start(); time.sleep(0.1)
for t in ts: t.join()
