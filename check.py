#!/usr/bin/env python3
"""check.py PROPERTY : decide one property of /repo's current tree by abstract interpretation.

Builds the analyser if needed, compiles the specification drivers of the property against /repo's
working tree with the analyser as the compiler's front end, reads its verdicts, writes
evidence/PROPERTY.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import fcntl, glob, json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SAMPLINT_REPO", "/repo")
TARGET = os.path.join(ROOT, "target")
EVID = os.path.join(ROOT, "evidence")
NIGHTLY = "nightly"
T0 = time.time()
FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Zub-checks=no"


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def load_table():
    with open(os.path.join(ROOT, "checks.json")) as f:
        return json.load(f)


def env_base():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("SAMPLINT_") and k != "SAMPLINT_REPO":
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    e["CARGO_NET_OFFLINE"] = "true"
    sr = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True)
    if sr.returncode:
        die("no nightly toolchain: " + sr.stderr)
    e["LD_LIBRARY_PATH"] = sr.stdout.strip() + "/lib"
    return e


def build_analyzer(e):
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(ROOT, "analyzer"), env=e,
                       capture_output=True, text=True)
    exe = os.path.join(ROOT, "analyzer", "target", "release", "samplint")
    if r.returncode or not os.path.exists(exe):
        die("the analyser does not build:\n" + r.stderr[-3000:])
    return exe


def forget(target):
    """no stale verdict: drop what cargo remembers about the crate under analysis and the drivers"""
    for pat in ("llm-samplers*", "llm_samplers*", "vdrv*"):
        for d in ("debug/build/", "debug/.fingerprint/"):
            for p in glob.glob(os.path.join(target, d + pat)):
                shutil.rmtree(p, ignore_errors=True)


def analyse(e, exe, crate, prefixes, tier, out):
    e = dict(e)
    e["RUSTFLAGS"] = FLAGS
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUSTC_WORKSPACE_WRAPPER"] = exe
    e["CARGO_INCREMENTAL"] = "0"
    e["SAMPLINT_CRATE"] = "vdrv_" + crate
    e["SAMPLINT_FN"] = prefixes
    e["SAMPLINT_OUT"] = out
    if tier == "thorough":
        e["SAMPLINT_T1"], e["SAMPLINT_T2"], e["SAMPLINT_PEEL"] = "240", "400", "4"
    else:
        e["SAMPLINT_T1"], e["SAMPLINT_T2"], e["SAMPLINT_PEEL"] = "90", "90", "3"
    for p in glob.glob(out + "*"):
        os.remove(p)
    forget(TARGET)
    r = subprocess.run(["cargo", "check", "--offline"], cwd=os.path.join(ROOT, "drv", crate), env=e, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        die("the specification drivers do not compile against the current tree:\n" + r.stderr[-6000:])
    with open(out) as f:
        return json.load(f), e


def setup(table):
    """builds the analyser and the drivers' dependencies, so that a check starts warm"""
    e = env_base()
    exe = build_analyzer(e)
    e["RUSTFLAGS"] = FLAGS
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WORKSPACE_WRAPPER"] = exe
    e["SAMPLINT_CRATE"] = "none"
    crates = {p["crate"] for s in table.values() for p in s["parts"]} | {s["witness"] for s in table.values() if s.get("witness")}
    for crate in sorted(crates):
        r = subprocess.run(["cargo", "check", "--offline", "--quiet"], cwd=os.path.join(ROOT, "drv", crate), env=e)
        if r.returncode:
            sys.exit(2)


def witness(pid, spec, e, tier, seed):
    """the witness crate builds just when the property holds: reads the compiler's verdict on each of its lines"""
    crate = spec["witness"]
    src = os.path.join(ROOT, "drv", crate, "src", "lib.rs")
    with open(src) as f:
        lines = f.read().split("\n")
    table = [l.split(";")[0].split(None, 1)[1] for l in lines[[i for i, l in enumerate(lines) if l.startswith("crosses! {")][0]:] if l.strip().endswith(";")]
    generic = [l.strip() for l in lines if "::<S>();" in l]
    obligations = 2 * len(table) + len(generic)
    e = dict(e)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTFLAGS"] = FLAGS
    forget(TARGET)
    cmd = ["cargo", "check", "--offline", "--message-format=json"]
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "drv", crate), env=e, capture_output=True, text=True)
    viols, other = [], []
    for ln in r.stdout.splitlines():
        try:
            m = json.loads(ln)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        d = m["message"]
        mine = "vdrv_" + crate in m.get("package_id", "") or "drv/" + crate in m.get("package_id", "")
        if mine and (d.get("code") or {}).get("code") == "E0277" and "between threads safely" in d["message"]:
            viols.append(d)
        elif not d["message"].startswith("aborting due to"):
            other.append(d.get("rendered") or d["message"])
    if other or (r.returncode and not viols):
        die("the witness crate does not build against the current tree:\n" + "".join(other)[:3000] + r.stderr[-3000:])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "proof"),
        "coverage": {
            "obligations": obligations, "discharged": obligations - len(viols),
            "checker_cmd": f"cd {ROOT}/drv/{crate} && cargo +nightly check --offline",
            "trusted_base": ["rustc's trait solver and its rules for the Send and Sync auto traits"],
            "rule": spec["rule"],
            "types": table, "generic_obligations": generic,
            "explanation": "Each obligation is a call sends::<T>() or shares::<T>() in a crate that is type-checked against the current tree; the compiler rejects the call whose type does not cross threads.",
        },
        "assumptions": spec.get("assumptions", []) or ["unsafe impls of Send and Sync are not audited (the crate has none)"],
        "violations": len(viols),
        "wall_s": round(time.time() - T0, 2),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{pid}: {obligations} type obligations, {len(viols)} refused by the compiler, {ev['wall_s']} s")
    if viols:
        rp = os.path.join(EVID, pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("\n".join(d["rendered"] for d in viols))
        for d in viols[:6]:
            print("  " + d["message"])
        for d in viols[:3]:
            for c in d["children"]:
                for sp in c["spans"]:
                    if "/drv/" not in sp["file_name"] and not sp["file_name"].startswith(("src/lib.rs",)):
                        print(f"     {sp['file_name']}:{sp['line_start']}: {c['message']}"[:300])
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    sys.exit(0)


def main():
    if len(sys.argv) != 2:
        die("usage: check.py PROPERTY")
    pid = sys.argv[1]
    table = load_table()
    if pid == "--setup":
        return setup(table)
    if pid not in table:
        die("unknown property " + pid)
    spec = table[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    e = env_base()
    exe = build_analyzer(e)

    if spec.get("witness"):
        return witness(pid, spec, e, tier, seed)
    drivers, cmds = [], []
    for part in spec["parts"]:
        out = os.path.join(TARGET, f"verdict.{pid}.{part['crate']}.json")
        res, env = analyse(e, exe, part["crate"], part["fns"], tier, out)
        os.remove(out)
        names = {d["driver"] for d in res}
        missing = [d for d in part["drivers"] if d not in names]
        if missing:
            die("drivers not analysed: " + ", ".join(missing))
        drivers += res
        cmds.append(f"cd {ROOT}/drv/{part['crate']} && SAMPLINT_CRATE=vdrv_{part['crate']} SAMPLINT_FN={part['fns']} "
                    f"RUSTC_WORKSPACE_WRAPPER={exe} cargo +nightly check --offline")

    obligations = discharged = 0
    funcs, models, std, opens, viols, samples = {}, set(), set(), [], [], []
    states = joins = calls = 0
    bounded = []
    for d in drivers:
        p1, p2 = d.get("p1"), d.get("p2")
        if d.get("crash"):
            obligations += 1
            opens.append(f"{d['driver']}: {d['crash']}")
            continue
        for p in (p1, p2):
            if not p:
                continue
            for f, n in p["funcs"].items():
                funcs[f] = max(funcs.get(f, 0), n)
            models.update(p["models"])
            std.update(p["std"])
            states += p["states"]
            joins += p["joins"]
            calls += p["calls"]
        ids = {o["id"]: o for o in p1["obs"]}
        small = {}
        if p2 and p2.get("whole") and not p2["fails"] and not p2["taints"]:
            # a driver over inputs of a given size, every path of which was followed to its end
            small = {o["id"]: o for o in p2["obs"] if o["open"] == 0}
            for o in p2["obs"]:
                ids.setdefault(o["id"], {"id": o["id"], "open": 1, "proved": 0, "why": []})
        clean = not p1["fails"] and not p1["taints"]
        n_open = 0
        for i, o in sorted(ids.items()):
            obligations += 1
            if o["open"] == 0 and clean and o["proved"] > 0:
                discharged += 1
                if len(samples) < 6:
                    samples.append(f"{d['driver']}: {i}")
            elif i in small:
                discharged += 1
                bounded.append(f"{d['driver']}: {i} ({small[i]['proved']} paths)")
            else:
                n_open += 1
                opens.append(f"{d['driver']}: {i}: " + "; ".join((o["why"] or p1["fails"] or p1["taints"])[:2])[:400])
        if not ids:
            obligations += 1
            opens.append(f"{d['driver']}: no obligation reached; " + "; ".join((p1["fails"] + p1["taints"])[:2])[:400])
        if p2:
            for o in p2["obs"]:
                if o["violation"]:
                    viols.append({"driver": d["driver"], "rule": o["id"], "path": o["violation"]})
    crate_funcs = sorted(f for f in funcs if "llm_samplers" in f)

    # recorded defects
    known = []
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: property=" + pid + " "):
                known.append(line.split(" ", 2)[2])
    new = []
    for v in viols:
        key = v["driver"] + " | " + v["rule"]
        hit = next((k for k in known if k.split(" :: ")[0] == key), None)
        if hit:
            print(f"KNOWN-FINDING: property={pid} {hit}")
        else:
            new.append(v)

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "proof"),
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": " ; ".join(cmds),
            "trusted_base": TRUSTED,
            "rule": spec["rule"],
            "drivers": len(drivers),
            "functions_of_the_crate_analysed": len(crate_funcs),
            "functions": crate_funcs[:80],
            "basic_blocks": sum(funcs[f] for f in crate_funcs),
            "library_functions_interpreted": len(std),
            "library_functions_modelled": len(models),
            "abstract_states": states, "joins": joins, "calls_analysed": calls,
            "discharged_samples": samples,
            "discharged_for_the_given_sizes_only": bounded,
            "undischarged": opens[:40],
            "explanation": "Abstract interpretation of the drivers with the crate's MIR; discharged obligations hold for all sizes. "
                           "An undischarged obligation was re-analysed on all lists up to the unrolling bound, with arbitrary contents, and no exact path violates it.",
        },
        "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
        "violations": len(new),
        "wall_s": round(time.time() - T0, 2),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{pid}: {len(drivers)} drivers, {len(crate_funcs)} functions of the crate, {obligations} obligations, "
          f"{discharged} discharged, {len(new)} violations, {ev['wall_s']} s")
    for o in opens[:20]:
        print("  undischarged:", o)
    if new:
        rp = os.path.join(EVID, pid + ".violation.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write(f"property {pid}\ndriver {v['driver']}\nrule {v['rule']}\npath:\n{v['path']}\n\n")
        for v in new[:5]:
            print(f"  {v['driver']}: {v['rule']}")
            for ln in [x for x in v["path"].split("\n") if "src/" in x][-4:]:
                print("     ", ln[:300])
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    if obligations < spec.get("floor", 1):
        die(f"only {obligations} obligations, expected at least {spec['floor']}")
    sys.exit(0)


TRUSTED = [
    "rustc's MIR construction and monomorphisation (nightly)",
    "samplint's abstract transformers for MIR statements and its linear-arithmetic entailment procedure (analyzer/src)",
    "reference definitions of library routines in vmodels/src/lib.rs and analyzer/src/models.rs",
    "the specification drivers (drv/) as the formal reading of the property",
]
ASSUMPTIONS = [
    "float values are treated as reals (no rounding, no overflow); NaN only where a driver introduces it",
    "slices and vectors hold fewer than 2^31 elements",
    "memory allocation succeeds; destructors have no effect on the property",
    "hash map iteration order is unspecified but a lock is never poisoned",
]

if __name__ == "__main__":
    main()
