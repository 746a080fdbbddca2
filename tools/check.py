#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's current tree.
exit 0 held, 1 violated (VIOLATION line), 2 no answer."""
import collections, json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS
VERIF = build.VERIF

def demangle(n):
    return n

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    with build.lock():
        try:
            eng = build.engine()
            ll, exe, tb = build.harness(only=c["features"])
        except build.BuildError as e:
            print(f"check {pid}: cannot build\n{e}")
            return 2
        return decide(pid, tier, seed, c, t0, tb, eng, ll, exe)

def native_batch(exe, lines):
    """[(status, obs)]"""
    if not lines: return []
    n = min(8, max(1, len(lines) // 50))
    parts = [lines[i::n] for i in range(n)]
    ps = []
    for p in parts:
        q = subprocess.Popen([exe, "--batch"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        ps.append(q)
    import threading
    outs = [None] * n
    def go(i):
        outs[i] = ps[i].communicate("".join(l + "\n" for l in parts[i]))[0].splitlines()
    ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    res = [None] * len(lines)
    for i in range(n):
        for j, l in enumerate(outs[i]): res[i + j * n] = tuple(l.split())
    return res

def native_verbose(exe, entry, hx):
    try:
        r = subprocess.run([exe, entry, hx], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -14, "no end within 30 s"

def decide(pid, tier, seed, c, t0, tb, eng, ll, exe):
    out = f"{VERIF}/build/run/{pid}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    entries = list(c["quick"]) + (list(c.get("thorough", [])) if tier == "thorough" else [])
    secs = c.get("seconds", 90) if tier == "quick" else c.get("thorough_seconds", 1800)
    r = subprocess.run([eng, "--ll", ll, "--out", out, "--seconds", str(secs), "--seed", str(seed), "--cap", "30", "--audit", "100" if tier == "quick" else "1000000000"] + entries,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(f"check {pid}: engine failed ({r.returncode})\n{r.stdout[-3000:]}")
        return 2
    S = collections.Counter(); F = set(); covers = collections.Counter()
    P, Vs, X, incomplete = [], [], [], set()
    per = collections.defaultdict(collections.Counter)
    for f in os.listdir(out):
        if not f.startswith("r-"): continue
        entry = None
        for l in open(f"{out}/{f}", encoding="utf-8", errors="replace"):
            k, _, rest = l.rstrip("\n").partition(" ")
            if k == "E": entry = rest
            elif k == "Z": incomplete.add(entry)
            elif k == "S":
                n, v = rest.split(); v = int(v)
                if n in ("max_multi", "nodes"): S[n] = max(S[n], v)
                else: S[n] += v
                per[entry][n] += v
            elif k == "P": P.append((entry, *rest.split()))
            elif k == "V": h, _, i = rest.partition(" "); Vs.append((entry, h, i))
            elif k == "X": h, _, i = rest.partition(" "); X.append((entry, h, i))
            elif k == "C": n, _, i = rest.partition(" "); covers[f"{entry}: {i}"] += int(n)
            elif k == "F": F.add(rest)
    # completed paths, replayed on the compiled program
    lim = 1500 if tier == "quick" else 6000
    byent = collections.defaultdict(list)
    for p in P: byent[p[0]].append(p)
    sample = []
    for e, ps in sorted(byent.items()):
        step = max(1, len(ps) * len(byent) // lim)
        sample += ps[::step]
    res = native_batch(exe, [f"{e} {h}" for e, h, _ in sample])
    agree, bad = 0, []
    for (e, h, o), g in zip(sample, res):
        if g == ("0", o): agree += 1
        else: bad.append((e, h, o, g))
    # violations, replayed
    confirmed, unconfirmed, known = [], [], []
    kf = json.load(open(f"{VERIF}/known-findings.json")) if os.path.exists(f"{VERIF}/known-findings.json") else {"findings": []}
    listed = {(k["property"], k["assertion"]): k for k in kf["findings"]}
    seen = collections.Counter()
    for e, h, i in sorted(Vs, key=lambda v: (len(v[1]), v)):
        if seen[(e, i)] >= 3: continue
        seen[(e, i)] += 1
        st, o = native_verbose(exe, e, h)
        if st in (0, 66):
            unconfirmed.append((e, h, i, o))
        elif i.startswith("known ") and (pid, i[6:]) in listed:
            known.append((e, h, i[6:]))
        else:
            confirmed.append((e, h, i, st, o))
    for e, h, i in X:
        st, o = native_verbose(exe, e, h)
        if st not in (0, 66): confirmed.append((e, h, "on an input the engine could not follow: " + i, st, o))
    need = [x for x in c.get("covers", [])]
    missing = [x for x in need if not any(k.split(": ", 1)[1] == x for k in covers)]
    wall = time.time() - t0
    fn = sorted(x for x in F if "tailcall" in x)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
        "violations": len(confirmed),
        "coverage": {
            "states": S["paths"] + S["rejected"] + S["panics"] + S["errors"], "transitions": S["forks"], "traces_validated_against_impl": agree,
            "samples": [{"entry": e, "input_hex": h, "observed_hash": o} for e, h, o in sample[:: max(1, len(sample) // 12)][:12]],
            "what": "symbolic execution of the compiled LLVM IR of the functions below; a state is one symbolic path (all inputs that take it), a transition one split; each split and assertion is decided over all input values of the path",
            "bounds": c["bounds"], "entries": {e: dict(paths=per[e]["paths"], rejected=per[e]["rejected"], complete=e not in incomplete, decisions=per[e]["decisions"], asserts=per[e]["asserts"], assert_queries=per[e]["assert_queries"]) for e in entries},
            "exhaustive": not incomplete and not X, "executed_instructions": S["steps"],
            "assertions_checked": S["asserts"], "assertions_sent_to_solver": S["assert_queries"], "assertions_discharged_by_rewriting": S["asserts"] - S["assert_queries"],
            "solver": {"name": "Z3 4.8.12", "queries": S["z3_checks"], "sat": S["z3_sat"], "unsat": S["z3_unsat"], "unknown": S["z3_unknown"], "seconds": round(S["z3_us"] / 1e6, 2), "paths_cross_checked": S["audit_paths"], "splits_cross_checked": S["audit_splits"]},
            "functions_encoded": fn, "functions_encoded_total": len(F), "covers": dict(covers), "inconclusive_paths": len(X), "native_disagreements": len(bad), "build_seconds": round(tb, 1),
        },
        "assumptions": c.get("assumptions", []) + ["inputs outside the stated bounds are not covered", "rustc/LLVM up to optimised IR and the engine's IR semantics (cross-checked by native replay) are trusted"],
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {S['paths']} paths ({S['rejected']} rejected), {S['asserts']} assertions, {S['z3_checks']} solver queries ({S['z3_us']/1e6:.1f} s), {agree} paths replayed natively, build {tb:.0f} s, total {wall:.0f} s" + (f", INCOMPLETE: {', '.join(sorted(incomplete))}" if incomplete else ""))
    done = set()
    for e, h, a in known:
        if a in done: continue
        done.add(a)
        print(f"KNOWN-FINDING: property={pid} {listed[(pid, a)]['what']}")
    if confirmed:
        d = f"{VERIF}/build/replay"
        os.makedirs(d, exist_ok=True)
        rp = f"{d}/{pid}.json"
        json.dump([{"property": pid, "entry": e, "input_hex": h, "assertion": i, "native_status": st, "native_output": o, "replay_with": f"{exe} {e} {h}"} for e, h, i, st, o in confirmed[:20]], open(rp, "w"), indent=1)
        for e, h, i, st, o in confirmed[:6]:
            print(f"  {e} {h}: {i} (native status {st})")
            print("    " + "\n    ".join(o.splitlines()[:25]))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    bad_out = False
    for e, h, o, g in bad[:5]:
        print(f"check {pid}: the compiled program disagrees with the symbolic run: {e} {h} {o} {g}"); bad_out = True
    for e, h, i, o in unconfirmed[:5]:
        print(f"check {pid}: not reproduced natively: {e} {h} {i}"); bad_out = True
    for e, h, i in X[:5]:
        print(f"check {pid}: inconclusive path: {e} {h} {i}")
    if len(X) * 50 > S["paths"]: bad_out = True
    if missing and not incomplete:
        print(f"check {pid}: never reached: {missing}"); bad_out = True
    if S["paths"] == 0:
        print(f"check {pid}: no path completed"); bad_out = True
    return 2 if bad_out else 0

if __name__ == "__main__":
    sys.exit(main())
