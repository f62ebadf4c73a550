#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decides one property by seeded simulation of the code in /repo
   check.py --build                      builds the simulator only
   check.py --replay <file>              replays one scenario"""
import glob, hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
# scenarios per quick run (about 40 s on 8 idle cores), the time cap is only a safety net for slow machines
COUNT = json.load(open(os.path.join(V, "counts.json")))


def sources():
    fs = []
    for d in ("CppLispInterpreter", "CppLispDebugger"):
        for e in ("*.cpp", "*.h"):
            fs += glob.glob(os.path.join(REPO, "CppLisp", d, e))
    fs += glob.glob(os.path.join(V, "sim", "*")) + [os.path.join(V, "Makefile")]
    return sorted(fs)


def build():
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    b = os.path.join(V, "build", h.hexdigest()[:16])
    exe = os.path.join(b, "simfuel")
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(V, "build", "*")):
            if old != b and os.path.isdir(old) and time.time() - os.path.getmtime(old) > 3600:
                shutil.rmtree(old, ignore_errors=True)
        r = subprocess.run(["make", "-s", "-j8", "REPO=" + REPO, "B=" + b], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(exe):
            sys.stdout.write(r.stdout.decode("utf8", "replace")[-6000:])
            print("build of the simulator failed")
            sys.exit(2)
    return exe


def replay(exe, path):
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    d = {}
    text = r.stdout.decode("latin1")
    for k in ("verdict", "class", "hash"):
        for l in text.split("\n"):
            if l.startswith(k + " "):
                d[k] = l[len(k) + 1:]
                break
    d["text"] = text
    return d


def report(prop, exe, src, detail):
    """gate: the minimised scenario must fail identically in two fresh processes"""
    a, b = replay(exe, src), replay(exe, src)
    if a.get("verdict") != "VIOLATED" or a.get("hash") != b.get("hash") or a.get("class") != b.get("class"):
        print("replay of %s is not reproducible:\n%s\n%s" % (src, a.get("text"), b.get("text")))
        return None
    out = os.path.join(V, "out")
    os.makedirs(out, exist_ok=True)
    dst = os.path.join(out, "%s-%s.sim" % (prop, hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]))
    shutil.copy(src, dst)
    print("class: %s\n%s" % (a["class"], detail))
    print("VIOLATION property=%s replay=%s" % (prop, dst))
    return dst


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    exe = build()
    if sys.argv[1] == "--build":
        return 0
    if sys.argv[1] == "--replay":
        d = replay(exe, sys.argv[2])
        print(d["text"])
        return 1 if d.get("verdict") == "VIOLATED" else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    t0 = time.time()
    work = os.path.join(V, "build", "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rc = 0
    violation = None
    try:
        # scenarios kept from genuine defects run first
        kept = sorted(glob.glob(os.path.join(V, "regress", prop, "*.sim")))
        for f in kept:
            d = replay(exe, f)
            if d.get("verdict") == "VIOLATED":
                violation = report(prop, exe, f, d["text"])
                rc = 1 if violation else 2
                break
            if d.get("verdict") != "held":
                print("cannot replay " + f)
                rc = 2
        # open findings: exactly these scenarios with exactly this kind of violation
        open_findings = []
        for l in open(os.path.join(V, "known_findings.txt")):
            if rc == 0 and l.startswith("finding: property=%s " % prop):
                _, _, name, kind, what = l.strip().split(" ", 4)
                f = os.path.join(V, name[len("replay="):])
                d = replay(exe, f)
                if d.get("verdict") == "VIOLATED" and d.get("class", "").startswith(kind[len("class="):]):
                    print("KNOWN-FINDING: property=%s %s" % (prop, what))
                    open_findings.append(name[len("replay="):])
                elif d.get("verdict") == "VIOLATED":
                    violation = report(prop, exe, f, d["text"])
                    rc = 1 if violation else 2
                elif d.get("verdict") != "held":
                    print("cannot replay " + f)
                    rc = 2
        nw = 8
        ws = []
        count = COUNT[prop] * (20 if thorough else 1)
        secs = float(os.environ.get("SIM_SECONDS", "900" if thorough else "200"))
        if rc == 0:
            base = seed * 1000003 + (500000 if thorough else 0)
            procs = [subprocess.Popen([exe, "batch", prop, str(base), str(w), str(nw), str(count), str(secs), work, "1" if thorough else "0"], stderr=open(os.path.join(work, "err%d" % w), "wb")) for w in range(nw)]
            codes = [p.wait() for p in procs]
            for w in range(nw):
                f = os.path.join(work, "w%d.json" % w)
                if os.path.exists(f):
                    ws.append(json.load(open(f)))
            found = [w["violation"] for w in ws if w["violation"]]
            for x in sorted(found, key=lambda x: os.path.getsize(x["file"])):
                violation = report(prop, exe, x["file"], x["detail"])
                if violation:
                    rc = 1
                    break
            if not violation and (found or any(c not in (0, 1) for c in codes)):
                for w in range(nw):
                    sys.stdout.write(open(os.path.join(work, "err%d" % w), "rb").read().decode("latin1")[-1500:])
                print("the simulator failed: exit codes %s" % codes)
                rc = 2
        hist, inter = set(), set()
        for f in glob.glob(os.path.join(work, "*.sets")):
            for l in open(f):
                (hist if l[0] == "h" else inter).add(l[1:17])
        wall = time.time() - t0
        tot = lambda k: sum(w[k] for w in ws)
        merge = lambda k: {x: sum(w[k].get(x, 0) for w in ws) for x in sorted(set(sum([list(w[k]) for w in ws], [])))}
        search = max([w["wall"] for w in ws] or [0.001])
        ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
              "coverage": {
                  "evaluations": tot("scenarios"),
                  "distinct_nontrivial": len(hist),
                  "rule": (ws[0]["rule"] if ws else "none run") + "; distinct = different event history (hash over every scheduling decision, system call, fault and result of the run)",
                  "samples": sum([w["samples"] for w in ws], [])[:6],
                  "simulated_runs": tot("children"),
                  "nontrivial_scenarios": tot("nontrivial"),
                  "seeds_per_hour": int(tot("scenarios") / search * 3600),
                  "runs_per_hour": int(tot("children") / search * 3600),
                  "simulated_seconds": round(tot("simulated_s"), 3),
                  "simulated_process_deaths": tot("deaths"),
                  "faults_fired": merge("faults") if ws else {},
                  "steps": merge("steps") if ws else {},
                  "yield_points": tot("yields"), "task_switches": tot("switches"),
                  "distinct_interleavings": len(inter),
                  "real_code": ws[0]["real"] if ws else "", "simulated": ws[0]["stub"] if ws else "",
                  "kept_scenarios_replayed": len(kept),
                  "open_findings": open_findings,
                  "violation": violation}}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        if rc == 0:
            print("%s held: %d scenarios, %d runs, %d distinct non-trivial histories, %.1f s" % (prop, tot("scenarios"), tot("children"), len(hist), wall))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


sys.exit(main())
