#!/usr/bin/env python3
"""Determinism of the simulator: every property's first scenarios are run twice in different processes, with a different
environment size and load; the hashes over all events of the runs have to be equal."""
import os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

n = sys.argv[1] if len(sys.argv) > 1 else "200"
subprocess.check_call(["python3", os.path.join(V, "check.py"), "--build"])
exe = max((os.path.join(V, "build", d, "simfuel") for d in os.listdir(os.path.join(V, "build")) if os.path.exists(os.path.join(V, "build", d, "simfuel"))), key=os.path.getmtime)
bad = 0
for i in range(1, 16):
    p = "P%02d" % i
    run = lambda env: subprocess.Popen([exe, "hashes", p, "77", "0", n], stdout=subprocess.PIPE, env=dict(os.environ, **env))
    a, b, c = run({}), run({"SELFTEST_PADDING": "x" * 3000}), run({"LC_ALL": "C", "HOME": "/"})
    x, y, z = a.communicate()[0], b.communicate()[0], c.communicate()[0]
    ok = x == y == z and x
    print(p, "deterministic" if ok else "NOT DETERMINISTIC", x.count(b"\n"), "scenarios,", len(set(l.split()[1] for l in x.decode().splitlines())), "distinct runs", flush=True)
    bad += not ok
sys.exit(1 if bad else 0)
