#!/usr/bin/env python3
# Writes MANIFEST.json from the list of properties and the checks that exist.
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
count = json.load(open(os.path.join(V, "counts.json")))
T = {
 "P01": ("simulated threads: seeded schedules over sessions, compared with solo runs", "Seeded exploration of interleavings at every call, allocation, file and console operation; every result, output, error and state compared with the run of the session alone."),
 "P02": ("fault injection into session histories, checked against a sequential reference model", "Seeded histories with failing allocations and debugger stops at chosen points; state, output and results explained by the model cut at some completed effect, plus a probe battery compared with a fresh session."),
 "P03": ("fault injection (allocation, file, console) into the safe entry points", "Seeded programs, also malformed ones, with faults at every kind of operation; no escape, crash, hang, leak or lost error."),
 "P04": ("simulated disk: error, short, torn, lost write and process death injection", "Seeded write histories; the real file system contents judged after every operation and after simulated process death."),
 "P05": ("simulated file input: chunking, interruption and error injection", "Seeded read histories with exact content oracle."),
 "P06": ("fault injection into module imports, checked against the search order and all-or-nothing model", "Seeded directory layouts, faults and retries."),
 "P07": ("simulated debugger user: seeded command sequences, compared with the undisturbed program", "Seeded programs and command sequences; output, file operations and result compared with the run without debugger."),
 "P08": ("simulated debugger user, checked against a reference debugger over the recorded call trace", "Every stop of a seeded command sequence predicted by a small model from the trace of calls."),
 "P09": ("simulated console: chunked, ending input for the interactive loops", "Seeded command streams cut at any byte; bounded steps and exactly-once processing."),
 "P10": ("simulated clocks: jumps, interrupted sleeps, time zones", "Seeded clock behaviour against exact elapsed time and calendar oracles."),
 "P11": ("simulated console: chunked input, failing and stalling output", "Seeded print/read programs, byte-exact delivery."),
 "P12": ("seeded operation histories with failing allocations against a sequential reference model", "Every variable after every evaluation compared with the model."),
 "P13": ("same scenario under different memory contents, placement and process history", "Transcripts of all variants have to be identical."),
 "P14": ("simulated command lines with faulty scripts, compared with single-script runs", "Output of every script compared with its solo run, with missing, failing and unreadable scripts between."),
 "P15": ("fault injection into nested evaluations, checked against a scoped reference model", "Nested evaluations of all kinds cut short at chosen points; variables, module, output and error position compared with the model."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "N01": "pure function of the program text: no schedule, clock, I/O or fault in it",
 "N02": "pure function of the operands: nothing to schedule or to inject",
 "N03": "pure function of its arguments: nothing to schedule or to inject",
 "N04": "pure program transformation: no schedule, clock, I/O or fault in it",
 "N05": "pure function of the program: no schedule, clock, I/O or fault in it (the reference model of P12/P15 uses the forms, but does not decide them for every operand list)",
 "N06": "pure function of the value: nothing to schedule or to inject",
 "N07": "static text listing: nothing to schedule or to inject",
 "N08": "compares implementations in C# and Haxe that can not be built here; a differential test over inputs, not a simulation",
 "N09": "the compiler exists in C# only, for which there is no toolchain here; pure function of the program",
 "N10": "library code written in the language itself: pure functions of their arguments",
}
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in count:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "deterministic simulation: " + T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
