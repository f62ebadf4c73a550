// P01, P03, P13, P14: whole sessions, scripts and command lines of one process.
#include <unistd.h>
#include "broad.h"
#include "files.h"
#include <algorithm>
#include <cstring>

static void worldFiles(const Scenario& s) { for (auto i : s.all("file")) sim::writeReal(i->s(0), i->s(1)); if (s.first("lib")) sim::library(); sim::mkdirReal("sub"); }
// fills the stack below the current frame: stale contents of reused stack memory
__attribute__((noinline)) static void fillStack(int v) { volatile char b[200000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v; asm volatile("" : : "r"(&b) : "memory"); }
static str outcomeLine(const fuel::Outcome& o) { return o.str() + (o.null ? "" : " " + o.canon); }
static const char* kInput = "alpha\nbeta 2\n\n(gamma)\n55\nlast line\n";

// ---- P01 ----------------------------------------------------------------------------------------------------------
// items: ev <session> <text> <kind 0 session 1 safe 2 command line 3 debugger 4 traced> [commands] | sw <task> <kind> <nth> <to> | rr <kind> <n> | file <name> <text>
// all sessions are busy with the same operation at the same time, each with arguments of its own
static str busy(Rng& r, const str& topic, int id, int turns) {
    str e = topic; size_t x = 0; while ((x = e.find('@', x)) != str::npos) { e.replace(x, 1, num(id * 111 + 5)); x++; }
    return "(def zk 0)\n(while (< zk " + num(turns) + ")\n (do (setf zk (+ zk 1))\n (println \"busy\" " + e + ")))\n";
}
static str topicOf(Rng& r) {
    static const strs v = {"(fuel)", "(format \"a{0}b{1}c{0}\" @ zk)", "(copyright)", "(replace \"x@y@\" \"@\" (str zk))", "(map (lambda (x) (+ x @ zk)) (list 1 2 3))", "(reduce (lambda (x y) (+ x y @)) (list 1 2 3) zk)",
        "(evalstr \"(+ 1 @ 2)\")", "(eval '(list @ zk \"s@\"))", "(upper-case (+ \"ab@\" (str zk)))", "(trim \"  t@ \")", "(split \"@\" \"a@b@c\")", "(slice \"abcdef@ghi\" zk 3)", "(search \"@\" \"abc@def\")", "(do (def zl (list @ 2)) (push zk zl) zl)",
        "(do (def zd (make-dict)) (dict-set zd zk \"v@\") (dict-get zd zk))", "`(@ ,zk ,@(list @ 1))", "(doc 'len)", "(searchdoc \"def\")", "(str (list @ zk \"x@\"))", "(parse-integer \"@\")", "(parse-float \"@.5\")", "(apply + (list @ zk))", "((lambda (x y) (list (args) (argscount) (arg 0) x y)) @ zk)",
        "(do (defn zf (a b) (list a @ b (args))) (zf zk 2))", "(reverse (list 1 @ zk))", "(cons @ (list zk))", "(append (list @) (list zk))", "(File-ReadAllText \"in.txt\")", "(typestr @)", "(do (define-macro-eval zm (a) (+ a @)) (zm zk))", "(string \"p@\" zk 1.5)", "(Math-Sqrt @)", "(nth 1 (list zk @ 3))",
        "(do (trace #t) (println \"t@\") (trace #f) (len (gettrace)))", "(eval (list '+ @ zk))", "(int \"@\")", "(float \"@.25\")", "(/ @ 4.0)", "(callstack)", "(do (vars) 1)", "(do (modules) 1)", "(do (macros) 1)"};
    return r.pick(v);
}
static Scenario genP01(Rng& r, bool thorough) {
    Scenario s;
    str topic = r.p(0.15) ? topicOf(r) : "";
    if (r.p(0.4)) s.items.push_back(Item("cfg", {"fill", num((long)r.below(256))}));
    int n = (int)r.range(2, thorough ? 4 : 3);
    s.items.push_back(Item("cfg", {"n", num(n)}));
    if (r.p(0.25)) s.items.push_back(Item("cfg", {"seq", "1"}));
    bool share = r.p(0.4); uint64_t seed = r.next();
    bool first = true;
    for (int i = 0; i < n; i++) {
        Rng q(share ? seed : r.next());
        Broad b(q); b.files = true; b.wIn = 0.4; b.wTime = 0; b.wWild = 0.7; b.wDoc = 0.01; b.all = r.p(0.3);
        if (first) { b.world(s); first = false; }
        else { Scenario dummy; b.world(dummy); b.lib = s.first("lib") && q.p(0.8); }
        b.clashFile(s, i);
        int k = (int)r.range(1, 3);
        for (int j = 0; j < k; j++) {
            str t = j == 0 || share ? b.program((int)r.range(1, 5), r.p(0.05), r.p(0.5) ? 0 : 0.05) : "";
            if (r.p(0.5)) { for (int m = (int)r.range(1, 5); m > 0; m--) t += b.clash(i) + "\n"; if (r.p(0.3)) { t.clear(); for (int m = (int)r.range(1, 5); m > 0; m--) t += b.clash(i) + "\n"; } }
            if (!topic.empty()) { if (j == 0 && r.p(0.8)) t.clear(); t += busy(r, r.p(0.85) ? topic : topicOf(r), i, (int)r.range(2, 8)); }
            if (t.empty()) for (int m = (int)r.range(1, 4); m > 0; m--) t += b.stmt(2) + "\n";
            // files of one session must not be those of another one
            size_t x = 0; while ((x = t.find("\"f", x)) != str::npos) { if (x + 7 < t.size() && t.compare(x + 3, 4, ".txt") == 0) { t.insert(x + 1, "s" + num(i)); x += 4; } else x += 2; }
            int kind = r.p(0.65) ? 0 : r.p(0.4) ? 1 : (int)r.range(2, 4);
            s.items.push_back(Item("ev", {num(i), t, num(kind)}));
            if (kind == 3) { static const strs c = {"s", "v", "o", "r", "k", "l", "list", "b 3", "b 2 (> i0 1)", "(+ i0 1)", "u", "d", "clear 1", "g", "(setf i0 5)"}; str cmds; for (int m = (int)r.range(1, 12); m > 0; m--) cmds += r.pick(c) + "\n"; s.items.back().a.push_back(cmds); }
        }
    }
    // failing allocations and files in single evaluations
    if (r.p(0.35)) { long ne = (long)s.all("ev").size(); for (int k = (int)r.range(1, 3); k > 0; k--) { double x = (double)r.below(100) / 100; static const strs oa = {"emfile", "eacces", "enoent"}; s.items.push_back(x < 0.7 ? Item("fault", {num((long)r.below(ne)), "alloc", "fail", num((long)(r.p(0.6) ? 1 + r.below(3000) : r.logu(20000))), "1"}) : x < 0.85 ? Item("fault", {num((long)r.below(ne)), "open", r.pick(oa), num(r.range(1, 4)), "0"}) : Item("fault", {num((long)r.below(ne)), "read", "eio", num(r.range(1, 4)), "0"})); } }
    int sw = (int)r.logu(40);
    double m = r.p(0.5) ? 400 : 4000;
    for (int i = 0; i < sw; i++) { long kind = r.p(0.4) ? sim::Y_CALL : r.p(0.9) ? sim::Y_ALLOC : sim::Y_IO; s.items.push_back(Item("sw", {num((long)r.below(n)), num(kind), num(1 + (long)r.below(kind == sim::Y_ALLOC ? (uint64_t)m * 10 : kind == sim::Y_CALL ? 40 : 20)), num((long)r.below(n))})); }
    if (!topic.empty()) s.items.push_back(Item("rr", {num((long)sim::Y_ALLOC), num((long)r.range(1, r.p(0.5) ? 5 : 60))}));
    else if (r.p(0.5)) s.items.push_back(Item("rr", {num((long)(r.p(0.5) ? sim::Y_CALL : sim::Y_ALLOC)), num((long)r.range(1, r.p(0.5) ? 10 : 500))}));
    return s;
}
static void sessionBody(const Scenario& s, int id, strs& log) {
    auto line = [&](const str& l) { log.push_back(l); };
    fuel::Session ses(kInput, true, true, true);
    size_t seen = 0; long index = -1;
    for (auto i : s.all("ev")) {
        index++;
        if (i->n(0) != id) continue;
        auto fl = faultsFor(s, index);
        if (i->n(2) == 1) {      // the safe entry point, a session of its own
            auto o = fuel::safeEval(C(), i->s(1), "mod" + num(id), false, false, kInput, fl);
            line("safe " + q(o.escaped ? o.escapedWhat : o.o.str()) + " " + q(o.output));
            continue;
        }
        if (i->n(2) == 2) {      // a command line
            str name = "cl" + num(id) + ".fuel"; sim::writeReal(name, i->s(1));
            auto o = fuel::mainRun(C(), {"-t", name}, kInput, fl);
            line("main " + q(o.escaped ? o.escapedWhat : "") + " " + q(o.output));
            continue;
        }
        if (i->n(2) == 3) {      // a program under a debugger of its own
            auto o = fuel::debugRun(C(), i->s(1), "mod" + num(id), i->s(3), fl);
            line("debug " + q(o.escaped ? o.escapedWhat : o.o.str()) + " " + q(o.output));
            continue;
        }
        auto o = ses.eval(C(), i->s(1), fl, "mod" + num(id), i->n(2) == 4);
        str out = ses.output();
        line("res " + q(outcomeLine(o)));
        line("out " + q(out.substr(std::min(seen, out.size())))); seen = out.size();
        str st; for (auto& kv : ses.state()) st += kv.first + "=" + kv.second + ";";
        for (auto& m : ses.modules()) st += " M:" + m; for (auto& m : ses.macros()) st += " X:" + m;
        line("state " + q(st) + " " + ses.flags());
    }
}
static Verdict runP01(const Scenario& s) {
    Verdict v;
    int n = (int)s.cfgn("n", 2); bool seq = s.cfgn("seq") != 0;
    if (n > 8) return v;
    std::vector<str> solo;
    for (int i = 0; i < n; i++) {
        Result a = child(configOf(s), [&] { worldFiles(s); strs log; { fuel::Session w("x", true, true, false); w.eval(C(), "(println (+ 1 2))"); } sessionBody(s, i, log); for (auto& l : log) sim::emit(l); });
        if (a.status != 0) { v.fail("solo-" + a.statusText().substr(0, 7), "session " + num(i) + " alone: " + a.statusText() + "\n" + cut(a.out)); return v; }
        solo.push_back(a.out);
    }
    sim::Schedule sc;
    for (auto i : s.all("sw")) sc.sw.push_back({(int)i->n(0), (int)i->n(1), (uint64_t)i->n(2), (int)i->n(3)});
    for (auto i : s.all("rr")) if (i->n(0) >= 0 && i->n(0) < sim::Y_N) sc.rr[i->n(0)] = (uint64_t)i->n(1);
    Config c = configOf(s); c.budget *= 2;
    Result b = child(c, [&] {
        worldFiles(s);
        { fuel::Session w("x", true, true, false); w.eval(C(), "(println (+ 1 2))"); }      // one-time initialisations of the process
        std::vector<strs> logs(n);
        std::vector<std::function<void(Ctx&)>> tasks;
        for (int i = 0; i < n; i++) tasks.push_back([&, i](Ctx&) { sessionBody(s, i, logs[i]); });
        if (seq) for (auto& t : tasks) t(C()); else sim::runTasks(tasks, sc);
        for (int i = 0; i < n; i++) { for (auto& l : logs[i]) sim::emit("T" + num(i) + " " + l); }
    });
    if (b.status != 0) { v.fail("run-" + b.statusText().substr(0, 7), "sessions together: " + b.statusText() + "\n" + cut(b.out)); return v; }
    for (int i = 0; i < n; i++) {
        str got; for (auto& l : field(b.out, "T" + num(i))) got += l + "\n";
        if (got != solo[i]) { v.fail("session", "session " + num(i) + " of " + num(n) + " does not behave as when it runs alone:\n" + unq(firstDiff(solo[i], got))); return v; }
    }
    v.nontrivial = seq || b.cnt.switches > 1;
    return v;
}
static Reg regP01({"P01", genP01, runP01, "the sessions were switched at least twice (or ran one after the other in one process)",
    "tokenizer, parser, interpreter, environment, modules, file builtins, safe entry point", "task scheduler (one thread runs at a time, handed over at calls, allocations, file operations and lock waits), console input as text"});

// ---- P03 ----------------------------------------------------------------------------------------------------------
// items: mode safe|main | prog <text> | opt <text> | file ... | input <text> | fault 0 <kind> <act> <nth> <v>
static Scenario genP03(Rng& r, bool thorough) {
    Scenario s;
    if (r.p(0.4)) s.items.push_back(Item("cfg", {"fill", num((long)r.below(256))}));
    if (r.p(0.2)) s.items.push_back(Item("cfg", {"rchunk", num((long)r.range(1, 200))}));
    Broad b(r); b.wWild = (double)r.below(4); b.wIo = 0.5 * (double)r.below(3); b.wTime = 0.05; b.wDoc = 0.02; b.all = true;
    b.world(s);
    bool main = r.p(0.35);
    s.items.push_back(Item("mode", {main ? "main" : "safe"}));
    double wErr = r.p(0.6) ? 0 : 0.04;
    s.items.push_back(Item("prog", {b.program((int)r.range(0, thorough ? 12 : 6), r.p(0.3), wErr)}));
    s.items.push_back(Item("input", {r.p(0.7) ? kInput : r.p(0.5) ? "x" : "\n\n"}));
    static const strs opts = {"-x", "-t", "-m", "--macro-expand"};
    for (auto& o : opts) if (r.p(0.2)) s.items.push_back(Item("opt", {o}));
    if (main && r.p(0.1)) { static const strs o = {"-v", "-h", "--doc", "--html", "-e", "-q", "-l=libdir", "nosuch.fuel", "sub"}; s.items.push_back(Item("opt", {r.pick(o)})); }
    if (main && r.p(0.35)) {      // an interactive loop or the debugger on the command line
        bool d = r.p(0.6); s.items.push_back(Item("opt", {d ? "-d" : "-i"}));
        static const strs c = {"s", "v", "o", "r", "k", "l", "g", "c", "list", "b 2", "b 4 (> i0 1)", "b 3 (nosuch)", "b main:3", "clear 1", "u", "d", "(+ i0 1)", "(nosuch 1)", "(def zx 5)", "help", "funcs", "macros", "modules", "version", "doc len", "searchdoc map", "restart", "(println (map (lambda (x) (+ x 1)) '(1 2 3)))"};
        str cmds; for (int k = (int)r.range(1, 14); k > 0; k--) { str x = r.p(d ? 0.2 : 0.6) ? b.stmt(1) : r.pick(c); for (char& ch : x) if (ch == '\n') ch = ' '; cmds += x + "\n"; }
        for (auto& i : s.items) if (i.kind == "input") i.a[0] = cmds;
    }
    int nf = r.p(0.2) ? 0 : (int)r.range(1, 3);
    bool alloc = false;
    for (int i = 0; i < nf; i++) {
        double x = (double)r.below(1000) / 1000;
        if (x < 0.6) { if (alloc) continue; alloc = true; s.items.push_back(Item("fault", {"0", "alloc", "fail", num((long)(r.p(0.5) ? 1 + r.below(8000) : r.p(0.5) ? 1 + r.below(60000) : r.logu(8000))), "1"})); }
        else if (x < 0.75) { static const strs a = {"emfile", "eacces", "enoent"}; s.items.push_back(Item("fault", {"0", "open", r.pick(a), num((long)r.range(1, 6)), "0"})); }
        else if (x < 0.82) s.items.push_back(Item("fault", {"0", "read", r.p(0.7) ? "eio" : "eintr", num((long)r.range(1, 6)), "0"}));
        else if (x < 0.9) { static const strs a = {"enospc", "eio", "short"}; s.items.push_back(Item("fault", {"0", "write", r.pick(a), num((long)r.range(1, 3)), "3"})); }
        else if (x < 0.93) s.items.push_back(Item("fault", {"0", "close", "eio", num((long)r.range(1, 5)), "0"}));
        else s.items.push_back(Item("fault", {"0", "cout", "fail", num((long)r.logu(100)), num(r.p(0.5) ? 0 : 2)}));
    }
    return s;
}
static Verdict runP03(const Scenario& s) {
    Verdict v;
    auto pi = s.first("prog"); if (!pi) return v;
    str prog = pi->s(0), mode = s.first("mode") ? s.first("mode")->s(0) : "safe", input = s.first("input") ? s.first("input")->s(0) : "x";
    strs opts; for (auto i : s.all("opt")) opts.push_back(i->s(0));
    auto has = [&](const str& o) { return std::find(opts.begin(), opts.end(), o) != opts.end(); };
    auto body = [&](const std::vector<Fault>& f) {
        worldFiles(s);
        sim::writeReal("prog.fuel", prog);
        { fuel::Session w("x", true, true, false); w.eval(C(), "(println (+ 1 2))"); }
        int fd = sim::openFdCount();
        fuel::Safe o;
        uint64_t before = sim::consoleOut().size();
        if (mode == "main") { strs a = opts; a.push_back(has("-e") ? "(println 1 2)" : "prog.fuel"); o = fuel::mainRun(C(), a, input, f); }
        else o = fuel::safeEval(C(), prog, "prog.fuel", has("-x"), has("-t"), input, f, has("--macro-expand"));
        sim::emit("escaped " + q(o.escaped ? o.escapedWhat : ""));
        sim::emit("null " + num(o.o.null)); sim::emit("error " + num(o.isError));
        sim::emit("text " + q(o.o.type + " " + o.o.text)); sim::emit("out " + q(o.output));
        sim::emit("console " + q(sim::consoleOut().substr(before)));
        sim::emit("fd " + num(sim::openFdCount() - fd));
        for (auto& kv : snapshotDir(".")) sim::emit("snap " + q(kv.first) + " " + q(kv.second));
        // the process goes on normally
        auto n = fuel::safeEval(C(), "(do (println \"after\") (defn af (x) (return (* x 3))) (def afl (list 1 2)) (push 5 afl) (println afl) (af (len afl)))", "after", false, false, "x", {});
        sim::emit("after " + q(n.escaped ? n.escapedWhat : n.o.str()) + " " + q(n.output));
        fuel::Session w("x", true, true, true); auto e = w.eval(C(), "(do (println \"x\") (zz-undefined 1))");
        sim::emit("after " + q(e.str()) + " " + q(w.output()));
    };
    auto fl = faultsFor(s, 0);
    // the same run without faults
    Result a = child(configOf(s), [&] { body({}); });
    auto judge = [&](Result& r, const str& what) {
        if (r.status != 0) { v.fail("run-" + r.statusText().substr(0, 7), what + ": " + r.statusText() + "\n" + cut(r.out)); return; }
        if (unq(one(r.out, "escaped")) != "") { v.fail("escape", what + ": " + unq(one(r.out, "escaped")) + " left the entry point"); return; }
        if (one(r.out, "null") != "0") { v.fail("null", what + ": no result object was returned"); return; }
        if (one(r.out, "fd") != "0") { v.fail("descriptor", what + ": " + one(r.out, "fd") + " descriptor(s) left open"); return; }
        if (mode == "safe" && one(r.out, "error") == "1") {
            str out = unq(one(r.out, "out"));
            if (out.find("Error executing script.") == str::npos) { v.fail("report", what + ": an error value was returned but the error is not reported in the output:\n" + cut(out)); return; }
        }
        auto af = field(r.out, "after");
        if (af.size() != 2 || af[0] != "ok%20Int%209 after%0A(5%201%202)%0A" || unq(af[1]).find("error Function \"zz-undefined\"") != 0) { v.fail("after", what + ": the following evaluation gave " + unq(joined(af, " | "))); return; }
    };
    judge(a, "without faults");
    if (!v.ok) return v;
    if (fl.empty()) { v.nontrivial = one(a.out, "error") == "1"; return v; }
    Result b = child(configOf(s), [&] { body(fl); });
    judge(b, "with faults");
    if (!v.ok) return v;
    auto firedOf = [&](const char* k, const char* x) { return b.fired[sim::faultKindIndex(k, x)] - a.fired[sim::faultKindIndex(k, x)]; };
    uint64_t any = 0; for (auto& f : fl) any += firedOf(f.kind.c_str(), f.act.c_str());
    bool same = one(a.out, "text") == one(b.out, "text") && one(a.out, "out") == one(b.out, "out") && field(a.out, "snap") == field(b.out, "snap");
    uint64_t oom = firedOf("alloc", "fail"), cout = firedOf("cout", "fail"), files = any - oom - cout;
    if (!any && !same) v.fail("unfaulted", "no fault fired but the run differs\n" + firstDiff(a.out, b.out));
    if (any && any == cout && !same) v.fail("console", "only the console failed, but output, result or files differ\n" + unq(firstDiff(a.out, b.out)));
    if (oom && !files && !same) {
        bool reported = mode == "safe" ? one(b.out, "error") == "1" : unq(one(b.out, "out")).find("rror") != str::npos || ((has("-d") || has("-i")) && unq(one(b.out, "out")).find("Native Exception") != str::npos);
        bool io = prog.find("File-") != str::npos || prog.find("import") != str::npos;       // failed file operations report in their own way
        if (!reported && !io) v.fail("lost-error", "an allocation failed and the run differs from the one without failure, but no error is reported\n" + unq(firstDiff(a.out, b.out)));
    }
    v.nontrivial = any > 0;
    return v;
}
static Reg regP03({"P03", genP03, runP03, "a fault fired, or the script failed without one",
    "command line runner, safe entry point, tokenizer, parser, interpreter, environment, modules, file builtins", "allocator, file errors and chunking, console, clock"});

// ---- P13 ----------------------------------------------------------------------------------------------------------
// items: mode safe|main|debug|shell|session | prog <text> | cmd <line> | prior <text> | vary <fill> <stack> <pad> <prior 0/1>
static Scenario genP13(Rng& r, bool thorough) {
    Scenario s;
    Broad b(r); b.wWild = (double)r.below(4); b.wIo = 0.3 * (double)r.below(3); b.wTime = 0.1; b.wDoc = 0.04; b.all = r.p(0.5);
    b.world(s);
    static const strs modes = {"safe", "main", "debug", "shell", "session", "session", "safe"};
    str mode = r.pick(modes);
    s.items.push_back(Item("mode", {mode}));
    s.items.push_back(Item("prog", {b.program((int)r.range(0, 6), r.p(0.3), r.p(0.5) ? 0 : 0.05)}));
    static const strs opts = {"-x", "-t", "-m", "--macro-expand"};
    for (auto& o : opts) if (r.p(0.2)) s.items.push_back(Item("opt", {o}));
    if (mode == "debug" || mode == "shell") {
        int n = (int)r.range(1, 15);
        static const strs c = {"s", "v", "o", "r", "k", "l", "g", "c", "list", "b 2", "b 4 (> i0 1)", "b main:3", "clear 1", "u", "d", "(+ i0 1)", "(nosuch 1)", "(def zx 5)", "help", "funcs", "macros", "modules", "t", "version", "x", "b", "clear", "y", "n"};
        for (int i = 0; i < n; i++) s.items.push_back(Item("cmd", {mode == "shell" && r.p(0.5) ? b.stmt(1) : r.pick(c)}));
        for (auto& i : s.items) if (i.kind == "cmd") for (char& ch : i.a[0]) if (ch == '\n') ch = ' ';
    }
    int np = (int)r.below(3);
    for (int i = 0; i < np; i++) { Broad c(r); c.wWild = 1; Scenario d; c.world(d); c.files = false; c.lib = c.lib && s.first("lib"); s.items.push_back(Item("prior", {c.program((int)r.range(1, 3), r.p(0.4), 0.1)})); }
    if (r.p(0.5)) s.items.push_back(Item("older", {num((long)r.below(512))}));
    int k = (int)r.range(1, thorough ? 4 : 2);
    for (int i = 0; i < k; i++) s.items.push_back(Item("vary", {num((long)(r.p(0.3) ? 0 : r.p(0.4) ? 255 : r.below(256))), num((long)(r.p(0.3) ? 0 : r.below(256))), num(r.p(0.5) ? 0 : r.range(1, 5000)), num(r.p(0.6) ? 1 : 0)}));
    return s;
}
static Verdict runP13(const Scenario& s) {
    Verdict v;
    auto pi = s.first("prog"); if (!pi) return v;
    str prog = pi->s(0), mode = s.first("mode") ? s.first("mode")->s(0) : "safe", cmds;
    strs opts; for (auto i : s.all("opt")) opts.push_back(i->s(0));
    for (auto i : s.all("cmd")) cmds += i->s(0) + "\n";
    auto has = [&](const str& o) { return std::find(opts.begin(), opts.end(), o) != opts.end(); };
    auto body = [&](int stack, bool prior) {
        if (prior && s.first("older")) {      // an earlier evaluation of the process saw other files
            strs names = {"f0.txt", "f1.txt", "f2.txt", "nowhere", "nowhere.fuel", "in.txt", "m0.fuel", "m1.fuel", "prog.fuel"};
            strs present; for (size_t i = 0; i < names.size(); i++) if (s.first("older")->n(0) >> i & 1) { present.push_back(names[i]); bool mod = i > 2 && i != 5; sim::writeReal(names[i], mod ? "(println \"older module\")\n(def mv0 999) (def mv1 998)\n(defn mf0 (x) (return -1))\n(defn mf1 (x) (return -2))\n" : "older text of " + names[i] + "\n"); }
            str p; for (auto& n : names) p += "(println (File-Exists " + lispStr(n) + ") (len (File-ReadAllText " + lispStr(n) + ")))\n";
            for (auto& n : present) if (n.find(".txt") == str::npos) p += "(import " + lispStr(n) + ")\n";
            auto o = fuel::safeEval(C(), p, "prior", false, false, kInput, {}); (void)o;
            sim::Guard g; for (auto& n : present) unlink(n.c_str());
        }
        worldFiles(s); sim::writeReal("prog.fuel", prog);
        if (prior) for (auto i : s.all("prior")) { auto o = fuel::safeEval(C(), i->s(0), "prior", false, false, kInput, {}); (void)o; }
        sim::simWall = sim::cfg.wall0; sim::simMono = sim::cfg.mono0;
        fillStack(stack);
        fuel::Safe o; str res, state;
        if (mode == "session") {
            fuel::Session ses(kInput, true, true, true);
            auto r = ses.eval(C(), prog, {}, "prog", has("-t"));
            res = outcomeLine(r); o.output = ses.output();
            for (auto& kv : ses.vars()) state += kv.first + "=" + kv.second + ";";
            state += ses.flags();
        }
        else {
            if (mode == "main") { strs a = opts; a.push_back("prog.fuel"); o = fuel::mainRun(C(), a, kInput, {}); }
            else if (mode == "debug") o = fuel::debugRun(C(), prog, "main", cmds.empty() ? "r\n" : cmds, {}, has("-t"));
            else if (mode == "shell") o = fuel::shellRun(C(), cmds.empty() ? "help\n" : cmds, {}, false, has("-t"));
            else o = fuel::safeEval(C(), prog, "prog.fuel", has("-x"), has("-t"), kInput, {}, has("--macro-expand"));
            res = (o.escaped ? "escaped " + o.escapedWhat : o.o.str());
        }
        sim::emit("res " + q(res)); sim::emit("out " + q(o.output)); sim::emit("state " + q(state));
        for (auto& kv : snapshotDir(".")) sim::emit("snap " + q(kv.first) + " " + q(kv.second));
    };
    Config c0 = configOf(s); c0.fill = 0; c0.pad = 0;
    Result a = child(c0, [&] { body(0, false); });
    if (a.status == 1 || a.status == 2) { v.fail("base-" + a.statusText().substr(0, 7), a.statusText() + "\n" + cut(a.out)); return v; }
    for (auto i : s.all("vary")) {
        Config c = c0; c.fill = (int)i->n(0) & 255; c.pad = i->n(2);
        Result b = child(c, [&] { body((int)i->n(1), i->n(3) != 0); });
        if (b.status != a.status) { v.fail("run-" + b.statusText().substr(0, 7), "with memory filled with " + i->s(0) + ", stack " + i->s(1) + ", placement " + i->s(2) + ", prior history " + i->s(3) + ": " + b.statusText() + ", otherwise " + a.statusText() + "\n" + cut(b.out)); return v; }
        if (a.out != b.out) { v.fail(i->n(3) ? "history" : "memory", "with memory filled with " + i->s(0) + ", stack " + i->s(1) + ", placement " + i->s(2) + ", prior history " + i->s(3) + " the run differs:\n" + unq(firstDiff(a.out, b.out))); return v; }
    }
    v.nontrivial = true;
    return v;
}
static Reg regP13({"P13", genP13, runP13, "the program ran at least twice, with different contents and placement of memory or another history of the process",
    "command line runner, safe entry point, debugger, shell, tokenizer, parser, interpreter, environment, modules, file builtins", "contents of fresh heap memory and stack, placement of allocations, clock, history of the process"});

// ---- P14 ----------------------------------------------------------------------------------------------------------
// items: script <name> <kind ok|missing|dir> <text> | opt <text> | fault <script> open|read <act> <nth> 0 | alloc <nth>
static Scenario genP14(Rng& r, bool thorough) {
    Scenario s;
    if (r.p(0.3)) s.items.push_back(Item("cfg", {"fill", num((long)r.below(256))}));
    if (r.p(0.2)) s.items.push_back(Item("cfg", {"rchunk", num((long)r.range(1, 200))}));
    int n = (int)r.range(2, thorough ? 7 : 4);
    { Broad b(r); b.world(s); }
    std::vector<Item> late;
    for (int i = 0; i < n; i++) {
        Broad b(r); b.wWild = 0.5; b.wIo = 0; b.wIn = 0; b.wTime = 0.05; b.wDoc = 0.01; b.files = false;
        Scenario d; b.world(d); b.lib = s.first("lib") && r.p(0.7);
        double x = (double)r.below(100) / 100;
        if (i && r.p(0.12)) { auto have = s.all("script"); Item again = r.p(0.7) ? *have.back() : *have[r.below(have.size())]; s.items.push_back(again); continue; }      // the same script once more
        str name = "s" + num(i) + (r.p(0.8) ? ".fuel" : "");
        if (x < 0.1) { s.items.push_back(Item("script", {"nosuch" + num(i) + ".fuel", "missing", ""})); continue; }
        if (x < 0.18) { s.items.push_back(Item("script", {"dir" + num(i), "dir", ""})); continue; }
        str t = b.program((int)r.range(0, 4), r.p(0.15), r.p(0.5) ? 0 : 0.08);
        if (r.p(0.5)) t += "(import \"m" + num((long)r.below(2)) + ".fuel\")\n";
        if (r.p(0.3)) t += "(trace #t)\n(println \"traced\" i0)\n(println (gettrace))\n";
        if (r.p(0.2)) t += "(println shared" + num((long)r.below(2)) + ")\n"; else if (r.p(0.4)) t += "(gdef shared" + num((long)r.below(2)) + " 5)\n(println shared0 shared1)\n";
        s.items.push_back(Item("script", {name, "ok", t}));
        if (r.p(0.25)) { static const strs a = {"emfile", "eacces", "enoent"}; double y = (double)r.below(100) / 100; if (y < 0.6) late.push_back(Item("fault", {num(i), "open", r.pick(a), num((long)r.range(1, 3)), "0"})); else late.push_back(Item("fault", {num(i), "read", "eio", num((long)r.range(1, 3)), "0"})); }
    }
    for (auto& i : late) s.items.push_back(i);
    static const strs opts = {"-x", "-m", "-t"};
    for (auto& o : opts) if (r.p(0.25)) s.items.push_back(Item("opt", {o}));
    if (r.p(0.3)) s.items.push_back(Item("alloc", {num((long)(1 + r.below(r.p(0.5) ? 20000 : 100000)))}));
    return s;
}
static Verdict runP14(const Scenario& s) {
    Verdict v;
    strs opts; for (auto i : s.all("opt")) opts.push_back(i->s(0));
    auto scripts = s.all("script");
    if (scripts.empty()) return v;
    auto prepare = [&] { worldFiles(s); for (auto i : scripts) { if (i->s(1) == "ok") sim::writeReal(i->s(0), i->s(2)); else if (i->s(1) == "dir") sim::mkdirReal(i->s(0)); } };
    struct Solo { str out; uint64_t opens, reads; };
    std::vector<Solo> solo;
    auto runLine = [&](const strs& names, const std::vector<Fault>& f) {
        prepare();
        strs a = opts; a.insert(a.end(), names.begin(), names.end());
        auto o = fuel::mainRun(C(), a, "some input\n", f);
        sim::emit("escaped " + q(o.escaped ? o.escapedWhat : "")); sim::emit("opens " + num((long long)C().cnt[sim::CK_OPEN])); sim::emit("reads " + num((long long)C().cnt[sim::CK_READ]));
        sim::emit("out " + q(o.output));
    };
    // the output of a run: reports of the whole command line (-t, -m) come at its end
    auto strip = [&](str o) {
        for (const char* k : {"Execution time = ", "Result="}) {
            bool on = std::find(opts.begin(), opts.end(), str(k[0] == 'E' ? "-m" : "-t")) != opts.end();
            if (!on) continue;
            size_t p = o.rfind(k); if (p == str::npos) continue;
            if (k[0] == 'E') { size_t e = o.find('\n', p); o.erase(p, e == str::npos ? str::npos : e + 1 - p); } else o.resize(p);
        }
        return o;
    };
    std::vector<Fault> all; uint64_t opens = 0, reads = 0;
    for (size_t i = 0; i < scripts.size(); i++) {
        auto f = faultsFor(s, (long)i);
        Result a = child(configOf(s), [&] { runLine({scripts[i]->s(0)}, f); });
        if (a.status != 0) { v.fail("solo-" + a.statusText().substr(0, 7), a.statusText() + "\n" + cut(a.out)); return v; }
        solo.push_back({strip(unq(one(a.out, "out"))), strtoull(one(a.out, "opens").c_str(), 0, 10), strtoull(one(a.out, "reads").c_str(), 0, 10)});
        for (auto& x : f) { Fault y = x; if (y.nth > (y.kind == "open" ? solo[i].opens : solo[i].reads)) continue; y.nth += y.kind == "open" ? opens : reads; all.push_back(y); }
        opens += solo[i].opens; reads += solo[i].reads;
    }
    strs names; for (auto i : scripts) names.push_back(i->s(0));
    Result b = child(configOf(s), [&] { runLine(names, all); });
    if (b.status != 0) { v.fail("run-" + b.statusText().substr(0, 7), b.statusText() + "\n" + cut(b.out)); return v; }
    if (unq(one(b.out, "escaped")) != "") { v.fail("escape", unq(one(b.out, "escaped"))); return v; }
    str out = strip(unq(one(b.out, "out"))), want; for (auto& x : solo) want += x.out;
    if (out != want) {
        size_t p = 0; for (size_t i = 0; i < solo.size(); i++) { if (out.compare(p, solo[i].out.size(), solo[i].out) != 0) { v.fail("output", "the output of script " + num((long)i + 1) + " (" + names[i] + ") is not the one it produces as the only script:\n" + firstDiff(solo[i].out, out.substr(std::min(p, out.size())))); return v; } p += solo[i].out.size(); }
        v.fail("output", "output after the last script: " + cut(out.substr(std::min(p, out.size())))); return v;
    }
    for (size_t i = 0; i < scripts.size(); i++) {
        // a script that can not be read has to be reported at its place, a missing one is empty
        bool unread = scripts[i]->s(1) == "dir";
        if (unread && solo[i].out.find("rror") == str::npos) { v.fail("unreported", "script " + names[i] + " can not be read but no error is reported: [" + cut(solo[i].out) + "]"); return v; }
    }
    if (auto ai = s.first("alloc")) {
        // memory is exhausted for a moment: only the script that runs at that time may behave differently
        auto f = all; Fault x; x.kind = "alloc"; x.act = "fail"; x.nth = (uint64_t)ai->n(0); x.v = 1; f.push_back(x);
        Result c = child(configOf(s), [&] { runLine(names, f); });
        if (c.status != 0) { v.fail("run-" + c.statusText().substr(0, 7), c.statusText() + "\n" + cut(c.out)); return v; }
        str o = strip(unq(one(c.out, "out")));
        if (c.fired[sim::faultKindIndex("alloc", "fail")] && o != want && all.empty()) {
            size_t pre = 0, i = 0; for (; i < solo.size() && o.compare(pre, solo[i].out.size(), solo[i].out) == 0; i++) pre += solo[i].out.size();
            size_t suf = 0, k = solo.size(); for (; k > i + 1 && o.size() >= suf + solo[k - 1].out.size() && o.compare(o.size() - suf - solo[k - 1].out.size(), solo[k - 1].out.size(), solo[k - 1].out) == 0; k--) suf += solo[k - 1].out.size();
            // an empty output matches everywhere: allow any single script to be the hit one
            bool ok = false;
            for (size_t h = 0; h < solo.size() && !ok; h++) { str p1, p2; for (size_t j = 0; j < h; j++) p1 += solo[j].out; for (size_t j = h + 1; j < solo.size(); j++) p2 += solo[j].out; ok = o.size() >= p1.size() + p2.size() && startsWith(o, p1) && endsWith(o, p2); }
            bool before = o.find("native exception") != str::npos && startsWith(o, "Error");     // failed before any script was started
            if (!ok && !before) { v.fail("alloc", "after one failed allocation more than one script behaves differently\n" + firstDiff(want, o) + "\n--- alone:\n" + cut(want) + "\n--- failing:\n" + cut(o)); return v; }
        }
    }
    v.nontrivial = scripts.size() > 1;
    return v;
}
static Reg regP14({"P14", genP14, runP14, "at least two scripts were given on one command line",
    "command line runner, safe entry point, tokenizer, parser, interpreter, environment, modules", "file errors, allocator, clock, console input"});
