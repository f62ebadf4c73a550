// P02: a session in which side effect free (or always failing) evaluations are cut short at arbitrary points, against
// the same session without them. Covers the whole language: nothing here needs the reference model.
#include "check.h"
#include "broad.h"
#include "session.h"
#include <algorithm>
#include <cstring>

// items: file <name> <text> | setup <code> | step <code> <effect 0/1> | fault <step> kind act nth v | probe <code>
namespace {
struct Gen {
    Rng& r; Broad b;
    explicit Gen(Rng& r) : r(r), b(r) { b.all = true; }
    str lit() { return num((long)r.below(9)); }
    str nm() { static const strs v = {"pf0", "pfe", "prec", "pdoc", "pclos", "len", "mf0", "map", "mac0", "import", "zz-nothing", "ef", "def"}; return r.pick(v); }
    str ex(int d) {     // an expression without effects on the session
        switch (r.below(d <= 0 ? 6 : 18)) {
            case 0: return b.scalar();
            case 1: { static const strs v = {"i0", "i1", "s0", "l0", "l1", "d0", "e0", "n0", "pf0", "nosuchvariable"}; return r.pick(v); }
            case 2: return "(list " + lit() + " \"x\" l1)";
            case 3: return "(+ i0 " + lit() + ")";
            case 4: return "(nth " + num((long)r.below(4)) + " l0)";
            case 5: return "(str s0 " + lit() + ")";
            case 6: return "(pf0 " + ex(d - 1) + " " + lit() + ")";
            case 7: return "(prec " + num((long)r.below(12)) + ")";
            case 8: return "(map (lambda (x) (do (def q x) (setf q (+ q 1)) (println \"q\" q) (return q))) " + str(r.p(0.8) ? "(list 1 2 " + lit() + ")" : ex(d - 1)) + ")";
            case 9: return "(reduce (lambda (x y) (+ x y)) (list 1 2 " + lit() + ") " + ex(d - 1) + ")";
            case 10: return "(evalstr " + lispStr(ex(d - 1)) + ")";
            case 11: return "(eval (quote " + ex(d - 1) + "))";
            case 12: return "(apply pf0 (list " + lit() + " " + ex(d - 1) + "))";
            case 13: return "(if " + ex(d - 1) + " " + ex(d - 1) + " " + ex(d - 1) + ")";
            case 14: return "(do " + ex(d - 1) + " (return " + ex(d - 1) + ") " + ex(d - 1) + ")";
            case 15: return "(pmac " + ex(d - 1) + ")";
            case 16: return "(pfe " + lit() + ")";
            default: { str c; for (int i = 0; i < 20; i++) { c = b.wildCall(d); if (harmless(c)) return c; } return "(pclos 2)"; }
        }
    }
    static bool harmless(const str& c) {
        static const strs bad = {"def", "setf", "push", "pop", "dict-set", "dict-remove", "dict-clear", "delvar", "trace", "import", "readline", "define", "tickcount", "date-time", "Write", "sleep", "zl", "htmldoc"};
        for (auto& x : bad) if (c.find(x) != str::npos) return false;
        return true;
    }
    str pure() {
        switch (r.below(22)) {
            case 0: return "(println (len (doc \"" + nm() + "\")))";
            case 1: return "(doc '" + nm() + " \"" + nm() + "\")";
            case 2: return "(searchdoc \"" + str(r.p(0.5) ? "dict" : "pf") + "\")";
            case 3: return "(" + str(r.p(0.5) ? "help" : r.p(0.5) ? "vars" : "doc") + ")";
            case 4: return "(htmldoc)";
            case 5: return "(do (println \"a\") (macros) (modules) (callstack) (break))";
            case 6: { static const strs v = {"(define-macro-eval mac0 5 (x))", "(define-macro-eval mac0 (x) 5)", "(define-macro-eval mac0)", "(define-macro-eval newmac 7 7)"}; return "(do (println \"m\") " + r.pick(v) + ")"; }
            case 7: { static const strs v = {"(defn pf0)", "(defn (nosuchfunction 1) (a b) 1)", "\n; about nothing\n(defn (nth 99 l0) (a) 1)", "\n; about nothing\n(gdefn (nosuchfunction) (a c) 1)", "(defn pf0 (a))", "(defn newf 5 6)", "(gdefn pf0 (a))", "(def)", "(def i0)", "(setf)", "(setf nosuchvar 1)", "(push 1 5)", "(pop 7)", "(dict-set 5 1 2)", "(setf (nth 99 l0) 1)", "(setf (first 5) 1)", "(setf i0 (nosuchfunction 1))", "(def i0 (nth 99 l0))", "(gdef i1 (nosuchfunction))", "(dict-set d0 (nosuchfunction) 1)", "(push (nosuchfunction) l0)", "(setf (nth (nosuchfunction) l0) 1)"}; return "(do (println \"f\") " + r.pick(v) + ")"; }
            case 8: { static const strs v = {"(import \"nowhere\")", "(import \"bad0.fuel\")", "(import \"bad1.fuel\")", "(import)", "(do (import \"nowhere\") (nosuchfunction))", "(import \"nowhere\" \"bad0.fuel\")"}; return r.pick(v); }
            case 9: return "(println (len (File-ReadAllText \"" + str(r.p(0.6) ? "in.txt" : "nothere.txt") + "\")) (File-Exists \"in.txt\"))";
            case 10: return "(println (format \"{0} {1}\" " + ex(1) + " " + ex(1) + "))";
            case 11: return "((((";
            case 12: return "(println \"unfinished";
            case 13: return "(println " + ex(2) + " " + ex(1) + ")";
            case 14: return "(mf0 (nosuchfunction 1))";
            case 15: return "(mfail " + lit() + ")";
            case 16: return "(evalstr " + lispStr("(evalstr " + lispStr(pure2()) + ")") + ")";
            default: return "(do " + ex(2) + " " + ex(3) + ")";
        }
    }
    str pure2() { return "(do (println \"deep\") " + ex(2) + ")"; }
    str effect() {
        switch (r.below(10)) {
            case 0: return "; about ef\n(defn ef (x) (+ x " + lit() + "))";
            case 1: return "; the other pf0\n(defn pf0 (a b) (do (println \"new\") (return (+ a b b))))";
            case 2: return "(gdef ev " + lit() + ")";
            case 3: return "(setf i0 (+ i1 " + lit() + "))";
            case 4: return "(define-macro-eval mac0 (mv mx) (setf mv (* mv mx)))";
            case 5: return "(push " + lit() + " l0)";
            case 6: return "(dict-set d0 " + lit() + " \"v\")";
            case 7: return "(setf (nth 0 l0) " + b.scalar() + ")";
            case 8: return "(delvar 's1)";
            default: return "(define-macro-eval em (mv) (setf mv (+ mv " + lit() + ")))";
        }
    }
    str probe() {
        switch (r.below(25)) {
            case 23: return "(do (def plam (lambda (x) x)) (println (doc \"plam\")) (println (doc 'plam)))";
            case 0: return "(do (println (pf0 1 2)) (println (prec 4)))";
            case 1: return "(println (doc \"pf0\") (doc \"pdoc\") (doc \"ef\") (doc \"mf0\"))";
            case 2: return "(do (def q1 3) (mac0 q1 2) (println q1))";
            case 3: return "(do (macros) (modules) (println (len (doc \"zz-nothing\"))))";
            case 4: return "(vars)";
            case 5: return "(println i0 i1 s0 l0 l1 d0 e0 n0)";
            case 6: return "(do (trace #t) (println \"traced\") (trace #f) (println (gettrace)))";
            case 7: return "(println (mf0 1) (mf0 2))";
            case 8: return "(mfail 3)";
            case 9: return "(pfe 2)";
            case 10: return "(do (println \"before\") (nosuchfunction 1))";
            case 11: return "(import \"m0.fuel\" \"m1.fuel\")";
            case 12: return "(do (defn pnew (a) (do (println a) (return (* a 2)) (println \"never\"))) (println (pnew 4)) (println (doc \"pnew\")))";
            case 13: return "(println (typestr em) (typestr ef) (typestr ev) (ef 2))";
            case 14: return "(do (setf i0 (+ i0 1)) (push 7 l0) (println i0 l0 (evalstr \"(+ i0 1)\")))";
            case 15: return "; about pcom\n(defn pcom (x)\n  (list x))\n(println (doc 'pcom))\n(pcom\n 1 2 3)";
            case 16: return "(map (lambda (x) (nosuchfunction x)) (list 1 2))";
            case 17: return "(do (em i1) (println i1))";
            case 18: return "(break)";
            case 19: return "(println (len (File-ReadAllText \"in.txt\")) (len (htmldoc)))";
            case 20: return "(println (pclos 1) (pclos 1))";
            case 21: return "(println (pmac 2) (map pdoc (list 1 2)))";
            case 22: return "(println \"q" + lit() + "\" " + ex(2) + ")";
            default: return "(do (println (lambda (x) x)) (println \"end\") (return 5) (println \"never\"))";
        }
    }
};
}

Scenario genSession(Rng& r, bool thorough) {
    Scenario s;
    auto cfg = [&](const char* n, long v) { s.items.push_back(Item("cfg", {n, num(v)})); };
    if (r.p(0.5)) cfg("fill", (long)r.below(256));
    if (r.p(0.3)) cfg("pad", (long)r.range(1, 1000));
    if (r.p(0.5)) cfg("keepio", 1);
    Gen g(r);
    s.items.push_back(Item("file", {"m0.fuel", g.b.p.module(0) + "; about mfail\n(defn mfail (x) (do (println \"in module\" x) (nosuchfunction x)))\n"}));
    s.items.push_back(Item("file", {"m1.fuel", g.b.p.module(1)}));
    s.items.push_back(Item("file", {"in.txt", "first line\nsecond line\n"}));
    s.items.push_back(Item("file", {"bad0.fuel", "(println \"bad module\")\n(nosuchfunction 1)\n"}));
    s.items.push_back(Item("file", {"bad1.fuel", "(println \"bad module\")\n(((\n"}));
    str setup = g.b.p.setup();
    setup += "\n; about pf0\n(defn pf0 (a b) (do (def loc (list a b)) (defn inner (x) (list x loc)) (println \"in\" a) (return (inner 2))))\n"
             "(defn pfe (a) (do (def loc (list a)) (push 1 loc) (println \"pfe\" loc) (nosuchfunction a)))\n"
             "(defn prec (n) (if (< n 1) 0 (+ n (prec (- n 1)))))\n; about pdoc\n(defn pdoc (a) (return a))\n"
             "(defn pmk (n) (do (def c n) (return (lambda (x) (+ c x)))))\n(def pclos (pmk 4))\n"
             "(define-macro-eval pinc (mv) (setf mv (+ mv 1)))\n(defn pmac (a) (do (def loc a) (pinc loc) (return loc)))\n"
             "(define-macro-eval mac0 (mv mx) (setf mv (+ mv mx)))\n";
    if (r.p(0.7)) setup += "(import \"m0.fuel\")\n";
    s.items.push_back(Item("setup", {setup}));
    if (r.p(0.3)) s.items.push_back(Item("setup", {g.probe()}));
    int n = (int)r.range(1, thorough ? 5 : 3);
    bool eff = false;
    std::vector<Item> faults;
    for (int i = 0; i < n; i++) {
        bool e = !eff && r.p(0.25);
        str code = e ? g.effect() : g.pure();
        if (e) eff = true;
        s.items.push_back(Item("step", {code, e ? "1" : "0"}));
        double x = (double)r.below(1000) / 1000;
        if (x < 0.5) faults.push_back(Item("fault", {num(i), "alloc", "fail", num((long)(r.p(0.6) ? 1 + r.below(r.p(0.5) ? 300 : 2000) : r.logu(20000))), num(r.p(0.85) ? 1 : (long)r.range(2, 20))}));
        else if (x < 0.75) faults.push_back(Item("fault", {num(i), "call", "stop", num((long)r.logu(30)), "0"}));
        else if (x < 0.85) { bool o = r.p(0.5); faults.push_back(Item("fault", {num(i), o ? "open" : "read", o ? "emfile" : "eio", num((long)r.range(1, 3)), "0"})); }
    }
    for (auto& f : faults) s.items.push_back(f);
    int np = (int)r.range(3, thorough ? 12 : 8);
    for (int i = 0; i < np; i++) s.items.push_back(Item("probe", {g.probe()}));
    return s;
}

// one session; steps that are not in `with` are left out
static Result sessionRun(const Scenario& s, bool steps, const std::vector<bool>& with, bool refOnly) {
    return child(configOf(s), [&] {
        for (auto i : s.all("file")) sim::writeReal(i->s(0), i->s(1));
        fuel::Session ses("", true, true, true);
        ses.implicit = s.cfgn("keepio");
        ses.attach(false);
        for (auto i : s.all("setup")) ses.eval(C(), i->s(0));
        long k = 0;
        for (auto i : s.all("step")) {
            if (steps) {
                auto f = faultsFor(s, k);
                bool stops = false; for (auto& x : f) if (x.kind == "call") stops = true;
                ses.attach(stops);
                auto o = ses.eval(C(), i->s(0), f);
                ses.attach(false);
                sim::emit("step " + num(k) + " " + o.kind + " " + q(o.str()));
            }
            else if (with[(size_t)k]) ses.eval(C(), i->s(0));
            k++;
        }
        auto state = [&] {
            str st; for (auto& kv : ses.state()) st += kv.first + "=" + kv.second + ";\n";
            st += "modules"; for (auto& m : ses.modules()) st += " " + m;
            st += "\nmacros"; for (auto& m : ses.macros()) st += " " + m;
            return st;
        };
        sim::emit("state " + q(state()));
        ses.attach(true);
        size_t seen = ses.output().size();
        for (auto i : s.all("probe")) {
            str calls;
            ses.wantCalls = true;
            ses.onCall = [&](const fuel::CallInfo& c) { calls += c.module + ":" + num(c.line) + ":" + c.name + ":" + num(c.depth) + " "; };
            auto o = ses.eval(C(), i->s(0));
            str out = ses.output();
            sim::emit("probe " + q(o.str() + (o.null ? "" : " " + o.canon) + "\n" + out.substr(std::min(seen, out.size())) + "\ncalls " + calls));
            seen = out.size();
        }
        sim::emit("state " + q(state()));
    });
}

Verdict runSession(const Scenario& s) {
    Verdict v;
    auto steps = s.all("step"); auto probes = s.all("probe");
    Result a = sessionRun(s, true, {}, false);
    if (a.status != 0) { v.fail("run-" + a.statusText().substr(0, 7), a.statusText() + "\n" + cut(a.out)); return v; }
    auto sa = field(a.out, "step"), pa = field(a.out, "probe"), ta = field(a.out, "state");
    if (sa.size() != steps.size() || pa.size() != probes.size() || ta.size() != 2) { v.fail("transcript", "incomplete transcript:\n" + cut(a.out)); return v; }
    std::vector<size_t> open; std::vector<bool> with(steps.size(), false);
    for (size_t i = 0; i < steps.size(); i++) {
        str kind = sa[i].substr(sa[i].find(' ') + 1); kind = kind.substr(0, kind.find(' '));
        if (kind == "other") { v.fail("foreign-error", "step " + num((long)i) + " ended with " + kind + "\n" + steps[i]->s(0) + "\n" + unq(sa[i])); return v; }
        if (kind != "ok") v.nontrivial = true;
        if (steps[i]->n(1)) { if (kind == "ok") with[i] = true; else open.push_back(i); }
    }
    if (open.size() > 3) return v;
    str why;
    for (unsigned m = 0; m < (1u << open.size()); m++) {
        std::vector<bool> w = with; for (size_t j = 0; j < open.size(); j++) w[open[j]] = (m >> j) & 1;
        Result b = sessionRun(s, false, w, true);
        if (b.status != 0) { v.fail("run-" + b.statusText().substr(0, 7), b.statusText() + "\n" + cut(b.out)); return v; }
        auto pb = field(b.out, "probe"), tb = field(b.out, "state");
        str problem;
        for (size_t i = 0; i < 2 && i < tb.size() && problem.empty(); i++) if (ta[i] != tb[i]) { problem = str(i ? "the variables after the later evaluations" : "the variables after the failed evaluations") + ": " + firstDiff(unq(tb[i]), unq(ta[i])); if (i == 1) for (size_t k = 0; k < pa.size() && k < pb.size(); k++) if (pa[k] != pb[k]) problem.clear(); }
        for (size_t i = 0; i < pa.size() && i < pb.size() && problem.empty(); i++) if (pa[i] != pb[i]) problem = "a later evaluation\n" + probes[i]->s(0) + "\n" + firstDiff(unq(pb[i]), unq(pa[i]));
        if (problem.empty() && (pb.size() != pa.size() || tb.size() != ta.size())) problem = "transcript of the reference session";
        if (problem.empty()) return v;
        if (why.empty()) why = problem;
    }
    str what; for (size_t i = 0; i < steps.size(); i++) what += steps[i]->s(0) + "\n  => " + cut(unq(sa[i]), 400) + "\n";
    v.fail("session-" + str(why.find("variables") != str::npos ? "state" : "later"), "a session with evaluations that were cut short differs from the session without them (expected: without): " + why + "\nthe evaluations:\n" + what);
    return v;
}

// P15: programs in which nested evaluations without effects are mixed into all bodies and into arguments, against the
// same programs with (nop) at these places.
// items: file <name> <text> | with <code> | mark <name> <what (name) stands for>  (both texts have the same length: all positions are the same)
static const char* const kModule = "; about zmod\n(defn zmod (a) (do (def loc (list a)) (def i0 a) (push 1 loc) (return (len loc))))\n\n(defn zmodn (b) (do (def x (zmod b)) (evalstr \"(zmod 2)\") (return (+ x b))))\n";
static const char* const kPrelude =
    "(def zx0 \"(+ 1 2)\") (def zx1 \"(zf 1 2)\") (def zx2 \"(do (map zg (list 1 2)) (zrec 3))\") (def zx3 \"; comment\\n(list 1\\n 2)\") (def zx4 \"(evalstr zx1)\") (def zx5 \"(eval (quote (evalstr zx2)))\") (def zmi \"zmi.fuel\")\n"
        "; about zf\n(defn zf (a i0) (do (def loc a) (def b i0) (def l0 (list a)) (push 1 l0) (setf i0 9) (return b)))\n(defn zg (x) (+ x 1))\n(defn zrec (a) (if (< a 1) 0 (+ a (zrec (- a 1)))))\n"
        "(defn zmk (n) (do (def c n) (return (lambda (x) (do (def i1 x) (setf i1 3) (return (+ c x)))))))\n(def zclos (zmk 4))\n(define-macro-eval zinc (mv) (setf mv (+ mv 1)))\n(defn zpm (a) (do (def loc a) (zinc loc) (return loc)))\n"
        "(define-macro-expand zex (a) `(+ ,a 2))\n(defn zexf (a) (zex a))\n(defn zearly (a) (do (if (> a 1) (return 7)) (setf nosuchvar 1)))\n(defn zloop (a) (do (def b 0) (while (< b a) (do (setf b (+ b 1)) (if (> b 1) (return b))))))\n"
        "(defn zevs (a) (do (def loc 1) (evalstr \"(setf loc (+ loc 1))\") (return loc)))\n(import \"zmi.fuel\")\n";
Scenario genInert(Rng& r, bool thorough) {
    Scenario s;
    auto cfg = [&](const char* n, long v) { s.items.push_back(Item("cfg", {n, num(v)})); };
    if (r.p(0.5)) cfg("fill", (long)r.below(256));
    ProgGen p(r);
    auto w = [&](double base) { return base * (double)r.below(4); };
    p.wList = w(0.6); p.wDict = w(0.3); p.wNest = w(0.7); p.wFn = w(1); p.wPrint = w(0.5); p.wRet = w(0.15); p.wErr = r.p(0.5) ? 0 : 0.04;
    bool mods = r.p(0.5);
    str m0, m1;
    std::vector<std::pair<str, str>> marks;     // marker, inert statement
    static const strs forms = {"(evalstr zx0)", "(evalstr zx1)", "(evalstr zx2)", "(evalstr zx3)", "(evalstr zx4)", "(eval (quote (zf 1 2)))", "(eval '(+ 1 2))", "(zf 3 4)", "(map zg (list 1 2 3))",
        "(map (lambda (x) (do (def loc x) (setf loc 5) (return loc))) (list 1 2))", "(reduce (lambda (x acc) (+ x acc)) (list 1 2) 0)", "(apply zf (list 1 2))", "(zmod 1)", "(zmodn 2)", "(import zmi)", "(doc 'len)",
        "(searchdoc (quote pf))", "(zclos 1)", "(zpm 2)", "(zexf 1)", "(zrec 5)", "(if #t (zf 1 2) 5)", "(while #f (zf 1 2))", "`(a ,(zf 1 2) ,@(list 1 2))", "(zearly 3)", "(zloop 3)", "(apply zmod (list 2))", "(map zmodn (list 1 2))",
        "(evalstr zx5)", "(zevs 1)", "(defnothing)"};
    int mk = 0;
    p.inert = [&]() -> str { str f; do f = r.pick(forms); while (f == "(defnothing)"); str m = "zmark" + num(1000 + mk++); marks.push_back({m, f}); return "(" + m + ")"; };
    if (mods) { auto f = p.inert; p.inert = nullptr; m0 = p.module(0); m1 = p.module(1); p.inert = f; s.items.push_back(Item("file", {"m0.fuel", m0})); s.items.push_back(Item("file", {"m1.fuel", m1})); p.wMod = 0.3; }
    str setup = p.setup();
    if (mods && r.p(0.9)) { setup += " (import \"m0.fuel\" \"m1.fuel\")"; p.modulesKnown(m0, m1); }
    if (r.p(0.5)) setup += " " + p.defMacro();
    s.items.push_back(Item("with", {setup}));
    int n = (int)r.range(1, thorough ? 5 : 3);
    for (int i = 0; i < n; i++) {
        str t;
        int nf = (int)r.below(3);
        for (int k = 0; k < nf; k++) { if (r.p(0.5)) t += "; text of " + num(k) + "\n"; t += p.defFn(p.g, 3) + "\n"; if (r.p(0.5)) t += p.inert() + "\n"; }
        t += p.body(p.g, 3, (int)r.range(1, 4)) + "\n" + p.inert() + "\n";
        if (r.p(0.6)) { str k = num((long)r.below(3)); t += "; about zd" + k + "\n(defn zd" + k + " (a) (list a))\n" + p.inert() + " (println (doc 'zd" + k + ") (zd" + k + " 1))\n"; }
        if (r.p(0.3)) t += "(map (lambda (x) (do " + p.inert() + " (println x (args)) (return x))) (list 1 2))\n";
        if (r.p(0.3)) t += "(setf (nth (do " + p.inert() + " (+ 0 0)) l0) (do " + p.inert() + " (+ 0 5)))\n(println l0)\n";
        if (r.p(0.2)) t += "(println (callstack))\n";
        if (r.p(0.2)) t += "(do " + p.inert() + " (break))\n";
        if (r.p(0.2)) t += p.inert() + " (nosuchfunction " + p.inert() + ")\n";
        s.items.push_back(Item("with", {t}));
    }
    for (auto& m : marks) s.items.push_back(Item("mark", {m.first, m.second}));
    return s;
}
static str filled(const Scenario& s, str t, bool nop) {
    for (auto m : s.all("mark")) {
        str name = "(" + m->s(0) + ")", text = m->s(1);
        size_t at = t.find(name);
        if (at == str::npos || m->s(0).empty() || text.empty()) continue;
        if (nop) { str no = "(nop)"; no.resize(std::max(no.size(), text.size()), ' '); text = no; }
        t.replace(at, name.size(), text);
    }
    return t;
}
Verdict runInert(const Scenario& s) {
    Verdict v;
    Result r[2];
    for (int k = 0; k < 2; k++) r[k] = child(configOf(s), [&] {
        for (auto i : s.all("file")) sim::writeReal(i->s(0), i->s(1));
        sim::writeReal("zmi.fuel", kModule);
        fuel::Session ses("", true, true, false);
        ses.eval(C(), kPrelude);
        size_t seen = 0;
        for (auto i : s.all("with")) {
            auto o = ses.eval(C(), filled(s, i->s(0), k == 1) + "\n(nop)");
            str out = ses.output(), st; for (auto& kv : ses.state()) st += kv.first + "=" + kv.second + ";\n";
            sim::emit("r " + q(o.str() + (o.null ? "" : " " + o.canon) + "\n" + out.substr(std::min(seen, out.size())) + "\nstate\n" + st));
            seen = out.size();
        }
    });
    for (int k = 0; k < 2; k++) if (r[k].status != 0) {
        if (r[1].status == r[0].status) return v;       // too deep or too long in itself
        v.fail("run-" + r[k].statusText().substr(0, 7), r[k].statusText() + "\n" + cut(r[k].out)); return v;
    }
    auto a = field(r[0].out, "r"), b = field(r[1].out, "r");
    v.nontrivial = true;
    for (size_t i = 0; i < a.size() || i < b.size(); i++) {
        str x = i < a.size() ? a[i] : "-", y = i < b.size() ? b[i] : "-";
        x = unq(x); y = unq(y);
        if (x != y) {       // the name of an evaluated text is the text itself
            std::vector<std::pair<size_t, str>> f; for (auto m : s.all("mark")) if (!m->s(1).empty()) f.push_back({m->s(1).size(), m->s(1)});
            std::sort(f.rbegin(), f.rend());
            for (auto& m : f) { str no = "(nop)"; no.resize(std::max(no.size(), m.first), ' '); for (str* z : {&x, &y}) for (size_t at; (at = z->find(m.second)) != str::npos; ) z->replace(at, m.first, no); }
        }
        if (x != y) { v.fail("nested", "a program with nested evaluations that have no effect differs from the program without them (expected): " + firstDiff(y, x) + "\n" + filled(s, s.all("with")[i]->s(0), false)); return v; }
    }
    return v;
}

// P11: programs over the whole language; the console that delivers the input in chunks, and a console that fails, change
// nothing of what is captured, of the results and of the session.
// items: mode session|safe|main | file <name> <text> | dual <code> | input <text> | chunk <n> | fault <i> cout fail <nth> <v>
Scenario genDual(Rng& r, bool thorough) {
    Scenario s;
    static const strs modes = {"session", "session", "safe", "main"};
    str mode = r.pick(modes);
    s.items.push_back(Item("mode", {mode}));
    if (r.p(0.3)) s.items.push_back(Item("cfg", {"fill", num((long)r.below(256))}));
    Broad b(r); b.wIn = 0.6; b.wDoc = r.p(0.5) ? 0.05 : 0.5; b.wWild = r.p(0.3) ? 0.2 : 1;
    b.world(s);
    int n = mode == "session" ? (int)r.range(1, thorough ? 5 : 3) : 1;
    for (int i = 0; i < n; i++) {
        str t = b.program((int)r.range(1, 6), r.p(0.1), r.p(0.5) ? 0 : 0.05);
        if (r.p(0.3)) t = "(import \"nowhere" + num(i) + "\")\n" + t;
        s.items.push_back(Item("dual", {t}));
        s.items.push_back(Item("fault", {num(i), "cout", "fail", num((long)r.logu(r.p(0.7) ? 20 : 200)), num((long)r.logu(6) - 1)}));
    }
    str in; int nl = (int)r.below(7);
    for (int i = 0; i < nl; i++) in += num(i) + (r.p(0.9) ? " line" : str((size_t)r.logu(9000), 'z')) + (i + 1 == nl && r.p(0.3) ? "" : "\n");
    if (in.empty()) in = "\n";
    s.items.push_back(Item("input", {in}));
    int ch = (int)r.below(10); bool tiny = r.p(0.3);
    for (int i = 0; i < ch; i++) s.items.push_back(Item("chunk", {num((long)(tiny ? r.range(1, 3) : r.logu(5000)))}));
    return s;
}
Verdict runDual(const Scenario& s) {
    Verdict v;
    str mode = s.first("mode") ? s.first("mode")->s(0) : "session", input = s.first("input") ? s.first("input")->s(0) : "\n";
    std::vector<long> chunks; for (auto i : s.all("chunk")) chunks.push_back(std::max(1L, i->n(0)));
    auto codes = s.all("dual"); if (codes.empty() || input.empty()) return v;
    auto run = [&](bool cin, bool faulty) {
        return child(configOf(s), [&] {
            for (auto i : s.all("file")) sim::writeReal(i->s(0), i->s(1));
            if (s.first("lib")) sim::library();
            sim::setConsoleInput(cin ? input : "", cin ? chunks : std::vector<long>());
            if (mode == "session") {
                fuel::Session ses(input, true, !cin, false);
                size_t seen = 0, cseen = 0;
                for (size_t i = 0; i < codes.size(); i++) {
                    auto o = ses.eval(C(), codes[i]->s(0), faulty ? faultsFor(s, (long)i) : std::vector<Fault>());
                    str out = ses.output(), con = sim::consoleOut(), st; for (auto& kv : ses.state()) st += kv.first + "=" + kv.second + ";\n";
                    sim::emit("r " + q(o.str() + (o.null ? "" : " " + o.canon) + "\n" + out.substr(std::min(seen, out.size())) + "\nstate\n" + st));
                    // the documentation builtins show their text on the console only
                    if (!faulty) { str x = out.substr(std::min(seen, out.size())), y = con.substr(std::min(cseen, con.size())); size_t at = 0; for (char ch : y) if (at < x.size() && x[at] == ch) at++; bool docs = codes[i]->s(0).find("doc") != str::npos; sim::emit("c " + str(x == y || (docs && at == x.size()) ? "same" : q(firstDiff(x, y)))); }
                    seen = out.size(); cseen = con.size();
                }
                return;
            }
            auto f = faulty ? faultsFor(s, 0) : std::vector<Fault>();
            sim::writeReal("p.fuel", codes[0]->s(0));
            auto o = mode == "main" ? fuel::mainRun(C(), {"p.fuel"}, input, f, cin) : fuel::safeEval(C(), codes[0]->s(0), "p.fuel", false, false, input, f);
            sim::emit("r " + q((o.escaped ? "escaped " + o.escapedWhat : o.o.str()) + "\n" + o.output));
        });
    };
    Result a = run(false, false);
    if (a.status != 0) return v;                    // ends on its own (P07, P14)
    for (auto& c : field(a.out, "c")) if (c != "same") { v.fail("console", "console and captured output differ: " + unq(c)); return v; }
    for (int k = 0; k < 2; k++) {
        if (k == 0 && mode == "safe") continue;
        Result b = run(k == 0, k == 1);
        str what = k == 0 ? "the same lines from the console in chunks" : "a failing console";
        if (b.status != 0) { v.fail("run-" + b.statusText().substr(0, 7), what + ": " + b.statusText() + "\n" + cut(b.out)); return v; }
        auto x = field(a.out, "r"), y = field(b.out, "r");
        for (size_t i = 0; i < x.size() || i < y.size(); i++) if (i >= x.size() || i >= y.size() || x[i] != y[i]) { v.fail(k ? "dual-failing" : "dual-chunks", what + " changed the captured output, a result or the session: " + firstDiff(i < x.size() ? unq(x[i]) : "", i < y.size() ? unq(y[i]) : "")); return v; }
        uint64_t any = 0; for (int i = 0; i < 32; i++) any += b.fired[i];
        if (any) v.nontrivial = true;
    }
    return v;
}
