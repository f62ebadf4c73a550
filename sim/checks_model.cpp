// P02, P12, P15: long-lived sessions against the sequential reference model.
#include "check.h"
#include "model.h"
#include "files.h"
#include "debug.h"
#include "session.h"
#include <algorithm>
#include <cstring>
#include "progen.h"

// items: file <name> <text> | eval <text> | fault <eval> alloc fail <nth> <v> | fault <eval> call stop <nth> 0
static Scenario genModel(Rng& r, bool thorough, int prop) {
    Scenario s;
    auto cfg = [&](const char* n, long v) { s.items.push_back(Item("cfg", {n, num(v)})); };
    if (r.p(0.5)) cfg("fill", (long)r.below(256));
    if (r.p(0.3)) cfg("pad", (long)r.range(1, 1000));
    if (r.p(0.3)) cfg("keepio", 1);
    ProgGen p(r);
    auto w = [&](double base) { double f = (double)r.below(4); return base * f; };
    p.wList = w(prop == 12 ? 1.2 : 0.6); p.wDict = w(prop == 12 ? 0.8 : 0.3); p.wNest = w(prop == 15 ? 1.5 : 0.5); p.wFn = w(prop == 15 ? 1.2 : 0.7); p.wPrint = w(0.5); p.wRet = w(prop == 12 ? 0.05 : 0.15);
    p.wErr = r.p(0.4) ? 0 : prop == 12 ? 0.06 : 0.04;
    bool mods = r.p(prop == 12 ? 0.15 : 0.5);
    str m0, m1;
    if (mods) { m0 = p.module(0); m1 = p.module(1); s.items.push_back(Item("file", {"m0.fuel", m0})); s.items.push_back(Item("file", {"m1.fuel", m1})); p.wMod = 0.3; }
    str setup = p.setup();
    if (mods && r.p(0.9)) { setup += r.p(0.5) ? " (import \"m0.fuel\") (import \"m1.fuel\")" : " (import \"m0.fuel\" \"m1.fuel\")"; p.modulesKnown(m0, m1); }
    if (r.p(0.5)) setup += " " + p.defMacro();
    int nf = (int)r.below(4);
    for (int i = 0; i < nf; i++) setup += " " + p.defFn(p.g, 3);
    s.items.push_back(Item("eval", {setup}));
    int n = (int)r.range(prop == 12 ? 2 : 3, thorough ? 9 : 6);
    std::vector<Item> faults;
    double pf = r.p(0.25) ? 0 : prop == 12 ? 0.25 : prop == 2 ? 0.5 : 0.35;
    for (int i = 1; i <= n; i++) {
        s.items.push_back(Item("eval", {p.body(p.g, 3, (int)r.range(1, prop == 12 ? 8 : 4))}));
        if (r.p(pf)) {
            if (r.p(0.5)) faults.push_back(Item("fault", {num(i), "call", "stop", num((long)r.logu(40)), "0"}));
            else faults.push_back(Item("fault", {num(i), "alloc", "fail", num((long)(r.p(0.7) ? 1 + r.below(r.p(0.5) ? 1500 : 6000) : r.logu(6000))), "1"}));
        }
    }
    for (auto& f : faults) s.items.push_back(f);
    return s;
}

// evaluations that reveal any mode, module, redirection or return state a failed evaluation left behind
static const strs kProbes = {
    "(do (println \"one\") (println \"two\"))",
    "(do (def zzl (list 1 2 3)) (nth 1 zzl))",
    "(do (defn zzf (x) (do (println x) (return (+ x 1)) (println \"never\"))) (zzf 4) (println \"after\"))",
    "(zzf (zzf 2))",
    "(need-l-value)",
    "(zz-undefined 1)",
    "(do (evalstr \"(zz-undefined 1)\"))",
    "(do (evalstr \"(println 5)\") (println 6))",
    "(import \"zz.fuel\")",
    "(zzmod 3)",
    "(zzmodfail 3)",
    "(do (def zzd (make-dict)) (dict-set zzd 1 2) (println (dict-get zzd 1)) (setf (nth 0 zzl) 9) (println (first zzl)))",
    "(do (defn zzr (n) (if (< n 1) (return 7) (zzr (- n 1)))) (zzr 5))",
    "(do (define-macro-eval zzm (a) (setf a (+ a 1))) (def zzi 1) (zzm zzi) (println zzi))",
    "(map (lambda (x) (+ x 1)) (list 1 2 3))",
    "(gettrace)",
    "(do (while (< zzi 5) (do (setf zzi (+ zzi 1)) (print zzi))))",
    "(try (zz-undefined 2) (println \"caught\"))",
    "(callstack)",
};

struct Sess { model::Machine m; };
static void setupMachine(model::Machine& m, const Scenario& s) { for (auto i : s.all("file")) m.files[i->s(0)] = i->s(1); }
struct Cut { int kind = 0; long at = -1; };      // 0 complete, 1 before effect `at`, 2 at call `at`
typedef std::vector<Cut> Hist;
// runs the history; returns false if the model does not cover it
static bool execute(const Scenario& s, const strs& evals, const Hist& h, model::Machine& m, model::Machine::Res& last, size_t* outBefore) {
    setupMachine(m, s);
    for (size_t i = 0; i < h.size(); i++) {
        if (outBefore) *outBefore = m.out.size();
        m.stopEffects = h[i].kind == 1 ? h[i].at : -1;
        m.stopCall = h[i].kind == 2 ? h[i].at : -1;
        last = m.run(evals[i]);
        if (last.k == model::Machine::Res::Bad) return false;
    }
    return true;
}
static str stateText(model::Machine& m) { str t; for (auto& kv : m.state()) t += kv.first + "=" + kv.second + ";"; return t; }

static Verdict runModel(const Scenario& s, int prop) {
    Verdict v;
    strs evals; for (auto i : s.all("eval")) evals.push_back(i->s(0));
    if (evals.empty()) return v;
    // a first run of the model alone: programs outside its language are not judged
    {
        model::Machine m; model::Machine::Res last; size_t ob;
        bool covered;
        try { covered = execute(s, evals, Hist(evals.size()), m, last, &ob); if (covered) stateText(m); } catch (model::Unsupported&) { covered = false; }
        if (!covered) return v;
    }
    bool probes = prop == 2;
    Result r = child(configOf(s), [&] {
        for (auto i : s.all("file")) sim::writeReal(i->s(0), i->s(1));
        if (probes) sim::writeReal("zz.fuel", "(defn zzmod (x) (do (println \"mod\" x) (return (* x 2))))\n(defn zzmodfail (x) (zz-undefined-in-module x))\n");
        fuel::Session ses("", true, true, true);
        ses.implicit = s.cfgn("keepio");
        size_t seen = 0;
        for (size_t i = 0; i < evals.size(); i++) {
            auto f = faultsFor(s, (long)i);
            uint64_t before[32]; memcpy(before, sim::fired, sizeof before);
            bool stops = false; for (auto& x : f) if (x.kind == "call") stops = true;
            ses.attach(stops);
            auto o = ses.eval(C(), evals[i], f);
            ses.attach(false);
            bool alloc = sim::fired[sim::faultKindIndex("alloc", "fail")] > before[sim::faultKindIndex("alloc", "fail")];
            str out = ses.output();
            sim::emit("res " + num((long)i) + " " + o.kind + " " + (alloc ? "1" : "0") + " " + q(o.null ? "" : o.canon) + " " + q(o.text));
            sim::emit("where " + q(o.where));
            str part = out.substr(std::min(seen, out.size()));
            if (stops) for (size_t p; (p = part.find("EXCEPTION: ")) != str::npos; ) { size_t e = part.find('\n', p); part.erase(p, e == str::npos ? str::npos : e + 1 - p); }   // chatter of an attached debugger
            sim::emit("out " + q(part)); seen = out.size();
            str st; for (auto& kv : ses.state()) st += kv.first + "=" + kv.second + ";";
            sim::emit("state " + q(st));
            sim::emit("flags " + ses.flags());
        }
        if (probes) {
            ses.attach(true);
            fuel::Session fresh("", true, true, true);
            for (size_t i = 0; i < kProbes.size(); i++) {
                size_t a0 = ses.output().size(), b0 = fresh.output().size();
                auto a = ses.eval(C(), kProbes[i]), b = fresh.eval(C(), kProbes[i]);
                str x = a.str() + (a.null ? "" : " " + a.canon), y = b.str() + (b.null ? "" : " " + b.canon);
                if (kProbes[i] == "(callstack)") {}
                str ao = ses.output(), bo = fresh.output();
                x += "\n" + ao.substr(std::min(a0, ao.size())); y += "\n" + bo.substr(std::min(b0, bo.size()));
                if (x != y) { sim::emit("probe " + q(kProbes[i] + "\nfresh session: " + y + "\nthis session: " + x)); break; }
            }
        }
    });
    if (r.status != 0) { v.fail("run-" + r.statusText().substr(0, 7), r.statusText() + "\n" + cut(r.out)); return v; }
    auto res = field(r.out, "res"), outs = field(r.out, "out"), states = field(r.out, "state"), wheres = field(r.out, "where");
    if (res.size() != evals.size() || states.size() != evals.size() || outs.size() != evals.size()) { v.fail("transcript", "incomplete transcript:\n" + cut(r.out)); return v; }
    std::vector<Hist> beam(1);
    bool cutShort = false, failed = false;
    for (size_t i = 0; i < evals.size(); i++) {
        strs w; { size_t p = 0; const str& l = res[i]; while (w.size() < 4 && p <= l.size()) { size_t e = l.find(' ', p); if (e == str::npos) e = l.size(); w.push_back(l.substr(p, e - p)); p = e + 1; } if (p <= l.size()) w.push_back(l.substr(p)); }
        w.resize(5);
        str kind = w[1], canon = unq(w[3]), text = unq(w[4]), out = unq(outs[i]), st = unq(states[i]);
        bool alloc = w[2] == "1";
        if (kind == "basic") kind = "error";
        auto fl = faultsFor(s, (long)i);
        long stopAt = -1; for (auto& f : fl) if (f.kind == "call") stopAt = stopAt < 0 ? (long)f.nth : std::min(stopAt, (long)f.nth);
        std::vector<Hist> next; str why; bool bad = false;
        if (kind == "native" || kind == "other") { v.fail("foreign-error", "evaluation " + num((long)i) + " ended with " + kind + " " + text + "\n" + evals[i]); return v; }
        if (kind != "ok") failed = true;
        for (auto& h : beam) {
            std::vector<Cut> opts;
            if (kind == "stop") { if (stopAt < 0) { v.fail("stop", "stopped without a request"); return v; } opts.push_back({2, stopAt}); }
            else opts.push_back({0, -1});
            if (alloc && kind != "ok") {
                Hist x = h; x.push_back({0, -1}); model::Machine m; model::Machine::Res l;
                try { if (!execute(s, evals, x, m, l, nullptr)) { bad = true; break; } } catch (model::Unsupported&) { bad = true; break; }
                for (long k = 0; k <= m.effects; k++) opts.push_back({1, k});
            }
            for (auto& o : opts) {
                Hist x = h; x.push_back(o);
                model::Machine m; model::Machine::Res l; size_t ob = 0; str mst;
                try { if (!execute(s, evals, x, m, l, &ob)) { bad = true; break; } mst = stateText(m); } catch (model::Unsupported&) { bad = true; break; }
                str mout = m.out.substr(ob), problem, mk = l.k == model::Machine::Res::Ok ? "ok" : l.k == model::Machine::Res::Error ? "error" : "stopped";
                if (kind == "ok" && mk != "ok") problem = "succeeded but has to fail (" + l.what + ")";
                else if (kind == "error" && mk == "ok" && !alloc) problem = "failed (" + text + ") but has to succeed";
                else if (kind == "oom" && !alloc) problem = "out of memory without fault";
                else if (kind == "stop" && mk != "stopped") problem = "stopped at a call that the program does not make";
                else if (kind == "error" && mk == "stopped" && !alloc) problem = "?";
                else if (stopAt >= 0 && kind != "stop" && !alloc) { model::Machine m2; model::Machine::Res l2; if (m.calls >= stopAt && o.kind == 0) problem = "made fewer calls than expected: " + num(m.calls) + " calls, no stop at " + num(stopAt); }
                if (problem.empty() && mst != st) problem = "variables: expected " + mst + "\n  got " + st;
                bool pre = alloc && kind != "ok";
                if (problem.empty() && mout != out && !(pre && startsWith(out, mout) && startsWith(l.pending, out.substr(mout.size())))) problem = "output: expected [" + cut(q(mout)) + "] got [" + cut(q(out)) + "]";
                str mc; try { mc = model::canon(l.v); } catch (model::Unsupported&) {}
                if (problem.empty() && kind == "ok" && mk == "ok" && mc != canon) problem = "result: expected " + mc + " got " + canon;
                if (problem.empty() && prop == 15 && kind == "error" && mk == "error" && !alloc && unq(wheres[i]).find("ModuleName=") != str::npos) {
                    str w = unq(wheres[i]), mod = w.substr(w.find("ModuleName=") + 11); mod = mod.substr(0, mod.find(";LineNo="));
                    str line = w.substr(w.find(";LineNo=") + 8); line = line.substr(0, line.find(';'));
                    if (mod != "???" && l.where != "-" && l.where != mod + " line " + line) problem = "where: the error has to be in " + q(l.where) + " but is reported in " + q(mod + " line " + line);
                }
                if (problem.empty()) next.push_back(x); else if (why.empty() || o.kind == 0) why = problem;
            }
            if (bad) break;
        }
        if (bad || next.size() > 60) { v.nontrivial = failed; break; }       // outside the model's language after a fault
        if (next.empty()) { v.fail("model-" + kind + "-" + why.substr(0, why.find_first_of(" :")), "evaluation " + num((long)i) + " (" + kind + " " + cut(text) + (fl.empty() ? "" : ", with fault") + ") is not explained by the sequential model\n" + cut(evals[i], 1500) + "\n" + why); return v; }
        if (kind == "stop" || (alloc && kind != "ok")) cutShort = true;
        beam = next;
    }
    auto pr = field(r.out, "probe");
    if (!pr.empty()) v.fail("probe", "an evaluation after the failed ones does not behave as in a fresh session:\n" + unq(pr[0]));
    if (prop == 2) v.nontrivial = failed;
    else v.nontrivial = true;
    (void)cutShort;
    return v;
}
static Scenario genP02(Rng& r, bool t) { return r.p(0.35) ? genSession(r, t) : genModel(r, t, 2); }
static Scenario genP12(Rng& r, bool t) { return genModel(r, t, 12); }
static Verdict runP02(const Scenario& s) { return s.first("probe") || s.first("step") ? runSession(s) : runModel(s, 2); }
static Verdict runP12(const Scenario& s) { return runModel(s, 12); }
static Reg regP02({"P02", genP02, runP02, "at least one evaluation of the session was cut short (script error, failed allocation or debugger stop)",
    "tokenizer, parser, interpreter, environment, scopes, modules", "allocator, debugger that stops at a chosen call, reference model of the language"});
static Reg regP12({"P12", genP12, runP12, "the whole session lies in the language of the reference model",
    "tokenizer, parser, interpreter, environment, variants, lists, dictionaries, closures", "allocator (failures, contents and placement of memory), debugger stops, reference model of the language"});

static Scenario genP15(Rng& r, bool t) { if (r.p(0.25)) return genInert(r, t); return r.p(0.3) ? genP15debug(r, t) : genModel(r, t, 15); }
static Verdict runP15(const Scenario& s) { if (s.first("with")) return runInert(s); return s.first("prog") ? runDebug(s, 15) : runModel(s, 15); }
static Reg regP15({"P15", genP15, runP15, "the whole session lies in the language of the reference model",
    "tokenizer, parser, interpreter, environment, scopes, macros, modules, closures", "allocator (failures, contents and placement of memory), debugger stops, reference model of the language"});
