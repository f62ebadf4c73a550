// P07, P08 and the debugger part of P15: a simulated user drives the real debugger.
#include "check.h"
#include "model.h"
#include "files.h"
#include <algorithm>
#include <cstring>
#include "progen.h"
#include "debug.h"

// ---- reference debugger: runs the program in the reference model and predicts every line the debugger writes ----
namespace {
struct Quit {};                 // end of the input or exit: the program is stopped
struct EndOfPrediction {};      // an error unwinds through the program: only what was written so far is predicted
struct Bp { long line; str module, cond; };
struct CoSim {
    const Scenario& s;
    str script;
    strs cmds; size_t pos = 0;
    str exp;                    // expected output
    std::vector<Bp> bps;
    enum { None, Step, Over, Out } mode = Step; size_t depth = 0;
    bool quoteStop = false, inCond = false, open = false, nested = false;
    long stops = 0, typed = 0, hits = 0; size_t outSeen = 0;
    model::Machine* m = nullptr;
    std::map<str, str> sources;
    explicit CoSim(const Scenario& s) : s(s) {}
    void flush() { exp += m->out.substr(outSeen); outSeen = m->out.size(); }
    str next(bool& eof) { if (pos >= cmds.size()) { eof = true; return ""; } eof = false; return cmds[pos++]; }
    bool same(const str& a, const str& b) { return a.empty() || b.empty() || a == b; }
    bool hit(long line, const str& module, std::shared_ptr<model::Frame> f) {
        for (auto& b : bps) {
            if (b.line != line || !same(b.module, module)) continue;
            if (b.cond.empty()) return true;
            model::Node n; bool ok = model::parse(b.cond, n), result = false, bad = !ok;
            if (ok) {
                inCond = true; bool ret = f->inReturn; f->inReturn = false; long shown = m->stack.back().line;
                try { model::Value v = m->eval(n, f); if (v.k == model::Value::Bool) result = v.i != 0; else throw model::Unsupported{"condition"}; } catch (model::ScriptError&) { bad = true; }
                f->inReturn = ret; inCond = false; m->stack.back().line = shown; flush();
            }
            if (bad) exp += "Error: bad condition for line " + num(line) + ": " + b.cond + "\n";
            else if (result) { hits++; return true; }
        }
        return false;
    }
    void onCall(const model::Node& n, std::shared_ptr<model::Frame> f) {
        if (inCond) return;
        flush();
        const model::Node& h = n.c[0];
        bool stop = (mode == Step) || (mode == Over && m->stack.size() <= depth) || (mode == Out && m->stack.size() < depth);
        if (!stop) stop = hit(h.line, m->module, f);
        if (!stop) return;
        mode = None; stops++; quoteStop = h.line < 0;
        if (h.line < 0) exp += "--> " + h.s + " \x01\n";      // the short form of quote has no position of its own
        else exp += "--> " + h.s + " line=" + num(h.line) + " start=" + num(h.start) + " stop=" + num(h.stop) + " module=" + m->module + " token=" + h.s + "\n";
        loop();
    }
    void addBp(long line, const str& module, const str& cond) { for (auto& b : bps) if (b.line == line && b.module == module) { b.cond = cond; return; } bps.push_back({line, module, cond}); }
    void loop() {
        size_t top = m->stack.size() - 1, cur = top;
        for (;;) {
            exp += "FUEL(isp)-DBG> ";
            bool eof; str c = next(eof);
            if (eof || c.empty() || c == "exit") throw Quit();
            if (c == "s") { mode = Step; return; }
            if (c == "v") { mode = Over; depth = cur + 1; return; }
            if (c == "o") { mode = Out; depth = cur + 1; return; }
            if (c == "r") { mode = None; return; }
            if (c == "u") { if (cur < top) cur++; continue; }
            if (c == "d") { if (cur > 0) cur--; continue; }
            if (c == "list") { exp += "Breakpoints:\n"; for (size_t i = 0; i < bps.size(); i++) exp += "#" + num((long)i + 1) + " line=" + num(bps[i].line) + " module=" + bps[i].module + " condition=" + bps[i].cond + "\n"; continue; }
            if (c == "k") {
                for (size_t i = 0; i <= top; i++) {
                    auto& l = m->stack[i];
                    if (i == top && quoteStop) { exp += str(i == cur ? "-->" : " ") + " " + num((long)i + 1) + " name=" + l.name + " lineno=\x01\n"; continue; }
                    exp += str(i == cur ? "--> " : " ") + num((long)i + 1) + " name=" + l.name + " lineno=" + num(l.line) + " module=" + l.module + "\n";
                }
                exp += "\n";
                continue;
            }
            if (c == "clear") { exp += "Really delete all breakpoints? (y/n)\n"; for (;;) { bool e; str a = next(e); for (char& ch : a) ch = (char)toupper(ch); if (a.empty() || a == "N" || a == "NO") break; if (a == "Y" || a == "YES") { bps.clear(); break; } } continue; }
            if (startsWith(c, "clear ")) { long k = atol(c.c_str() + 6); if (k >= 1 && k <= (long)bps.size()) bps.erase(bps.begin() + (k - 1)); else exp += "Warning: no breakpoint cleared\n"; continue; }
            if (startsWith(c, "b ")) {
                str rest = c.substr(2); size_t from = rest[0] == '"' ? rest.find('"', 1) : 0;
                size_t blank = rest.find(' ', from); str where = rest.substr(0, blank), cond = blank == str::npos ? "" : rest.substr(blank + 1);
                str module = m->stack[cur].module; size_t k = where.rfind(':');
                if (k != str::npos) { module = where.substr(0, k); where = where.substr(k + 1); if (module.size() > 1 && module[0] == '"') module = module.substr(1, module.size() - 2); }
                addBp(atol(where.c_str()), module, cond);
                continue;
            }
            if (c[0] != '(') throw model::Unsupported{"command"};
            typed++;
            // typed text runs in the selected scope
            model::Node n;
            auto f = m->stack[cur].f; str mod = m->stack[cur].module;
            auto saved = m->stack; str savedModule = m->module; bool ret = f->inReturn;
            m->stack.resize(cur + 1); m->module = mod; f->inReturn = false;
            auto restore = [&] { m->stack = saved; m->module = savedModule; f->inReturn = ret; };
            size_t lv = cur + 1;
            (void)lv;
            try {
                if (!model::parse(c, n)) throw model::ScriptError{"unbalanced"};
                long inner = innermost; innermost = 0;
                model::Value v;
                try { v = m->eval(n, f); } catch (model::ScriptError&) { if (m->failDepth > cur + 1) throw EndOfPrediction(); throw; }
                innermost = inner;
                restore(); flush();
                exp += "result=" + (v.k == model::Value::None ? str("NIL") : text(v)) + "\n";
            }
            catch (Quit&) { restore(); flush(); exp += "Native Exception\n"; }    // leaving a loop nested in typed text leaves the typed text only
            catch (model::ScriptError&) { restore(); flush(); exp += "Exception: \x01\n"; }
        }
    }
    long innermost = 0;
    static str text(const model::Value& v) {
        if (v.k == model::Value::Nil) return "NIL";
        if (v.k == model::Value::Undef) return "<undefined>";
        return model::text(v);
    }
    // runs the program until the input ends; false: outside the language of the model
    bool run() {
        try {
            for (int round = 0; round < 4; round++) {
                model::Machine mm; m = &mm; outSeen = 0;
                for (auto i : s.all("file")) mm.files[i->s(0)] = i->s(1);
                mm.onCall = [this](const model::Node& n, std::shared_ptr<model::Frame> f) { onCall(n, f); };
                auto r = mm.run(script);
                flush();
                if (r.k == model::Machine::Res::Bad) { why = r.what; return false; }
                if (r.k == model::Machine::Res::Error) { open = true; return true; }
                if (r.v.k == model::Value::None) { open = true; return true; }     // no value: the debugger asks again
                exp += "restart program\n";
                mode = Step; finished++;
            }
            open = true;
        }
        catch (Quit&) { flush(); }
        catch (EndOfPrediction&) { open = true; }
        catch (model::Unsupported& u) { why = u.what; return false; }
        return true;
    }
    str why; long finished = 0;
};
str squeeze(const str& t) { str r; for (char c : t) { if (c == ' ' && !r.empty() && r.back() == ' ') continue; r += c; } return r; }
// expected text with wildcards \x01 (rest of the line)
bool matchText(const str& e, const str& g, bool prefix, str& why) {
    size_t i = 0, k = 0;
    while (i < e.size()) {
        if (e[i] == '\x01') { while (k < g.size() && g[k] != '\n') k++; i++; continue; }
        if (k >= g.size() || e[i] != g[k]) {
            size_t b = e.rfind('\n', i ? i - 1 : 0); b = b == str::npos ? 0 : b + 1; size_t b2 = g.rfind('\n', k ? k - 1 : 0); b2 = b2 == str::npos ? 0 : b2 + 1;
            size_t b0 = b > 200 ? b - 200 : 0;
            why = "after [..." + q(e.substr(b0, b - b0)) + "] expected [" + q(e.substr(b, 200)) + "] got [" + q(g.substr(std::min(b2, g.size()), 200)) + "]";
            return false;
        }
        i++; k++;
    }
    if (!prefix && k != g.size()) { why = "more than expected: [" + q(g.substr(k, 300)) + "]"; return false; }
    return true;
}
str lines(ProgGen& p, int n, int d) { str t; for (int i = 0; i < n; i++) t += p.stmt(p.g, d) + "\n"; return t; }
// breaks a program text into lines: every nested statement may start on a line of its own
str spread(Rng& r, const str& t, double prob) {
    str o; bool inStr = false;
    for (size_t i = 0; i < t.size(); i++) {
        char c = t[i];
        if (c == '"' && (i == 0 || t[i - 1] != '\\')) inStr = !inStr;
        if (c == ' ' && !inStr && i + 1 < t.size() && t[i + 1] == '(' && r.p(prob)) { o += "\n  "; continue; }
        o += c;
    }
    return o;
}
} // namespace

str genProgram(Rng& r, Scenario& s, double wErr, ProgGen& p, bool thorough) {
    bool mods = r.p(0.5);
    str m0, m1;
    p.wErr = wErr; p.wNest = 0.4 * (double)r.below(4); p.wFn = 0.6 * (double)r.range(1, 3); p.wDict = 0.3; p.wRet = 0.05; p.wPrint = p.mark ? 2 : 0.8;
    static const strs others = {"m1.fuel", "m1.fuel", "m0.fuel2", "sub/m0.fuel", "M0.fuel", "my mod.fuel", "a:b.fuel"};     // names that are nearly the same name
    str n1 = r.pick(others);
    if (mods) { m0 = spread(r, p.module(0), 0.3); m1 = spread(r, p.module(1), 0.3); s.items.push_back(Item("file", {"m0.fuel", m0})); s.items.push_back(Item("file", {n1, m1})); }
    str t = "; program\n" + spread(r, p.setup(), 0.5) + "\n";
    if (mods) { t += "(import \"m0.fuel\" \"" + n1 + "\")\n"; p.modulesKnown(m0, m1); p.moduleNames = {"m0.fuel", n1}; }
    if (r.p(0.3)) t += p.defMacro() + "\n";
    int nf = (int)r.range(1, 3);
    for (int i = 0; i < nf; i++) t += spread(r, p.defFn(p.g, 3), 0.6) + "\n";
    int n = (int)r.range(2, thorough ? 10 : 6);
    for (int i = 0; i < n; i++) t += spread(r, p.stmt(p.g, 2), 0.3) + "\n";
    return t;
}

// a name with a blank can only be told in quotes, any other name in both ways
static str bpName(Rng& r, const str& n) { return n.find(' ') != str::npos || r.p(0.3) ? "\"" + n + "\"" : n; }
// items: prog <text> | file <name> <text> | cmd <line>
static str answer(Rng& r) { static const strs a = {"y", "n", "y", "n", "yes", "YES", "No", "Yes", "Y", "no", "N", "NO"}; return r.pick(a); }
static Scenario genDebug(Rng& r, bool thorough, int prop) {
    Scenario s;
    auto cfg = [&](const char* n, long v) { s.items.push_back(Item("cfg", {n, num(v)})); };
    if (r.p(0.4)) cfg("fill", (long)r.below(256));
    if (prop == 15) cfg("dbg", 1);
    ProgGen p(r);
    str t = genProgram(r, s, r.p(0.85) ? 0 : 0.05, p, thorough);
    s.items.push_back(Item("prog", {t}));
    long nl = (long)std::count(t.begin(), t.end(), '\n');
    bool mods = p.fns.size() && s.first("file");
    int n = (int)r.range(3, thorough ? 60 : 30);
    ProgGen::Env e = p.g;
    // names that are known in some functions only
    auto localName = [&]() -> str { static const strs v = {"a", "b", "x", "pl", "pv", "pd", "c", "n", "loc", "cn", "w0", "w1", "i0"}; return r.pick(v); };
    auto cond = [&]() -> str { if (r.p(0.2)) return "(" + str(r.p(0.5) ? "> " : "== ") + localName() + " " + num(r.range(-2, 6)) + ")"; double x = (double)r.below(100) / 100; if (x < 0.8) return p.boolE(e, 1); if (x < 0.88) return "(nosuch 1)"; if (x < 0.93) return "(> i0"; if (x < 0.97) return "(evalstr \"(< i1 3)\")"; return "(< (nth 50 l0) 1)"; };
    auto cmd = [&](const str& c) { s.items.push_back(Item("cmd", {c})); };
    double wStep = (double)r.range(1, 4), wBp = (double)r.below(4), wTyped = prop == 15 ? (double)r.range(2, 5) : (double)r.below(2), wNav = (double)r.below(3), wRun = (double)r.range(1, 3);
    int wt = 0; std::vector<long> used;
    for (int i = 0; i < n; i++) {
        double tot = wStep * 3 + wBp + wTyped + wNav + wRun, x = tot * (double)r.below(10000) / 10000;
        if (x < wStep * 3) { static const strs st = {"s", "v", "o", "s", "v"}; int k = r.p(0.3) ? (int)r.range(1, 8) : 1; str c = r.pick(st); for (int j = 0; j < k; j++) cmd(c); continue; }
        x -= wStep * 3;
        if (x < wBp) {
            double y = (double)r.below(100) / 100;
            if (y < 0.7) {
                long line = (long)r.range(2, nl + 1);
                if (!used.empty() && r.p(0.35)) line = r.pick(used);
                used.push_back(line);
                str where = num(line);
                if (mods && r.p(0.35)) where = bpName(r, r.pick(p.moduleNames)) + ":" + num(r.range(2, 8));
                else if (r.p(0.3)) where = bpName(r, "main") + ":" + where;
                else if (r.p(0.15)) where = ":" + where;
                cmd("b " + where + (r.p(0.35) ? " " + cond() : ""));
            }
            else if (y < 0.8) cmd("list");
            else if (y < 0.92) cmd("clear " + num(r.range(0, 4)));
            else { cmd("clear"); if (r.p(0.3)) cmd("maybe"); cmd(answer(r)); }
            continue;
        }
        x -= wBp;
        if (x < wTyped) {
            if (r.p(0.3)) { int k = (int)r.below(3); for (int j = 0; j < k; j++) cmd(r.p(0.7) ? "d" : "u"); cmd("(list " + localName() + " " + localName() + " " + localName() + ")"); }
            else if (r.p(0.75)) cmd(r.p(0.6) ? p.intE(e, 2) [0] == '(' ? p.intE(e, 2) : "(+ i0 1)" : p.boolE(e, 1));
            else { str st = p.stmt(e, 1); if (st.find('\n') == str::npos) cmd(st); }
            wt++;
            continue;
        }
        x -= wTyped;
        if (x < wNav) { cmd(r.p(0.3) ? "k" : r.p(0.65) ? "d" : "u"); continue; }
        cmd("r");
    }
    // typed text has to be a list
    for (auto& i : s.items) if (i.kind == "cmd" && !i.a[0].empty() && i.a[0][0] != '(' && (isdigit((unsigned char)i.a[0][0]) || i.a[0][0] == '-' || i.a[0][0] == '#' || i.a[0][0] == '"' || i.a[0] == "i0" || i.a[0] == "i1" || i.a[0] == "i2")) i.a[0] = "(+ i0 1)";
    return s;
}
Verdict runDebug(const Scenario& s, int prop) {
    Verdict v;
    auto pi = s.first("prog"); if (!pi) return v;
    CoSim sim(s); sim.script = pi->s(0);
    str input;
    for (auto i : s.all("cmd")) { sim.cmds.push_back(i->s(0)); input += i->s(0) + "\n"; }
    if (!sim.run()) { if (getenv("SIM_SHOW")) fprintf(stderr, "not covered: %s\n", sim.why.c_str()); return v; }
    Result r = child(configOf(s), [&] {
        for (auto i : s.all("file")) sim::writeReal(i->s(0), i->s(1));
        auto o = fuel::debugRun(C(), sim.script, "main", input, {});
        sim::emit("out " + q(o.output));
        sim::emit("esc " + q(o.escaped ? o.escapedWhat : ""));
    });
    if (r.status != 0) { v.fail("run-" + r.statusText().substr(0, 7), r.statusText() + "\n" + cut(r.out)); return v; }
    str out = unq(one(r.out, "out")), esc = unq(one(r.out, "esc"));
    if (!esc.empty()) { v.fail("escape", "the debugger was left by " + esc); return v; }
    str why;
    if (!matchText(squeeze(sim.exp), squeeze(out), sim.open, why)) { v.fail("transcript", why); }
    v.nontrivial = prop == 15 ? sim.typed > 0 : sim.stops > 2;
    return v;
}
static Scenario genP08(Rng& r, bool t) { return genDebug(r, t, 8); }
static Verdict runP08(const Scenario& s) { return runDebug(s, 8); }
Scenario genP15debug(Rng& r, bool t) { return genDebug(r, t, 15); }
static Reg regP08({"P08", genP08, runP08, "the reference model covers the program and the debugger stopped at least three times",
    "debugger, tokenizer, parser, interpreter, environment, modules", "user (command sequence), reference debugger over the reference model"});

// ---- P07 ----------------------------------------------------------------------------------------------------------
static Scenario genP07(Rng& r, bool thorough) {
    Scenario s;
    if (r.p(0.4)) s.items.push_back(Item("cfg", {"fill", num((long)r.below(256))}));
    if (r.p(0.3)) s.items.push_back(Item("cfg", {"pad", num((long)r.range(1, 1000))}));
    ProgGen p(r); p.mark = true; p.io = r.p(0.5);
    bool attached = r.p(0.4); p.in = attached;
    if (attached) s.items.push_back(Item("cfg", {"attached", "1"}));
    str t = genProgram(r, s, r.p(0.7) ? 0 : 0.05, p, thorough);
    if (r.p(0.15)) {
        s.items.push_back(Item("lib", {"1"}));
        size_t at = t.find("; program\n") + 10;
        t.insert(at, "(import \"fuellib\")\n");
        for (int k = (int)r.range(1, 3); k > 0; k--) switch (r.below(5)) {
            case 0: t += "(dotimes (zc 3)\n (do " + p.stmt(p.g, 1) + "\n (println (+ \"@\" \"@d\") zc)))\n"; break;
            case 1: t += "(foreach (list 1 2 3)\n (lambda (x)\n (println (+ \"@\" \"@e\") x)))\n"; break;
            case 2: t += "(setq i0 " + p.intE(p.g, 1) + ")\n(println (+ \"@\" \"@q\") i0)\n"; break;
            case 3: t += "(defstruct zs za zb)\n(println (+ \"@\" \"@s\") (get-zs-za (make-zs 4 5)))\n"; break;
            default: t += "(println (+ \"@\" \"@f\") (find 2 (list 1 2 3)) (second (list 1 2)))\n";
        }
    }
    s.items.push_back(Item("prog", {t}));
    if (attached) { int k = (int)r.below(3); for (int i = 0; i < k; i++) { str u; int n = (int)r.range(1, 4); for (int j = 0; j < n; j++) u += spread(r, p.stmt(p.g, 2), 0.3) + "\n"; s.items.push_back(Item("prog", {u})); } }
    long nl = (long)std::count(t.begin(), t.end(), '\n');
    ProgGen pure(r); pure.g = p.g; pure.wSide = 0;      // no functions: evaluating these changes nothing
    ProgGen::Env e = pure.g; e.N.clear();
    int n = (int)r.range(2, thorough ? 80 : 40);
    double wq = r.p(0.15) ? 0.02 : 0;
    double w[6]; for (double& x : w) x = (double)r.below(4);
    w[0] += 1;
    for (int i = 0; i < n; i++) {
        auto cmd = [&](const str& c) { s.items.push_back(Item("cmd", {c})); };
        double tot = w[0] * 3 + w[1] + w[2] + w[3] + w[4] + w[5] * 0.3, x = tot * (double)r.below(10000) / 10000;
        if (wq > 0 && r.p(wq)) { cmd("exit"); continue; }
        if (x < w[0] * 3) { static const strs st = {"s", "v", "o", "step", "over", "out", "s"}; int k = r.p(0.3) ? (int)r.range(1, 10) : 1; str c = r.pick(st); for (int j = 0; j < k; j++) cmd(c); continue; }
        x -= w[0] * 3;
        if (x < w[1]) { static const strs c = {"k", "stack", "c", "code", "l", "locals", "g", "globals", "funcs", "macros", "modules", "list", "t", "help", "about", "version", "builtins"}; cmd(r.pick(c)); continue; }
        x -= w[1];
        if (x < w[2]) { double y = (double)r.below(100) / 100; if (y < 0.75) { str where = num(r.range(2, nl + 1)); if (r.p(0.2)) where = bpName(r, p.moduleNames.size() ? r.pick(p.moduleNames) : str("m0.fuel")) + ":" + num(r.range(2, 8)); else if (r.p(0.2)) where = ":" + where; static const strs bad = {"(nosuch 1)", "(nth 50 l0)", "(> i0", "5", "\"x\"", "(def"}; cmd("b " + where + (r.p(0.5) ? "" : " " + (r.p(0.75) ? pure.boolE(e, 2) : r.pick(bad)))); } else if (y < 0.85) cmd("clear " + num(r.range(0, 4))); else { cmd("clear"); if (r.p(0.3)) cmd("maybe"); cmd(answer(r)); } continue; }
        x -= w[2];
        if (x < w[3]) { if (r.p(0.6)) { str c = r.p(0.5) ? pure.boolE(e, 2) : pure.listE(e, 1); cmd(c[0] == '(' ? c : "(list i0 i1)"); } else { static const strs bad = {"(nosuch 1)", "(nth 50 l0)", "(len", "i0", "xyz", "(return 5)", "(setf nosuchvar 1)", "(evalstr \"(nosuch)\")", "(do (def zzq 1) (+ zzq 1))", ")", "\"abc"}; cmd(r.pick(bad)); } continue; }
        x -= w[3];
        if (x < w[4]) { cmd(r.p(0.6) ? "d" : "u"); continue; }
        x -= w[4];
        static const strs d = {"doc len", "searchdoc def", "doc nosuch", "b abc", "b ", "b \"main", "b \"main\"", "b \"main\" 4", "b \"\":3", "b \"a:b.fuel\":x", "b 3:", "clear x", "break", "restart", "doc", "searchdoc"};
        cmd(r.pick(d));
    }
    if (r.p(0.2)) s.items.push_back(Item("fault", {"0", "cout", "fail", num((long)r.logu(60)), num(r.p(0.5) ? 1 : 1000)}));
    return s;
}
static strs marks(const str& out) { strs r; size_t p = 0; while ((p = out.find("@@", p)) != str::npos) { size_t e = out.find('\n', p); if (e == str::npos) e = out.size(); r.push_back(out.substr(p, e - p)); p = e; } return r; }
// a session of an embedding program with the debugger attached and with streams of its own
static Verdict runP07attached(const Scenario& s) {
    Verdict v;
    strs progs; for (auto i : s.all("prog")) progs.push_back(i->s(0));
    str input; for (int i = 0; i < 40; i++) input += "line " + num(i) + "\n";
    auto run = [&](const str& cmds, bool attach) {
        return child(configOf(s), [&] {
            for (auto i : s.all("file")) sim::writeReal(i->s(0), i->s(1)); if (s.first("lib")) sim::library(); sim::writeReal("in.txt", "0123456789 some input\n");
            auto a = fuel::attachedRun(C(), progs, input, cmds, attach ? faultsFor(s, 0) : std::vector<Fault>(), attach);
            for (size_t i = 0; i < a.o.size(); i++) { sim::emit("kind " + a.o[i].kind); sim::emit("res " + q(a.o[i].str() + " " + a.o[i].canon + " " + a.o[i].where)); sim::emit("out " + q(a.out[i])); }
            sim::emit("state " + q(a.state)); sim::emit("dbg " + q(a.debugger));
            for (auto& kv : snapshotDir(".")) sim::emit("snap " + q(kv.first) + " " + q(kv.second));
        });
    };
    str cmds; bool early = false; for (auto i : s.all("cmd")) { cmds += i->s(0) + "\n"; if (i->s(0) == "exit") early = true; }
    cmds += "n\nclear\ny\nr\n"; for (int i = 0; i < 300; i++) cmds += "r\n";
    Result a = run("", false);
    if (a.status != 0) { v.fail("plain-" + a.statusText().substr(0, 7), "the program itself: " + a.statusText()); return v; }
    Result b = run(cmds, true);
    if (b.status != 0) { v.fail("run-" + b.statusText().substr(0, 7), b.statusText() + "\n" + cut(b.out)); return v; }
    auto ka = field(a.out, "kind"), kb = field(b.out, "kind"), ra = field(a.out, "res"), rb = field(b.out, "res"), oa = field(a.out, "out"), ob = field(b.out, "out");
    bool stopped = false; long stops = 0, printed = 0;
    for (size_t i = 0; i < kb.size(); i++) {
        strs want = marks(unq(oa[i])), got = marks(unq(ob[i])); printed += (long)want.size();
        stopped = kb[i] == "stop";
        if (stopped && !early) { v.fail("stopped", "program " + num((long)i) + " was stopped without an exit command"); return v; }
        size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
        if (k < got.size() || (!stopped && k < want.size())) { v.fail("output", "output " + num((long)k + 1) + " of program " + num((long)i) + " with the debugger is [" + (k < got.size() ? got[k] : str("missing")) + "], without [" + (k < want.size() ? want[k] : str("nothing")) + "]"); return v; }
        if (stopped) break;
        if (ra[i] != rb[i]) { v.fail("result", "program " + num((long)i) + " with the debugger: " + unq(rb[i]) + "\nwithout: " + unq(ra[i])); return v; }
    }
    str dbg = unq(one(b.out, "dbg")); for (size_t x = 0; (x = dbg.find("--> ", x)) != str::npos; x += 4) stops++;
    if (!stopped) {
        if (one(a.out, "state") != one(b.out, "state")) { v.fail("state", "with the debugger: " + unq(one(b.out, "state")) + "\nwithout: " + unq(one(a.out, "state"))); return v; }
        auto x = field(a.out, "snap"), y = field(b.out, "snap"); if (x != y) v.fail("files", "files differ with the debugger\n" + firstDiff(joined(x, "\n"), joined(y, "\n")));
    }
    v.nontrivial = stops > 1 && printed > 0;
    return v;
}
static Verdict runP07(const Scenario& s) {
    Verdict v;
    auto pi = s.first("prog"); if (!pi) return v;
    if (s.cfgn("attached")) return runP07attached(s);
    str script = pi->s(0), inputText = "0123456789 some input\n";
    auto files = [&] { for (auto i : s.all("file")) sim::writeReal(i->s(0), i->s(1)); if (s.first("lib")) sim::library(); sim::writeReal("in.txt", inputText); };
    auto dir = [&] { for (auto& kv : snapshotDir(".")) sim::emit("snap " + q(kv.first) + " " + q(kv.second)); };
    Result a = child(configOf(s), [&] {
        files();
        auto t = fuel::traceRun(C(), script, "main", "", false, false, {}, false);
        sim::emit("out " + q(t.output)); sim::emit("kind " + t.o.kind); sim::emit("text " + q(t.o.text)); sim::emit("res " + q(t.o.null ? "none" : t.o.type + " " + t.o.text));
        dir();
    });
    if (a.status != 0) { v.fail("plain-" + a.statusText().substr(0, 7), "the program itself: " + a.statusText()); return v; }
    str kind = one(a.out, "kind");
    str input; bool early = false; long stops = 0;
    // a break condition at line 1 also applies to typed text: not generated
    for (auto i : s.all("cmd")) { input += i->s(0) + "\n"; if (i->s(0) == "exit") early = true; }
    input += "n\nclear\ny\nr\n";
    if (kind != "ok") for (int i = 0; i < 80; i++) input += "r\n";
    Result b = child(configOf(s), [&] {
        files();
        auto o = fuel::debugRun(C(), script, "main", input, faultsFor(s, 0));
        sim::emit("out " + q(o.output)); sim::emit("esc " + q(o.escaped ? o.escapedWhat : "")); sim::emit("res " + q(o.o.null ? "none" : o.o.type + " " + o.o.text));
        dir();
    });
    if (b.status != 0) { v.fail("run-" + b.statusText().substr(0, 7), b.statusText() + "\n" + cut(b.out)); return v; }
    if (!one(b.out, "esc").empty() && unq(one(b.out, "esc")) != "") { v.fail("escape", unq(one(b.out, "esc"))); return v; }
    str plain = unq(one(a.out, "out")), dbg = unq(one(b.out, "out"));
    strs want = marks(plain);
    { str o; size_t x = 0, y; while ((y = dbg.find("restart program\n", x)) != str::npos) { size_t b = y >= 2 ? 2 : y; bool help = dbg.substr(y - b, b) == ": "; o += dbg.substr(x, y - x); o += help ? "restart_program\n" : "restart program\n"; x = y + 16; } dbg = o + dbg.substr(x); }     // the text of `help`
    // every run of the program ends with "restart program"
    std::vector<str> seg; size_t p = 0; for (;;) { size_t e = dbg.find("restart program\n", p); seg.push_back(dbg.substr(p, e == str::npos ? str::npos : e - p)); if (e == str::npos) break; p = e + 16; }
    for (size_t i = 0; i < seg.size(); i++) {
        strs got = marks(seg[i]);
        bool last = i + 1 == seg.size();
        size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
        bool complete = kind == "ok" ? !last : i == 0 && !early;      // a program that fails can be started again and left before its end
        if (k < got.size() || (complete && k < want.size())) { v.fail("output", "output " + num((long)k + 1) + " of run " + num((long)i + 1) + " under the debugger is [" + (k < got.size() ? got[k] : str("missing")) + "], without debugger [" + (k < want.size() ? want[k] : str("nothing")) + "]"); return v; }
        for (size_t x = 0; (x = seg[i].find("--> ", x)) != str::npos; x += 4) stops++;
    }
    bool done = seg.size() > 1;
    if (kind == "ok" && !early && !done) { v.fail("incomplete", "the program was not run to its end, output ends with " + q(dbg.size() > 300 ? dbg.substr(dbg.size() - 300) : dbg)); return v; }
    if (kind == "ok" && done && one(a.out, "res") != one(b.out, "res")) v.fail("result", "result under the debugger " + unq(one(b.out, "res")) + ", without " + unq(one(a.out, "res")));
    if (kind != "ok" && !early && dbg.find("Exception: EXCEPTION: " + unq(one(a.out, "text")) + "\n") == str::npos) v.fail("error", "the program fails without debugger: " + unq(one(a.out, "text")) + "\nwith debugger: " + cut(dbg.size() > 600 ? dbg.substr(dbg.size() - 600) : dbg, 700));
    if ((kind != "ok" || done) && !early) { auto x = field(a.out, "snap"), y = field(b.out, "snap"); if (x != y) v.fail("files", "files differ after the run under the debugger\n" + firstDiff(joined(x, "\n"), joined(y, "\n"))); }
    v.nontrivial = stops > 1 && !want.empty();
    return v;
}
static Reg regP07({"P07", genP07, runP07, "the program prints something and the debugger stopped at least twice",
    "debugger, tokenizer, parser, interpreter, environment, modules, file builtins", "user (command sequence), console that fails"});
