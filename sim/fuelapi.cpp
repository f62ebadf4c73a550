#include "Lisp.h"
#include "Interpreter.h"
#include "Environment.h"
#include "Exception.h"
#include "DebuggerInterface.h"
#include "fuel.h"
#include "../CppLispDebugger/Debugger.h"
#undef var
#undef null
#include "fuelapi.h"

namespace CppLisp { extern string LispUtils_LibraryPath; uint64_t Environment_GetTickCount(void); }

using namespace CppLisp;
typedef CppLisp::string fstring;
typedef std::shared_ptr<LispScope> ScopeP;

namespace fuel {
using sim::Ctx; using sim::Fault; using sim::Guard; using sim::Real;

static std::string clean(const std::string& s) { return std::string(s.data(), s.size()); }

std::string Outcome::str() const {
    if (kind == "ok") return null ? "ok <no value>" : "ok " + type + " " + text;
    return kind + " " + text + (where.empty() ? "" : " @ " + where);
}

// type tagged structure of a value: independent of how lists and variants are wrapped
static void canonTo(const object& o, std::string& r, int depth);
static void canonList(const IEnumerable<std::shared_ptr<object>>& l, std::string& r, int depth) {
    r += "(";
    bool first = true;
    for (auto& e : l) { if (!first) r += " "; first = false; if (e) canonTo(*e, r, depth + 1); else r += "-"; }
    r += ")";
}
static void quoted(const std::string& s, std::string& r) {
    r += "\"";
    if (s.size() > 400) { r += s.substr(0, 40) + "..." + std::to_string(s.size()) + ":" + std::to_string(sim::fnv(s.data(), s.size())); }
    else r += s;
    r += "\"";
}
static void canonTo(const object& o, std::string& r, int depth) {
    if (depth > 60 || r.size() > 200000) { r += "..."; return; }
    if (o.IsLispVariant()) {
        const LispVariant& v = o.ToLispVariantRef();
        if (v.IsSymbol()) { r += "y:" + (v.Value ? clean(v.Value->ToString()) : std::string("-")); return; }
        if (v.IsFunction()) { r += "F"; return; }
        if (v.IsNil()) { r += "N"; return; }
        if (v.IsLValue()) { r += "LV"; return; }
        if (v.IsError()) { r += "E"; if (v.Value) canonTo(*v.Value, r, depth + 1); return; }
        if (v.IsUndefined() && (!v.Value || v.Value->GetType() == ObjectType::__Undefined)) { r += "U"; return; }
        if (!v.Value) { r += "-"; return; }
        canonTo(*v.Value, r, depth + 1);
        return;
    }
    if (o.IsList() || o.IsIEnumerableOfObject()) { canonList(o.IsList() ? o.ToListRef() : o.ToEnumerableOfObjectRef(), r, depth); return; }
    if (o.IsBool()) { r += (bool)o ? "#t" : "#f"; return; }
    if (o.IsInt()) { r += "i" + std::to_string((int)o); return; }
    if (o.IsDouble()) { char b[40]; snprintf(b, sizeof b, "d%.10g", (double)o); r += b; return; }
    if (o.IsString()) { quoted(clean(o.ToString()), r); return; }
    if (o.IsDictionary()) {
        r += "{";
        bool first = true;
        for (auto& kv : o.ToDictionary()) { if (!first) r += " "; first = false; canonTo(object(kv.first), r, depth + 1); r += ":"; if (kv.second) canonTo(*kv.second, r, depth + 1); else r += "-"; }
        r += "}";
        return;
    }
    if (o.IsLispFunctionWrapper()) { r += "F"; return; }
    if (o.IsLispScope()) { r += "S"; return; }
    if (o.GetType() == ObjectType::__Undefined) { r += "U"; return; }
    if (o.GetType() == ObjectType::__Nil) { r += "N"; return; }
    r += "?" + std::to_string((int)o.GetType());
}

static void describe(const LispException& e, Outcome& o) {
    LispException c(e);
    o.kind = "error"; o.text = clean(c.Message);
    for (const char* k : {"ModuleName", "LineNo", "StartPos", "StopPos", "StackInfo"}) {
        auto it = c.Data.find(k);
        o.where += std::string(k) + "=" + (it != c.Data.end() && it->second ? clean(it->second->ToString()) : std::string("-")) + ";";
    }
}

template <class F> static Outcome guarded(Ctx& c, const std::vector<Fault>& f, F fn) {
    Outcome o;
    std::shared_ptr<LispVariant> r;
    sim::window(c, f);
    try {
        { Real real; r = fn(); }
        sim::windowEnd(c);
        o.kind = "ok";
        if (!r) o.null = true;
        else { Real real; std::string t, y; { Guard g; } fstring a = r->ToString(); fstring b = r->TypeString(); Guard g; o.text = clean(a); o.type = clean(b); canonTo(object(*r), o.canon, 0); }
    }
    catch (LispStopDebuggerException&) { sim::windowEnd(c); o.kind = "stop"; }
    catch (LispException& e) { sim::windowEnd(c); describe(e, o); }
    catch (LispExceptionBase& e) { sim::windowEnd(c); o.kind = "basic"; o.text = clean(e.Message); }
    catch (std::bad_alloc&) { sim::windowEnd(c); o.kind = "oom"; }
    catch (std::exception& e) { sim::windowEnd(c); o.kind = "native"; o.text = e.what(); }
    catch (...) { sim::windowEnd(c); o.kind = "other"; }
    return o;
}

struct Probe : public ILispDebugger {
    std::function<void(const CallInfo&)> rec; bool locals = false;
    virtual ~Probe() {}
    void InteractiveLoop(ScopeP, std::shared_ptr<IEnumerable<std::shared_ptr<object>>>, bool, bool, std::shared_ptr<TextWriter>, std::shared_ptr<TextReader>) override {}
    bool NeedsBreak(ScopeP scope, LispBreakpointPosition pos) override {
        bool stop;
        {
            Guard g;
            if (rec) {
                CallInfo i; i.start = (long)pos.Item1(); i.stop = (long)pos.Item2(); i.line = (long)pos.Item3();
                i.module = clean(scope->ModuleName); i.name = clean(scope->Name); i.depth = scope->GetCallStackSize();
                if (locals) for (auto& kv : *scope) { if (clean(kv.first).compare(0, 3, "###") == 0) continue; if (kv.second && kv.second->IsLispVariant() && !kv.second->ToLispVariantRef().IsFunction()) i.locals.push_back({clean(kv.first), clean(kv.second->ToString())}); }
                rec(i);
            }
            int sv = sim::guard; sim::guard = 0; stop = sim::onCall(); sim::guard = sv;
        }
        if (stop) throw LispStopDebuggerException();
        return false;
    }
    std::shared_ptr<LispVariant> DebuggerLoop(const fstring&, const fstring&, bool) override { return 0; }
    void SetInputOutputStreams(std::shared_ptr<TextWriter>, std::shared_ptr<TextReader>) override {}
};

struct Impl { ScopeP scope; std::shared_ptr<TextWriter> out; std::shared_ptr<TextReader> in; Probe probe; std::map<std::string, bool> builtin; };

Session::Session(const std::string& input, bool capture, bool stringInput, bool probe) {
    Guard g;
    p = new Impl;
    Real r;
    p->scope = LispEnvironment::CreateDefaultScope();
    p->out = std::make_shared<TextWriter>(capture);
    p->in = stringInput ? std::make_shared<TextReader>(input) : std::make_shared<TextReader>();
    p->scope->Output = p->out;
    p->scope->Input = p->in;
    if (probe) p->scope->Debugger = &p->probe;
    Guard g2;
    for (auto& kv : *p->scope) p->builtin[clean(kv.first)] = true;
}
Session::~Session() { { Real r; p->scope->Debugger = 0; p->scope.reset(); p->out.reset(); p->in.reset(); } delete p; }

Outcome Session::eval(Ctx& c, const std::string& code, const std::vector<Fault>& f, const std::string& module, bool tracing) {
    Guard g0;
    fstring s(code), m(module);
    if (wantCalls) p->probe.rec = onCall; else p->probe.rec = nullptr;
    sim::guard--;   // balance the guard above: `guarded` expects the default level
    Outcome o;
    try { o = guarded(c, f, [&] { return implicit ? Lisp::Eval(s, p->scope, m, tracing) : Lisp::Eval(s, p->scope, m, tracing, p->out, p->in); }); } catch (...) { sim::guard++; throw; }
    sim::guard++;
    return o;
}
void Session::attach(bool on) { Guard g; p->scope->Debugger = on ? &p->probe : 0; }
std::string Session::output() { Guard g; return clean(p->out->GetContent()); }
std::vector<std::pair<std::string, std::string>> Session::vars() {
    Guard g;
    std::vector<std::pair<std::string, std::string>> r;
    for (auto& kv : *p->scope) {
        std::string k = clean(kv.first);
        if (p->builtin.count(k) || k.compare(0, 3, "###") == 0) continue;
        std::string v = "<null>";
        if (kv.second) v = clean(kv.second->ToString());
        r.push_back({k, v});
    }
    return r;
}
static std::vector<std::string> metaKeys(ScopeP s, const char* name) {
    Guard g;
    std::vector<std::string> r;
    auto it = s->find(name);
    if (it != s->end() && it->second && it->second->IsLispScope()) for (auto& kv : *it->second->GetLispScopeRef()) r.push_back(clean(kv.first));
    return r;
}
std::vector<std::string> Session::modules() { return metaKeys(p->scope, "###modules###"); }
std::vector<std::string> Session::macros() { return metaKeys(p->scope, "###macros###"); }
std::string Session::lookup(const std::string& name) {
    Guard g;
    auto it = p->scope->find(name);
    if (it == p->scope->end()) return "";
    std::string r;
    if (it->second) canonTo(*it->second, r, 0); else r = "-";
    return r;
}
std::vector<std::pair<std::string, std::string>> Session::state() {
    Guard g;
    std::vector<std::pair<std::string, std::string>> r;
    for (auto& kv : *p->scope) {
        std::string k = clean(kv.first), v;
        if (p->builtin.count(k) || k.compare(0, 3, "###") == 0) continue;
        if (kv.second) canonTo(*kv.second, v, 0); else v = "-";
        r.push_back({k, v});
    }
    return r;
}
std::string Session::flags() {
    Guard g;
    auto& s = *p->scope;
    return std::string("return=") + (s.IsInReturn ? "1" : "0") + " eval=" + (s.IsInEval ? "1" : "0") + " lvalue=" + (s.NeedsLValue ? "1" : "0") + " tracing=" + (s.Tracing ? "1" : "0") + " next=" + (s.Next ? "1" : "0") + " module=" + clean(s.ModuleName);
}

static Safe finish(Safe s, std::shared_ptr<TextWriter> out) { Guard g; if (out) s.output = clean(out->GetContent()); return s; }

template <class F> static Safe safely(Ctx& c, const std::vector<Fault>& f, std::shared_ptr<TextWriter> out, F fn) {
    Safe s;
    std::shared_ptr<LispVariant> r;
    sim::window(c, f);
    bool done = false;
    try { { Real real; r = fn(); } done = true; }
    catch (LispStopDebuggerException&) { s.escapedWhat = "LispStopDebuggerException"; }
    catch (LispExceptionBase& e) { sim::windowEnd(c); s.escapedWhat = "script error: " + clean(e.Message); }
    catch (std::bad_alloc&) { s.escapedWhat = "std::bad_alloc"; }
    catch (std::exception& e) { s.escapedWhat = std::string("native: ") + e.what(); }
    catch (...) { s.escapedWhat = "unknown exception"; }
    sim::windowEnd(c);
    s.escaped = !done;
    if (done) {
        s.o.kind = "ok";
        if (!r) s.o.null = true;
        else { Real real; fstring a = r->ToString(), b = r->TypeString(); bool e = r->IsError(); Guard g; s.o.text = clean(a); s.o.type = clean(b); s.isError = e; }
    }
    return finish(s, out);
}

Safe safeEval(Ctx& c, const std::string& code, const std::string& module, bool verbose, bool tracing, const std::string& input, const std::vector<Fault>& f, bool expandOnly, bool nullStreams) {
    fstring s(code), m(module);
    std::shared_ptr<TextWriter> out; std::shared_ptr<TextReader> in;
    if (!nullStreams) { Real r; out = std::make_shared<TextWriter>(true); in = std::make_shared<TextReader>(input); }
    return safely(c, f, out, [&] { return Lisp::SaveEval(s, m, verbose, tracing, out, in, expandOnly); });
}
Safe mainRun(Ctx& c, const std::vector<std::string>& args, const std::string& input, const std::vector<Fault>& f, bool cinInput) {
    std::vector<fstring> a; for (auto& x : args) a.push_back(fstring(x));
    std::shared_ptr<TextWriter> out; std::shared_ptr<TextReader> in;
    { Real r; out = std::make_shared<TextWriter>(true); in = cinInput ? std::make_shared<TextReader>() : std::make_shared<TextReader>(input); }
    std::shared_ptr<LispVariant> none; { Real q; none = std::make_shared<LispVariant>(); }
    Safe s = safely(c, f, out, [&] { Fuel::MainExtended(std::move(a), out, in); return none; });
    return s;
}
Safe debugRun(Ctx& c, const std::string& script, const std::string& module, const std::string& commands, const std::vector<Fault>& f, bool tracing, bool cinInput) {
    fstring s(script), m(module);
    std::shared_ptr<TextWriter> out; std::shared_ptr<TextReader> in; std::shared_ptr<ILispDebugger> dbg;
    { Real r; out = std::make_shared<TextWriter>(true); in = cinInput ? std::make_shared<TextReader>() : std::make_shared<TextReader>(commands); dbg = std::make_shared<LispDebugger>(); dbg->SetInputOutputStreams(out, in); }
    Safe r = safely(c, f, out, [&] { return dbg->DebuggerLoop(s, m, tracing); });
    { Real q; dbg.reset(); }
    return r;
}
Safe shellRun(Ctx& c, const std::string& commands, const std::vector<Fault>& f, bool cinInput, bool tracing) {
    std::shared_ptr<TextWriter> out; std::shared_ptr<TextReader> in; std::shared_ptr<ILispDebugger> dbg;
    { Real r; out = std::make_shared<TextWriter>(true); in = cinInput ? std::make_shared<TextReader>() : std::make_shared<TextReader>(commands); dbg = std::make_shared<LispDebugger>(); dbg->SetInputOutputStreams(out, in); }
    std::shared_ptr<LispVariant> none; { Real q; none = std::make_shared<LispVariant>(); }
    return safely(c, f, out, [&] { dbg->InteractiveLoop(0, 0, true, tracing, out, in); return none; });
}
Traced traceRun(Ctx& c, const std::string& script, const std::string& module, const std::string& input, bool tracing, bool probe, const std::vector<Fault>& f, bool locals) {
    Traced t;
    Session s(input, true, true, probe);
    if (probe) { s.wantCalls = true; s.p->probe.locals = locals; s.onCall = [&](const CallInfo& i) { t.calls.push_back(i); }; }
    t.o = s.eval(c, script, f, module, tracing);
    t.output = s.output();
    return t;
}
Attached attachedRun(Ctx& c, const std::vector<std::string>& scripts, const std::string& input, const std::string& commands, const std::vector<Fault>& f, bool attach) {
    Attached a;
    std::shared_ptr<TextWriter> out; std::shared_ptr<TextReader> in; std::shared_ptr<LispDebugger> dbg;
    Session s(input, true, true, false);
    if (attach) { Real r; out = std::make_shared<TextWriter>(true); in = std::make_shared<TextReader>(commands); dbg = std::make_shared<LispDebugger>(); dbg->SetInputOutputStreams(out, in); s.p->scope->Debugger = dbg.get(); }
    size_t seen = 0;
    for (auto& x : scripts) {
        a.o.push_back(s.eval(c, x, f, "main", false));
        std::string all = s.output(); a.out.push_back(all.substr(std::min(seen, all.size()))); seen = all.size();
        if (a.o.back().kind == "stop") break;
    }
    for (auto& kv : s.state()) if (kv.first != "zzq") a.state += kv.first + "=" + kv.second + ";";
    for (auto& m : s.modules()) a.state += " M:" + m; for (auto& m : s.macros()) a.state += " X:" + m;
    a.state += " " + s.flags();
    if (attach) { { Guard g; a.debugger = clean(out->GetContent()); } Real r; s.p->scope->Debugger = 0; dbg.reset(); out.reset(); in.reset(); }
    return a;
}
void setLibraryPath(const std::string& p) { Guard g; LispUtils_LibraryPath = p; }
uint64_t tickCount() { Real r; return Environment_GetTickCount(); }
} // namespace fuel
