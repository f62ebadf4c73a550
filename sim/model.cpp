#include "model.h"
#include "world.h"
#include <cstdlib>
#include <cmath>
#include <set>
namespace model {
static void skip(const std::string& t, size_t& p, long& line) {
    while (p < t.size()) {
        if (t[p] == '\n') { line++; p++; }
        else if (isspace((unsigned char)t[p])) p++;
        else if (t[p] == ';') { while (p < t.size() && t[p] != '\n') p++; }
        else break;
    }
}
static bool one(const std::string& t, size_t& p, Node& n, long& line) {
    skip(t, p, line);
    if (p >= t.size()) return false;
    n.line = line; n.start = (long)p;
    if (t[p] == '(') {
        p++; n.k = Node::List;
        for (;;) { skip(t, p, line); if (p >= t.size()) return false; if (t[p] == ')') { p++; n.stop = (long)p; return true; } Node c; if (!one(t, p, c, line)) return false; n.c.push_back(c); }
    }
    if (t[p] == ')') return false;
    if (t[p] == '\'') { p++; Node c; if (!one(t, p, c, line)) return false; n.k = Node::List; Node q; q.k = Node::Sym; q.s = "quote"; q.line = -1; n.c = {q, c}; return true; }
    if (t[p] == '"') {
        p++; n.k = Node::Str;
        while (p < t.size() && t[p] != '"') { char ch = t[p++]; if (ch == '\n') line++; if (ch == '\\' && p < t.size()) { char e = t[p++]; ch = e == 'n' ? '\n' : e == 't' ? '\t' : e == 'r' ? '\r' : e; } n.s += ch; }
        if (p >= t.size()) return false;
        p++; n.stop = (long)p; return true;
    }
    size_t b = p;
    while (p < t.size() && !isspace((unsigned char)t[p]) && t[p] != '(' && t[p] != ')' && t[p] != '"') p++;
    std::string w = t.substr(b, p - b);
    n.stop = (long)p;
    if (w == "#t" || w == "#f") { n.k = Node::Bool; n.i = w == "#t"; return true; }
    size_t i = (w[0] == '-' && w.size() > 1) ? 1 : 0; bool num = true;
    for (; i < w.size(); i++) if (!isdigit((unsigned char)w[i])) num = false;
    if (num) { n.k = Node::Int; n.i = atol(w.c_str()); return true; }
    { size_t i = w[0] == '-' ? 1 : 0, dots = 0, digits = 0; bool ok = i < w.size() && isdigit((unsigned char)w[i]); for (; i < w.size(); i++) { if (w[i] == '.') dots++; else if (isdigit((unsigned char)w[i])) digits++; else ok = false; } if (ok && dots == 1 && digits > 1) { n.k = Node::Dbl; n.x = atof(w.c_str()); return true; } }
    n.k = Node::Sym; n.s = w; return true;
}
bool parse(const std::string& text, Node& out) {
    size_t p = 0; long line = 1;
    out = Node(); Node d; d.k = Node::Sym; d.s = "do"; d.line = 1; d.start = -3; d.stop = -1; out.c.push_back(d); out.line = 1;
    for (;;) { skip(text, p, line); if (p >= text.size()) return true; Node n; if (!one(text, p, n, line)) return false; out.c.push_back(n); }
}
std::string text(const Value& v) {
    switch (v.k) {
        case Value::Bool: return v.i ? "#t" : "#f";
        case Value::Int: return std::to_string(v.i);
        case Value::Str: return v.s;
        case Value::Dbl: return std::to_string(v.x);
        case Value::Sym: return v.s;
        case Value::Nil: return "NIL";
        case Value::Undef: return "<undefined>";
        case Value::List: { std::string r; for (auto& e : *v.l) { if (!r.empty()) r += " "; r += e.k == Value::Str ? "\"" + e.s + "\"" : text(e); if (r.size() > 20000) throw Unsupported{"long text"}; } return "(" + r + ")"; }
        case Value::Dict: { std::string r; for (auto& kv : *v.d) { if (!r.empty()) r += ", "; const Value& e = kv.second.second; const Value& k = kv.second.first; if (e.k != Value::Int && e.k != Value::Str && e.k != Value::Bool && e.k != Value::Dbl) throw Unsupported{"text of a dictionary"}; r += "[" + (k.k == Value::Str ? "\"" + k.s + "\"" : text(k)) + " : " + (e.k == Value::Str ? "\"" + e.s + "\"" : text(e)) + "]"; } return "{ " + r + " }"; }
        default: throw Unsupported{"text of a value"};
    }
}
static std::string codeText(const Node& n) {
    switch (n.k) {
        case Node::Sym: return "y:" + n.s;
        case Node::Int: return "i" + std::to_string(n.i);
        case Node::Bool: return n.i ? "#t" : "#f";
        case Node::Str: return "\"" + n.s + "\"";
        case Node::Dbl: { char b[40]; snprintf(b, sizeof b, "d%.10g", n.x); return b; }
        default: { std::string r = "("; for (size_t i = 0; i < n.c.size(); i++) { if (i) r += " "; r += codeText(n.c[i]); } return r + ")"; }
    }
}
std::string canon(const Value& v) {
    switch (v.k) {
        case Value::None: return "";
        case Value::Undef: return "U";
        case Value::Nil: return "N";
        case Value::Bool: return v.i ? "#t" : "#f";
        case Value::Int: return "i" + std::to_string(v.i);
        case Value::Str: if (v.s.size() > 400) return "\"" + v.s.substr(0, 40) + "..." + std::to_string(v.s.size()) + ":" + std::to_string(sim::fnv(v.s.data(), v.s.size())) + "\""; return "\"" + v.s + "\"";
        case Value::List: { std::string r = "("; for (size_t i = 0; i < v.l->size(); i++) { if (i) r += " "; r += canon((*v.l)[i]); } return r + ")"; }
        case Value::Dict: { std::string r = "{"; bool first = true; for (auto& kv : *v.d) { if (!first) r += " "; first = false; r += canon(kv.second.first) + ":" + canon(kv.second.second); } return r + "}"; }
        case Value::Fn: case Value::Builtin: return "F";
        case Value::Dbl: { char b[40]; snprintf(b, sizeof b, "d%.10g", v.x); return b; }
        case Value::Sym: return "y:" + v.s;
        case Value::Code: return codeText(*v.code);
        default: throw Unsupported{"canon"};
    }
}
Value Machine::mkInt(long i) { if (i > 1000000000L || i < -1000000000L) throw Unsupported{"big number"}; Value v; v.k = Value::Int; v.i = i; return v; }
Value Machine::mkDbl(double x) { if (!(x < 1e9 && x > -1e9)) throw Unsupported{"big number"}; Value v; v.k = Value::Dbl; v.x = x; return v; }
void Machine::effect(const std::string& pending) { if (stopEffects >= 0 && effects == stopEffects) throw Cut{pending}; effects++; }

static const std::set<std::string> kSpecial = {"def", "gdef", "setf", "defn", "gdefn", "lambda", "fn", "if", "while", "do", "begin", "and", "or", "&&", "||", "quote", "define-macro-eval", "define-macro", "rval"};
static const std::set<std::string> kBuiltin = {"+", "-", "*", "<", ">", "<=", ">=", "=", "==", "equal", "!=", "not", "!", "list", "first", "car", "last", "nth", "rest", "cdr", "cons", "append", "reverse", "len", "map", "reduce",
    "push", "pop", "make-dict", "dict-set", "dict-get", "dict-remove", "dict-keys", "dict-clear", "dict-contains-key", "dict-contains-value", "apply", "eval", "evalstr", "print", "println", "return", "argscount", "arg", "args", "nop", "readline", "import", "need-l-value", "delvar", "add", "sub", "mul", "/", "div", "%", "mod", "<<", ">>", "&", "|", "^", "~", "slice", "search", "replace", "trim", "upper-case", "lower-case", "str", "string", "typestr", "int", "float", "break", "sym"};

bool Machine::lookup(const std::string& name, std::shared_ptr<Frame> f, Value& v) {
    auto it = f->v.find(name);
    if (it != f->v.end()) { v = it->second; return true; }
    it = global->v.find(name);
    if (it != global->v.end()) { v = it->second; return true; }
    if (kSpecial.count(name) || kBuiltin.count(name)) { v = mk(Value::Builtin); v.s = name; return true; }
    for (auto c = f->closure; c; c = c->closure) { it = c->v.find(name); if (it != c->v.end()) { v = it->second; return true; } }
    for (auto& m : modules) { it = m.second->v.find(name); if (it != m.second->v.end()) { v = it->second; return true; } }
    return false;
}
static bool reaches(const Value& v, const void* target, int depth);
static bool truth(const Value& v) { if (v.k == Value::Bool) return v.i != 0; throw Unsupported{"truth of a non bool"}; }

static Node subst(const Node& n, const std::map<std::string, Node>& m) {
    if (n.k == Node::Sym) { auto it = m.find(n.s); return it == m.end() ? n : it->second; }
    Node r = n;
    for (auto& c : r.c) c = subst(c, m);
    return r;
}
struct InModule { Machine& m; std::string old; InModule(Machine& m, const std::string& n) : m(m), old(m.module) { m.module = n; } ~InModule() { m.module = old; } };
Value Machine::eval(const Node& n, std::shared_ptr<Frame> f) {
    std::string mod = module;
    try { return evalNode(n, f); }
    catch (ScriptError& e) { if (e.where.empty() && n.k == Node::List && !n.c.empty()) { e.where = mod + " line " + std::to_string(n.c[0].line); failDepth = stack.size(); } throw; }
}
Value Machine::evalNode(const Node& n, std::shared_ptr<Frame> f) {
    if (++steps > 60000) throw Unsupported{"too long"};
    switch (n.k) {
        case Node::Int: return mkInt(n.i);
        case Node::Str: return mkStr(n.s);
        case Node::Bool: return mkBool(n.i != 0);
        case Node::Dbl: return mkDbl(n.x);
        case Node::Sym: { Value v; if (lookup(n.s, f, v)) return v; v.k = Value::Sym; v.s = n.s; return v; }
        default: break;
    }
    if (n.c.empty()) return mk(Value::Nil);
    const Node& h = n.c[0];
    if (h.k != Node::Sym) throw ScriptError{"function not found"};
    auto mc = macros.find(h.s);
    if (mc != macros.end()) {
        std::map<std::string, Node> m;
        if (n.c.size() - 1 < mc->second.params.size()) throw ScriptError{"bad argument count in macro"};
        for (size_t i = 0; i < mc->second.params.size(); i++) m[mc->second.params[i]] = n.c[i + 1];
        return eval(subst(mc->second.body, m), f);
    }
    if (h.s == "eval" && n.c.size() == 2 && n.c[1].k == Node::List && n.c[1].c.size() == 2 && n.c[1].c[0].s == "quote" && n.c[1].c[1].k == Node::List) {
        for (auto m : {&n.c[1], &n}) { calls++; if (m->c[0].line >= 0 && !stack.empty()) stack.back().line = m->c[0].line; if (onCall) onCall(*m, f); if (stopCall >= 0 && calls == stopCall) throw Cut{""}; }
        return eval(n.c[1].c[1], f);
    }
    Value fn;
    if (!lookup(h.s, f, fn)) throw ScriptError{"function " + h.s + " not found"};
    if (fn.k != Value::Fn && fn.k != Value::Builtin) throw Unsupported{"call of a value"};
    return call(n, f, h.s, fn);
}
Value Machine::call(const Node& n, std::shared_ptr<Frame> f, const std::string&, const Value& fn) {
    auto counted = [&] { calls++; if (n.c[0].line >= 0 && !stack.empty()) stack.back().line = n.c[0].line; if (onCall) onCall(n, f); if (stopCall >= 0 && calls == stopCall) throw Cut{""}; };
    if (fn.k == Value::Builtin && kSpecial.count(fn.s)) { counted(); return special(fn.s, n, f); }
    std::vector<Value> a(n.c.size() - 1);
    for (size_t i = 1; i < n.c.size(); i++) if (n.c[i].k == Node::Sym) a[i - 1] = eval(n.c[i], f);     // symbols are resolved first
    for (size_t i = 1; i < n.c.size(); i++) if (n.c[i].k != Node::Sym) a[i - 1] = arg(eval(n.c[i], f));
    counted();
    if (fn.k == Value::Fn) return invoke(fn, a);
    return builtin(fn.s, a, f);
}
Value Machine::invoke(const Value& fn, std::vector<Value> a) {
    if (fn.k != Value::Fn) throw Unsupported{"call of a non function"};
    if (depth > 60) throw Unsupported{"deep recursion"};
    auto c = std::make_shared<Frame>();
    while (a.size() < fn.f->params.size()) a.push_back(mk(Value::Nil));
    for (size_t i = 0; i < fn.f->params.size(); i++) c->v[fn.f->params[i]] = a[i];
    if (a.size() > fn.f->params.size()) c->v["_additionalArgs"] = mkList(std::vector<Value>(a.begin() + (long)fn.f->params.size(), a.end()));
    c->args = a; c->isFn = true; c->closure = fn.f->env;
    depth++; stack.push_back({c, fn.f->module, fn.f->name});
    InModule im(*this, fn.f->module);
    Value r;
    try { r = eval(fn.f->body, c); } catch (...) { depth--; stack.pop_back(); throw; }
    depth--; stack.pop_back();
    return r;
}
static void assign(Machine& m, std::shared_ptr<Frame> f, const std::string& name, const Value& v) {
    auto it = f->v.find(name);
    if (it != f->v.end()) { m.effect(); f->v[name] = v; return; }
    for (auto c = f->closure; c; c = c->closure) if (c->v.count(name)) { m.effect(); c->v[name] = v; return; }
    if (m.global->v.count(name)) { m.effect(); m.global->v[name] = v; return; }
    if (kBuiltin.count(name) || kSpecial.count(name)) throw Unsupported{"assignment to a builtin"};
    throw ScriptError{"symbol not found"};
}
static void nargs(const Node& n, size_t c) { if (n.c.size() - 1 != c) throw ScriptError{"bad argument count"}; }
Value Machine::special(const std::string& s, const Node& n, std::shared_ptr<Frame> f) {
    if (s == "def" || s == "gdef") {
        nargs(n, 2);
        if (n.c[1].k != Node::Sym) throw Unsupported{"def of a non symbol"};
        Value v = arg(eval(n.c[2], f));
        if (v.k == Value::Sym) throw Unsupported{"variable that holds a name"};
        effect();
        (s == "def" ? f : global)->v[n.c[1].s] = v;
        return v;
    }
    if (s == "setf") {
        nargs(n, 2);
        if (n.c[1].k == Node::Sym) { Value v = arg(eval(n.c[2], f)); if (v.k == Value::Sym) throw Unsupported{"variable that holds a name"}; assign(*this, f, n.c[1].s, v); return v; }
        const Node& t = n.c[1];
        if (t.k != Node::List || t.c.empty() || t.c[0].k != Node::Sym) throw Unsupported{"setf target"};
        const std::string& h = t.c[0].s;
        if (!(h == "nth" || h == "first" || h == "last") || t.c.size() != (h == "nth" ? 3u : 2u)) throw Unsupported{"setf target"};
        long idx = 0;
        if (h == "nth") { if (t.c[1].k != Node::Int && t.c[1].k != Node::Sym) throw Unsupported{"setf index"}; Value iv = eval(t.c[1], f); if (iv.k != Value::Int) throw Unsupported{"setf index type"}; idx = iv.i; }
        if (t.c.back().k != Node::Sym) throw Unsupported{"setf container"};
        Value l = eval(t.c.back(), f);
        calls++; if (!stack.empty()) stack.back().line = t.c[0].line; if (onCall) onCall(t, f); if (stopCall >= 0 && calls == stopCall) throw Cut{""};
        if (l.k != Value::List) throw Unsupported{"setf of a non list"};
        Value v = arg(eval(n.c[2], f));
        if (h == "last") idx = (long)l.l->size() - 1;
        if (idx < 0 || idx >= (long)l.l->size()) throw ScriptError{"index out of range"};
        if (reaches(v, l.l.get(), 0)) throw Unsupported{"cyclic data"};
        effect();
        (*l.l)[(size_t)idx] = v;
        return v;
    }
    if (s == "defn" || s == "gdefn") {
        nargs(n, 3);
        if (n.c[1].k != Node::Sym || n.c[2].k != Node::List || n.c[3].k != Node::List) throw Unsupported{"defn"};
        Value v = mk(Value::Fn); v.f = std::make_shared<Closure>(); v.f->module = module; v.f->name = n.c[1].s;
        for (auto& p : n.c[2].c) v.f->params.push_back(p.s);
        v.f->body = n.c[3]; v.f->env = f;
        effect();
        (s == "defn" ? f : global)->v[n.c[1].s] = v;
        return v;
    }
    if (s == "lambda" || s == "fn") {
        if (n.c.size() < 3 || n.c[1].k != Node::List || n.c[2].k != Node::List) throw Unsupported{"lambda"};
        Value v = mk(Value::Fn); v.f = std::make_shared<Closure>(); v.f->module = module;
        for (auto& p : n.c[1].c) v.f->params.push_back(p.s);
        v.f->body = n.c[2]; v.f->env = f;
        return v;
    }
    if (s == "if") {
        if (n.c.size() != 3 && n.c.size() != 4) throw ScriptError{"bad argument count"};
        bool c = truth(eval(n.c[1], f));
        if (c) return eval(n.c[2], f);
        return n.c.size() == 4 ? eval(n.c[3], f) : Value();
    }
    if (s == "while") {
        nargs(n, 2);
        Value r = mk(Value::Undef);
        bool c = truth(eval(n.c[1], f));
        while (c) { r = eval(n.c[2], f); if (f->inReturn) break; c = truth(eval(n.c[1], f)); }
        return r;
    }
    if (s == "do" || s == "begin") {
        Value r = mk(Value::Undef);
        for (size_t i = 1; i < n.c.size(); i++) {
            if (n.c[i].k != Node::List) throw ScriptError{"list expected in do"};
            r = eval(n.c[i], f);
            if (f->inReturn) break;
        }
        return r;
    }
    if (s == "and" || s == "&&") { for (size_t i = 1; i < n.c.size(); i++) if (!truth(eval(n.c[i], f))) return mkBool(false); return mkBool(true); }
    if (s == "or" || s == "||") { for (size_t i = 1; i < n.c.size(); i++) if (truth(eval(n.c[i], f))) return mkBool(true); return mkBool(false); }
    if (s == "quote") {
        nargs(n, 1);
        const Node& q = n.c[1];
        if (q.k != Node::List) throw Unsupported{"quoted symbol"};
        for (auto& c : q.c) if (c.k == Node::List || c.k == Node::Sym) { Value v = mk(Value::Code); v.code = std::make_shared<Node>(q); return v; }
        std::vector<Value> e;
        for (auto& c : q.c) { if (c.k == Node::List || c.k == Node::Sym) throw Unsupported{"quoted nested list"}; e.push_back(eval(c, f)); }
        return mkList(e);
    }
    if (s == "rval") { nargs(n, 1); if (n.c[1].k != Node::List && n.c[1].k != Node::Sym) throw Unsupported{"rval"}; return eval(n.c[1], f); }
    if (s == "define-macro-eval" || s == "define-macro") {
        nargs(n, 3);
        Macro m; for (auto& p : n.c[2].c) m.params.push_back(p.s);
        m.body = n.c[3];
        effect();
        macros[n.c[1].s] = m;
        return Value();
    }
    throw Unsupported{s};
}
static void need(std::vector<Value>& a, size_t lo, size_t hi) { if (a.size() < lo || a.size() > hi) throw ScriptError{"bad argument count"}; }
static long intOf(const Value& v) { if (v.k == Value::Sym || v.k == Value::List) throw ScriptError{"int expected"}; if (v.k != Value::Int) throw Unsupported{"int expected"}; return v.i; }
static std::string key(const Value& k) { char b[40]; if (k.k == Value::Int) { snprintf(b, sizeof b, "%020ld", k.i + 10000000000L); return b; } if (k.k == Value::Str) return k.s; throw Unsupported{"key"}; }
static bool scalar(const Value& v) { return v.k == Value::Bool || v.k == Value::Int || v.k == Value::Str || v.k == Value::Dbl; }
static bool same(const Value& a, const Value& b) {
    if (a.k == Value::Sym || b.k == Value::Sym) return a.k == b.k && a.s == b.s;
    if ((a.k == Value::Dbl && (b.k == Value::Dbl || b.k == Value::Int)) || (b.k == Value::Dbl && a.k == Value::Int)) { double d = (a.k == Value::Dbl ? a.x : (double)a.i) - (b.k == Value::Dbl ? b.x : (double)b.i); if (d < 0) d = -d; if (d > 1e-10 && d < 1e-6) throw Unsupported{"nearly equal"}; return d < 1e-8; }
    if (!scalar(a) || !scalar(b) || a.k != b.k) throw Unsupported{"comparison"};
    return a.k == Value::Str ? a.s == b.s : a.i == b.i;
}
static const std::vector<Value>& lst(const Value& v) { if (v.k != Value::List) throw Unsupported{"list expected"}; return *v.l; }
static std::map<std::string, std::pair<Value, Value>>& dict(const Value& v) { if (v.k == Value::Dict) return *v.d; if (scalar(v)) throw ScriptError{"no dictionary"}; throw Unsupported{"dictionary expected"}; }

static bool reaches(const Value& v, const void* target, int depth) {
    if (depth > 40) return true;
    if (v.k == Value::List) { if (v.l.get() == target) return true; for (auto& x : *v.l) if (reaches(x, target, depth + 1)) return true; }
    if (v.k == Value::Dict) { if (v.d.get() == target) return true; for (auto& x : *v.d) if (reaches(x.second.second, target, depth + 1)) return true; }
    return false;
}
static void noCycle(const Value& v, const void* target) { if (reaches(v, target, 0)) throw Unsupported{"cyclic data"}; }

Value Machine::builtin(const std::string& s, std::vector<Value>& a, std::shared_ptr<Frame> f) {
    if (s == "+" || s == "*" || s == "-" || s == "add" || s == "mul" || s == "sub" || s == "string" || s == "/" || s == "div" || s == "%" || s == "mod") {
        char op = s == "add" || s == "string" ? '+' : s == "sub" ? '-' : s == "mul" ? '*' : s == "div" ? '/' : s == "mod" ? '%' : s[0];
        if (a.empty()) throw Unsupported{"no operands"};
        if (a.size() < 2 && op != '+' && op != '*') throw Unsupported{"one operand"};
        if (op == '%' && a.size() != 2) throw Unsupported{"operands"};
        Value r = a[0];
        if (!scalar(r) || r.k == Value::Bool) throw Unsupported{"operand"};
        for (size_t i = 1; i < a.size(); i++) {
            const Value& e = a[i];
            if (r.k == Value::Str || (op == '+' && e.k == Value::Str)) { if (op != '+' || !(e.k == Value::Str || e.k == Value::Int || e.k == Value::Dbl)) throw Unsupported{"operand"}; r = mkStr(text(r) + text(e)); if (r.s.size() > 20000) throw Unsupported{"long text"}; }
            else if (r.k == Value::Dbl || e.k == Value::Dbl) {
                if (e.k != Value::Dbl && e.k != Value::Int) throw Unsupported{"operand"};
                double x = r.k == Value::Dbl ? r.x : (double)r.i, y = e.k == Value::Dbl ? e.x : (double)e.i;
                if ((op == '/' || op == '%') && y == 0) throw Unsupported{"division"};
                r = mkDbl(op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : op == '/' ? x / y : fmod(x, y));
            }
            else { long x = intOf(e); if ((op == '/' || op == '%') && x == 0) throw ScriptError{"division by zero", "-"}; r = mkInt(op == '+' ? r.i + x : op == '*' ? r.i * x : op == '-' ? r.i - x : op == '/' ? r.i / x : r.i % x); }
        }
        return r;
    }
    if (s == "<<" || s == ">>" || s == "&" || s == "|" || s == "^") { need(a, 2, 2); long x = intOf(a[0]), y = intOf(a[1]); if (s[0] == '<' || s[0] == '>') { if (x < 0 || y < 0 || y > 20 || x > 500) throw Unsupported{"shift"}; return mkInt(s[0] == '<' ? x << y : x >> y); } return mkInt(s == "&" ? x & y : s == "|" ? x | y : x ^ y); }
    if (s == "~") { need(a, 1, 1); return mkInt(~intOf(a[0])); }
    if (s == "<" || s == ">" || s == "<=" || s == ">=") {
        need(a, 2, 2);
        if (a[0].k == Value::Dbl || a[1].k == Value::Dbl) { for (auto& e : a) if (e.k != Value::Dbl && e.k != Value::Int) throw Unsupported{"comparison"}; double x = a[0].k == Value::Dbl ? a[0].x : (double)a[0].i, y = a[1].k == Value::Dbl ? a[1].x : (double)a[1].i; return mkBool(s == "<" ? x < y : s == ">" ? x > y : s == "<=" ? x <= y : x >= y); }
        if (a[0].k == Value::Str && a[1].k == Value::Str) { int c = a[0].s.compare(a[1].s); return mkBool(s == "<" ? c < 0 : s == ">" ? c > 0 : s == "<=" ? c <= 0 : c >= 0); }
        if ((a[0].k == Value::Sym || a[1].k == Value::Sym) && a[0].k != Value::Int && a[1].k != Value::Int) throw Unsupported{"comparison of names"};
        long x = intOf(a[0]), y = intOf(a[1]);
        return mkBool(s == "<" ? x < y : s == ">" ? x > y : s == "<=" ? x <= y : x >= y);
    }
    if (s == "slice") { need(a, 3, 3); if (a[0].k != Value::Str) throw Unsupported{"slice"}; long b = intOf(a[1]), n = intOf(a[2]); if (b < 0 || b > (long)a[0].s.size()) throw Unsupported{"position outside of the text"}; return mkStr(n < 0 ? a[0].s.substr((size_t)b) : a[0].s.substr((size_t)b, (size_t)n)); }
    if (s == "search") { need(a, 2, 2); if (a[0].k != Value::Str || a[1].k != Value::Str) throw Unsupported{"search"}; size_t p = a[1].s.find(a[0].s); return mkInt(p == std::string::npos ? -1 : (long)p); }
    if (s == "replace") { need(a, 3, 3); for (auto& e : a) if (e.k != Value::Str) throw Unsupported{"replace"}; if (a[1].s.empty()) throw Unsupported{"replace of nothing"}; std::string r, t = a[0].s; size_t p = 0, q; while ((q = t.find(a[1].s, p)) != std::string::npos) { r += t.substr(p, q - p) + a[2].s; p = q + a[1].s.size(); } return mkStr(r + t.substr(p)); }
    if (s == "trim" || s == "upper-case" || s == "lower-case") { need(a, 1, 1); if (a[0].k != Value::Str) throw Unsupported{"text expected"}; std::string t = a[0].s; if (s == "trim") { size_t b = t.find_first_not_of(' '), e = t.find_last_not_of(' '); for (char c : t) if (c != ' ' && isspace((unsigned char)c)) throw Unsupported{"trim"}; return mkStr(b == std::string::npos ? "" : t.substr(b, e - b + 1)); } for (char& c : t) c = (char)(s[0] == 'u' ? toupper(c) : tolower(c)); return mkStr(t); }
    if (s == "str") { need(a, 1, 1); return mkStr(text(a[0])); }
    if (s == "typestr") { need(a, 1, 1); switch (a[0].k) { case Value::Int: return mkStr("Int"); case Value::Dbl: return mkStr("Double"); case Value::Str: return mkStr("String"); case Value::Bool: return mkStr("Bool"); case Value::List: case Value::Code: return mkStr("List"); case Value::Dict: return mkStr("NativeDictionary"); case Value::Fn: case Value::Builtin: return mkStr("Function"); case Value::Sym: return mkStr("Symbol"); case Value::Nil: return mkStr("Nil"); case Value::Undef: return mkStr("Undefined"); default: throw Unsupported{"type"}; } }
    if (s == "int") { need(a, 1, 1); if (a[0].k == Value::Int) return a[0]; if (a[0].k == Value::Dbl) return mkInt((long)a[0].x); if (a[0].k == Value::Bool) return mkInt(a[0].i); throw Unsupported{"int"}; }
    if (s == "float") { need(a, 1, 1); if (a[0].k == Value::Int) return mkDbl((double)a[0].i); if (a[0].k == Value::Dbl) return a[0]; throw Unsupported{"float"}; }
    if (s == "=" || s == "==" || s == "equal") { need(a, 2, 2); return mkBool(same(a[0], a[1])); }
    if (s == "!=") { need(a, 2, 2); return mkBool(!same(a[0], a[1])); }
    if (s == "not" || s == "!") { need(a, 1, 1); return mkBool(!truth(a[0])); }
    if (s == "list") return mkList(a);
    if (s == "first" || s == "car" || s == "last" || s == "nth") {
        need(a, s == "nth" ? 2 : 1, s == "nth" ? 2 : 1);
        long i = 0;
        if (s == "nth") i = intOf(a[0]);
        const Value& l = a.back();
        if (l.k == Value::Str) { if (s == "first" || s == "car") i = 0; else if (s == "last") i = (long)l.s.size() - 1; if (i < 0 || i >= (long)l.s.size()) throw Unsupported{"text access"}; return mkStr(l.s.substr((size_t)i, 1)); }
        auto& e = lst(l);
        if (s == "last") i = (long)e.size() - 1;
        if (i < 0 || i >= (long)e.size()) throw ScriptError{"index out of range"};
        return e[(size_t)i];
    }
    if (s == "rest" || s == "cdr") { need(a, 1, 1); if (a[0].k == Value::Str) { if (a[0].s.empty()) throw Unsupported{"text access"}; return mkStr(a[0].s.substr(1)); } auto& e = lst(a[0]); return mkList(std::vector<Value>(e.empty() ? e.end() : e.begin() + 1, e.end())); }
    if (s == "cons") { if (a.size() != 2) throw Unsupported{"cons"}; std::vector<Value> r = {a[0]}; for (auto& x : lst(a[1])) r.push_back(x); return mkList(r); }
    if (s == "append") { std::vector<Value> r; for (auto& l : a) for (auto& x : lst(l)) r.push_back(x); return mkList(r); }
    if (s == "reverse") { need(a, 1, 1); if (a[0].k == Value::Str) return mkStr(std::string(a[0].s.rbegin(), a[0].s.rend())); auto& e = lst(a[0]); return mkList(std::vector<Value>(e.rbegin(), e.rend())); }
    if (s == "len") { need(a, 1, 1); if (a[0].k == Value::Str) return mkInt((long)a[0].s.size()); if (a[0].k == Value::Dict) return mkInt((long)a[0].d->size()); return mkInt((long)lst(a[0]).size()); }
    if (s == "map") { need(a, 2, 2); if (a[0].k != Value::Fn) throw Unsupported{"map function"}; auto e = lst(a[1]); std::vector<Value> r; for (auto& x : e) r.push_back(arg(invoke(a[0], {x}))); return mkList(r); }
    if (s == "reduce") { need(a, 3, 3); if (a[0].k != Value::Fn) throw Unsupported{"reduce function"}; auto e = lst(a[1]); Value r = a[2]; for (auto& x : e) r = arg(invoke(a[0], {x, r})); return r; }
    if (s == "push") {
        need(a, 2, 3);
        long p = a.size() > 2 ? intOf(a[2]) : 0;
        if (a[1].k != Value::List) { if (scalar(a[1])) throw ScriptError{"push not supported"}; throw Unsupported{"push"}; }
        if (p >= (long)a[1].l->size()) return mk(Value::Nil);
        if (p < 0) throw ScriptError{"index out of range"};
        noCycle(a[0], a[1].l.get());
        effect();
        a[1].l->insert(a[1].l->begin() + p, a[0]);
        return mkList(*a[1].l);
    }
    if (s == "pop") {
        need(a, 1, 2);
        long p = a.size() > 1 ? intOf(a[1]) : 0;
        if (a[0].k != Value::List) { if (scalar(a[0])) throw ScriptError{"pop not supported"}; throw Unsupported{"pop"}; }
        if (p >= (long)a[0].l->size()) return mk(Value::Nil);
        if (p < 0) throw ScriptError{"index out of range"};
        Value r = (*a[0].l)[(size_t)p];
        effect();
        a[0].l->erase(a[0].l->begin() + p);
        return r;
    }
    if (s == "make-dict") { need(a, 0, 0); Value v = mk(Value::Dict); v.d = std::make_shared<std::map<std::string, std::pair<Value, Value>>>(); return v; }
    if (s == "dict-set") { need(a, 3, 3); auto& d = dict(a[0]); if (!scalar(a[2]) && a[2].k != Value::List && a[2].k != Value::Dict) throw Unsupported{"dictionary value"}; std::string k = key(a[1]); noCycle(a[2], a[0].d.get()); effect(); d[k] = {a[1], a[2]}; return a[2]; }
    if (s == "dict-get") { need(a, 2, 2); auto& d = dict(a[0]); auto it = d.find(key(a[1])); return it == d.end() ? mk(Value::Undef) : it->second.second; }
    if (s == "dict-remove") { need(a, 2, 2); auto& d = dict(a[0]); auto it = d.find(key(a[1])); if (it == d.end()) return mkBool(false); effect(); d.erase(it); return mkBool(true); }
    if (s == "dict-keys") { need(a, 1, 1); auto& d = dict(a[0]); std::vector<Value> r; for (auto& kv : d) r.push_back(kv.second.first); return mkList(r); }
    if (s == "dict-clear") { need(a, 1, 1); auto& d = dict(a[0]); effect(); d.clear(); return mk(Value::Undef); }
    if (s == "dict-contains-key") { need(a, 2, 2); auto& d = dict(a[0]); return mkBool(d.count(key(a[1])) > 0); }
    if (s == "dict-contains-value") { need(a, 2, 2); auto& d = dict(a[0]); if (!scalar(a[1])) throw Unsupported{"search of a container"}; bool r = false; for (auto& kv : d) { const Value& x = kv.second.second; if (x.k == a[1].k && same(x, a[1])) r = true; } return mkBool(r); }
    if (s == "apply") { need(a, 2, 2); if (a[0].k != Value::Fn && a[0].k != Value::Builtin) throw Unsupported{"apply"}; auto e = lst(a[1]); if (a[0].k == Value::Fn) return invoke(a[0], e); if (kSpecial.count(a[0].s)) throw Unsupported{"apply of a special form"}; return builtin(a[0].s, e, f); }
    if (s == "eval") { need(a, 1, 1); if (a[0].k == Value::Code) return eval(*a[0].code, f); if (scalar(a[0])) return a[0]; throw Unsupported{"eval"}; }
    if (s == "evalstr") {
        need(a, 1, 1);
        if (a[0].k != Value::Str) throw Unsupported{"evalstr"};
        Node n;
        if (!parse(a[0].s, n)) throw ScriptError{"unbalanced"};
        f->inReturn = false;
        InModule im(*this, "<evalstr>:" + module + ":" + a[0].s);
        std::string old = stack.empty() ? "" : stack.back().module;
        if (!stack.empty()) stack.back().module = module;
        size_t lv = stack.size();
        try { Value r = eval(n, f); if (lv) stack[lv - 1].module = old; return r; } catch (...) { if (lv) stack[lv - 1].module = old; throw; }
    }
    if (s == "print" || s == "println") {
        std::string t; for (auto& x : a) { if (!t.empty()) t += " "; t += text(x); }
        std::string o = t + (s == "println" ? "\n" : "");
        effect(o);
        out += o;
        return mkStr(t);
    }
    if (s == "return") { need(a, 1, 1); f->inReturn = true; return a[0]; }
    if (s == "argscount") { need(a, 0, 0); if (!f->isFn) throw ScriptError{"only in a function"}; return mkInt((long)f->args.size()); }
    if (s == "arg") { need(a, 1, 1); long i = intOf(a[0]); if (!f->isFn) throw ScriptError{"only in a function"}; if (i < 0 || i >= (long)f->args.size()) throw ScriptError{"index out of range"}; return f->args[(size_t)i]; }
    if (s == "args") { need(a, 0, 0); if (!f->isFn) throw ScriptError{"only in a function"}; return mkList(f->args); }
    if (s == "nop") { return mk(Value::Undef); }
    if (s == "need-l-value") return mkBool(false);
    if (s == "delvar") { need(a, 1, 1); if (a[0].k != Value::Str) throw Unsupported{"delvar"}; if (!f->v.count(a[0].s)) return mkBool(false); effect(); f->v.erase(a[0].s); return mkBool(true); }
    if (s == "readline") { effect(); std::string l = inputPos < input.size() ? input[inputPos] : ""; inputPos++; return mkStr(l); }
    if (s == "import") {
        Value r = mk(Value::Undef);
        for (auto& m : a) {
            if (m.k != Value::Str) throw Unsupported{"import"};
            auto it = files.find(m.s);
            if (it == files.end()) throw Unsupported{"import of a missing file"};
            Node n; if (!parse(it->second, n)) throw ScriptError{"unbalanced"};
            auto fr = std::make_shared<Frame>();
            depth++; stack.push_back({fr, m.s, "import " + m.s});
            InModule im(*this, m.s);
            try { r = eval(n, fr); } catch (...) { depth--; stack.pop_back(); throw; }
            depth--; stack.pop_back();
            effect();
            auto copy = std::make_shared<Frame>(); copy->v = fr->v;
            modules[m.s] = copy;
        }
        return r;
    }
    throw Unsupported{s};
}
Machine::Res Machine::run(const std::string& t) {
    Res r;
    effects = calls = steps = 0; depth = 0;
    global->inReturn = false;
    stack.clear(); stack.push_back({global, module, "<main>"});
    Node n;
    try {
        if (!parse(t, n)) { r.k = Res::Error; r.what = "unbalanced"; return r; }
        r.v = eval(n, global);
    }
    catch (Unsupported& u) { r.k = Res::Bad; r.what = u.what; }
    catch (ScriptError& e) { r.k = Res::Error; r.what = e.what; r.where = e.where; }
    catch (Cut& c) { r.k = Res::Stopped; r.pending = c.pending; }
    return r;
}
std::map<std::string, std::string> Machine::state() const {
    std::map<std::string, std::string> r;
    for (auto& kv : global->v) r[kv.first] = canon(kv.second);
    return r;
}
} // namespace model
