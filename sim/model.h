// Reference model: a deliberately simple sequential interpreter for the part of the language the generated programs
// use. Lists and dictionaries are shared, scalars are copied, scopes are plain name tables.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace model {
struct Node { enum K { Sym, Int, Str, Bool, List, Dbl } k = List; std::string s; long i = 0; double x = 0; std::vector<Node> c; long line = 0, start = -1, stop = -1; };
bool parse(const std::string& text, Node& out);     // wraps the statements in a `do`

struct Value; struct Frame; struct Closure;
typedef std::shared_ptr<std::vector<Value>> ListP;
struct Value {
    enum K { None, Undef, Nil, Bool, Int, Str, List, Dict, Fn, Builtin, Any, Dbl, Sym, Code } k = None;     // Sym: a name without value, Code: a quoted list that is evaluated later
    long i = 0; double x = 0; std::shared_ptr<Node> code; std::string s; ListP l; std::shared_ptr<std::map<std::string, std::pair<Value, Value>>> d; std::shared_ptr<Closure> f;
};
struct Closure { std::string module, name; std::vector<std::string> params; Node body; std::shared_ptr<Frame> env; };
struct Frame { std::map<std::string, Value> v; std::shared_ptr<Frame> closure; bool inReturn = false, isFn = false; std::vector<Value> args; };
std::string canon(const Value&);

struct Unsupported { std::string what; };
struct ScriptError { std::string what; std::string where; };
struct Cut { std::string pending; };    // evaluation stopped here; output that was about to be written

struct Macro { std::vector<std::string> params; Node body; };
struct Machine {
    std::shared_ptr<Frame> global = std::make_shared<Frame>();
    std::map<std::string, Macro> macros;
    std::map<std::string, std::string> files;       // modules
    std::map<std::string, std::shared_ptr<Frame>> modules;
    std::vector<std::string> input; size_t inputPos = 0;
    std::string out;
    long effects = 0, calls = 0, steps = 0;         // of the current evaluation
    long stopEffects = -1, stopCall = -1;           // stop before that effect / at that call
    std::function<void(const Node&, std::shared_ptr<Frame>)> onCall;
    int depth = 0; size_t failDepth = 0;              // levels of the call stack when the last error was raised
    struct Level { std::shared_ptr<Frame> f; std::string module, name; long line = -1; };      // line of the call that is executed there
    std::vector<Level> stack;                        // call stack, the global frame first
    std::string module = "main";                    // module of the code that runs

    struct Res { enum K { Ok, Error, Stopped, Bad } k = Ok; Value v; std::string what, pending, where; };
    Res run(const std::string& text);               // one evaluation at the global scope
    std::map<std::string, std::string> state() const;

    Value eval(const Node& n, std::shared_ptr<Frame> f);
    Value evalNode(const Node& n, std::shared_ptr<Frame> f);
    Value call(const Node& n, std::shared_ptr<Frame> f, const std::string& name, const Value& fn);
    Value invoke(const Value& fn, std::vector<Value> args);
    Value builtin(const std::string& name, std::vector<Value>& a, std::shared_ptr<Frame> f);
    Value special(const std::string& name, const Node& n, std::shared_ptr<Frame> f);
    bool lookup(const std::string& name, std::shared_ptr<Frame> f, Value& v);
    void effect(const std::string& pending = "");
    Value arg(const Value& v) { return v.k == Value::None ? mk(Value::Nil) : v; }
    static Value mk(Value::K k) { Value v; v.k = k; return v; }
    static Value mkInt(long i);
    static Value mkDbl(double x);
    static Value mkBool(bool b) { Value v; v.k = Value::Bool; v.i = b; return v; }
    static Value mkStr(const std::string& s) { Value v; v.k = Value::Str; v.s = s; return v; }
    static Value mkList(std::vector<Value> e) { Value v; v.k = Value::List; v.l = std::make_shared<std::vector<Value>>(std::move(e)); return v; }
};
std::string text(const Value&);     // as printed
} // namespace model
