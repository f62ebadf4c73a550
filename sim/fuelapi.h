// Thin adapter between the simulator and the real code under /repo. Everything of /repo runs inside sim::Real.
#pragma once
#include "world.h"
#include <memory>

namespace fuel {

struct Outcome {
    std::string kind;       // ok error(LispException) basic(LispExceptionBase) stop oom native other
    std::string type;       // type of the result (ok only)
    std::string text;       // result as text or message of the error
    std::string canon;      // result as type tagged structure
    std::string where;      // module/line/positions and call stack carried by the error
    bool null = false;      // no result object
    bool failed() const { return kind != "ok"; }
    std::string str() const;        // one line
};

struct CallInfo {           // one function call that is about to be executed
    long line, start, stop; std::string module, name; int depth;
    std::vector<std::pair<std::string, std::string>> locals;
    std::string head;
};

struct Probe;
struct Impl;
class Session {             // a long lived session: one default scope
public:
    Session(const std::string& input, bool captureOutput = true, bool stringInput = true, bool probe = true);
    ~Session();
    // evaluates code in the session with the given faults armed
    Outcome eval(sim::Ctx& c, const std::string& code, const std::vector<sim::Fault>& f = {}, const std::string& module = "main", bool tracing = false);
    std::string output();           // everything captured so far
    std::vector<std::pair<std::string, std::string>> vars();    // definitions of the session (not the builtins)
    std::vector<std::string> modules(), macros();
    std::string flags();            // internal modes, for diagnostics only
    std::function<void(const CallInfo&)> onCall;
    bool wantCalls = false;
    bool implicit = false;          // evaluations use the streams that the session has already
    void attach(bool on);           // the stopping debugger
    std::string lookup(const std::string& name);     // type tagged structure of a global variable, "" if there is none
    std::vector<std::pair<std::string, std::string>> state();   // definitions of the session as type tagged structures
    Impl* p;
};

struct Safe { bool escaped = false; std::string escapedWhat; Outcome o; bool isError = false; std::string output; };
// the safe entry point, with its own scope
Safe safeEval(sim::Ctx& c, const std::string& code, const std::string& module, bool verbose, bool tracing, const std::string& input, const std::vector<sim::Fault>& f, bool expandOnly = false, bool nullStreams = false);
// the command line runner
Safe mainRun(sim::Ctx& c, const std::vector<std::string>& args, const std::string& input, const std::vector<sim::Fault>& f, bool cinInput = false);
// program under the debugger (Fuel's LispDebugger), commands as input
Safe debugRun(sim::Ctx& c, const std::string& script, const std::string& module, const std::string& commands, const std::vector<sim::Fault>& f, bool tracing = false, bool cinInput = false);
// interactive shell
Safe shellRun(sim::Ctx& c, const std::string& commands, const std::vector<sim::Fault>& f, bool cinInput = false, bool tracing = false);
// program without any real debugger, but with every call recorded
struct Traced { Outcome o; std::string output; std::vector<CallInfo> calls; };
Traced traceRun(sim::Ctx& c, const std::string& script, const std::string& module, const std::string& input, bool tracing, bool probe, const std::vector<sim::Fault>& f, bool locals);
// several programs in one session of an embedding program; the real debugger is attached with streams of its own (or not at all)
struct Attached { std::vector<Outcome> o; std::vector<std::string> out; std::string debugger, state; };
Attached attachedRun(sim::Ctx& c, const std::vector<std::string>& scripts, const std::string& input, const std::string& commands, const std::vector<sim::Fault>& f, bool attach);

void setLibraryPath(const std::string& p);
uint64_t tickCount();
} // namespace fuel
