// One check per property: a generator (seed -> explicit scenario) and a judge (scenario -> verdict).
#pragma once
#include "world.h"
#include "fuelapi.h"
#include "rng.h"
#include <set>

using sim::Scenario; using sim::Item; using sim::Ctx; using sim::Fault; using sim::Config; using sim::Result;
typedef std::string str;
typedef std::vector<std::string> strs;

struct Verdict {
    bool ok = true;
    bool nontrivial = false;        // the run exercised what the property is about (rule of the check)
    str cls, detail;                // class of the violation (stable under minimisation) and what was seen
    str state;                      // measure of distinctness, if it is not the event history
    void fail(const str& c, const str& d) { if (ok) { ok = false; cls = c; detail = d; } }
};
struct Check {
    const char* id;
    Scenario (*gen)(Rng&, bool thorough);
    Verdict (*run)(const Scenario&);
    const char* rule;               // when a run counts as non-trivial
    const char* real;               // components that run real code
    const char* stub;               // components that are simulated
};
std::vector<Check>& checks();
struct Reg { Reg(const Check& c) { checks().push_back(c); } };

// ---- runs -----------------------------------------------------------------------------------------------------
struct RunStats {
    uint64_t children = 0, scenarios = 0, nontrivial = 0;
    long double simns = 0;
    uint64_t cnt[sim::CK_N] = {0}, yields = 0, switches = 0;
    uint64_t fired[32] = {0};
    std::set<uint64_t> histories, interleavings;
    uint64_t crashes = 0;           // simulated process deaths
};
extern RunStats stats;
extern uint64_t runHash;            // over all children of the current scenario
Result child(const Config& c, const std::function<void()>& fn);     // runs it and accounts for it

// ---- helpers --------------------------------------------------------------------------------------------------
Config configOf(const Scenario& s);                     // cfg items: fill pad rchunk wchunk diskcap wall0 mono0 tick budget
Fault faultOf(const Item& i, size_t from);              // kind act nth v
std::vector<Fault> faultsFor(const Scenario& s, long op);   // items "fault <op> kind act nth v"
std::vector<str> splitLines(const str& s);
bool startsWith(const str& s, const str& p);
bool endsWith(const str& s, const str& p);
str num(long long v);
str joined(const strs& v, const str& sep);
str cut(const str& s, size_t n = 300);
str lispStr(const str& s);                              // text as script literal
std::vector<str> field(const str& out, const str& tag); // all transcript lines starting with "tag " without the tag
str one(const str& out, const str& tag, const str& def = "");
str q(const str& s);                                    // one-line escape (reversible)
str unq(const str& s);
str firstDiff(const str& a, const str& b);
inline Ctx& C() { return *sim::cur; }
