// The simulated world: one process (a forked child per run) in which every allocation, file call, clock call,
// sleep, console operation and task switch goes through these hooks. Nothing here draws random numbers: what
// happens is decided by the explicit scenario (faults, schedule, configuration) alone.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---- scenario -------------------------------------------------------------------------------------------------
struct Item {                       // one line of a scenario / replay file
    std::string kind;
    std::vector<std::string> a;
    Item() {}
    Item(std::string k, std::vector<std::string> args) : kind(std::move(k)), a(std::move(args)) {}
    long n(size_t i, long d = 0) const { return i < a.size() ? atol(a[i].c_str()) : d; }
    const std::string& s(size_t i) const { static const std::string e; return i < a.size() ? a[i] : e; }
};
struct Scenario {
    std::string prop;
    uint64_t seed = 0;
    std::vector<Item> items;
    std::vector<const Item*> all(const char* kind) const { std::vector<const Item*> r; for (auto& i : items) if (i.kind == kind) r.push_back(&i); return r; }
    const Item* first(const char* kind) const { for (auto& i : items) if (i.kind == kind) return &i; return nullptr; }
    std::string cfg(const char* name, const char* d = "") const { for (auto& i : items) if (i.kind == "cfg" && i.s(0) == name) return i.s(1); return d; }
    long cfgn(const char* name, long d = 0) const { std::string v = cfg(name); return v.empty() ? d : atol(v.c_str()); }
    void setcfg(const char* name, const std::string& v) { for (auto& i : items) if (i.kind == "cfg" && i.s(0) == name) { i.a[1] = v; return; } items.insert(items.begin(), Item("cfg", {name, v})); }
};
std::string serialize(const Scenario&);
bool parse(const std::string& text, Scenario& out);
std::string esc(const std::string&);
std::string unesc(const std::string&);

// ---- faults ---------------------------------------------------------------------------------------------------
// kinds: alloc open read write close stat sleep clock cin cout stop crash
// action by kind: see world.cpp
struct Fault { std::string kind; uint64_t nth = 0; std::string act; long v = 0; uint64_t fired = 0; };

enum Yield { Y_CALL, Y_ALLOC, Y_IO, Y_CLOCK, Y_CONSOLE, Y_N };
struct Ctx {                        // per task: operation window counters + armed faults
    int task = 0;
    uint64_t cnt[16] = {0};         // window counters, by CK_*
    uint64_t ycnt[Y_N] = {0};       // yield counters since task start
    std::vector<Fault> faults;
    std::vector<long long> wallSeen, monoSeen;      // every clock value handed out
};
enum { CK_ALLOC, CK_OPEN, CK_READ, CK_WRITE, CK_CLOSE, CK_STAT, CK_SLEEP, CK_CLOCK, CK_CIN, CK_COUT, CK_CALL, CK_IO, CK_N };
extern const char* const CKNAME[CK_N];

struct Counters { uint64_t c[CK_N]; uint64_t yields, switches; };

extern bool active;                 // hooks on (only ever in a child)
extern thread_local int guard;      // >0: harness code is running, hooks pass through
extern thread_local Ctx* cur;
struct Guard { Guard() { ++guard; } ~Guard() { --guard; } };
struct Real { Real() { --guard; } ~Real() { ++guard; } };   // code under test runs inside this (guard is 1 by default)

struct Shm {                        // result channel child -> worker
    uint32_t complete;
    Counters cnt;
    uint64_t hash;                  // of the event log
    uint64_t simns;
    uint64_t swhash;                // of the switch sequence
    uint64_t fired[32];
    size_t len;
    char data[24u << 20];
};
extern Shm* shm;

// configuration of a child's world
struct Config {
    uint64_t budget = 30000000;     // allocations + calls + I/O steps before the run counts as hung
    int fill = 0xCB;                // contents of fresh memory
    long pad = 0;                   // allocation padding mode (moves objects around)
    long rchunk = 0, wchunk = 0;    // largest number of bytes one read/write transfers (0: no limit)
    long diskcap = -1;              // bytes that still fit on the disk (-1: unlimited)
    long long wall0 = 1700000000LL * 1000000000LL, mono0 = 5000LL * 1000000000LL;
    long clocktick = 0;             // ns that pass at every clock read
};
extern Config cfg;

void emit(const std::string& line);             // append to the transcript (shared memory)
void ev(const char* kind, uint64_t a = 0, uint64_t b = 0);  // event log hash
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);

struct Result {
    int status = 0;                 // 0 completed, 1 crashed (signal), 2 hang, 3 deadlock, 4 simulated crash point, 5 other exit
    int sig = 0, code = 0;
    std::string out;                // transcript
    Counters cnt{};
    uint64_t hash = 0, simns = 0, swhash = 0;
    uint64_t fired[32] = {0};
    std::string statusText() const;
};
// forks; the child enters a clean scratch directory, switches the hooks on and runs fn
Result runChild(const Config& c, const std::function<void()>& fn);

std::string scratchDir();
void cleanScratch();
std::string readReal(const std::string& path, bool* ok = nullptr);   // hooks off
bool writeReal(const std::string& path, const std::string& data);
void library();      // copies the standard library of the repository to Library/
void deny(const std::string& path);      // the file exists, but no open of it succeeds any more
void redirect(const std::string& from, const std::string& to);
void mkdirReal(const std::string& path);
int openFdCount();

// windows: arm faults for the operation that starts now
void window(Ctx& c, const std::vector<Fault>& f);
void windowEnd(Ctx& c);

// clock
extern long long simWall, simMono;  // ns
void advance(long long ns);

// tasks
struct Switch { int task; int kind; uint64_t nth; int to; };
struct Schedule { std::vector<Switch> sw; uint64_t rr[Y_N] = {0}; };
void runTasks(const std::vector<std::function<void(Ctx&)>>& tasks, const Schedule& s);
void yieldPoint(Yield k);

// hook for every function call evaluation (called by the probe debugger); true: the evaluation is to be stopped here
bool onCall();
void installConsole(const std::string& input, const std::vector<long>& chunks, bool useCin = true);
std::string consoleOut();
void setConsoleInput(const std::string& input, const std::vector<long>& chunks);
extern uint64_t fired[32];
int faultKindIndex(const std::string& kind, const std::string& act);
extern std::vector<std::string> faultKindNames;

} // namespace sim
