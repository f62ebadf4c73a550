#include "world.h"
#include <algorithm>
#include <cxxabi.h>
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <malloc.h>
#include <mutex>
#include <new>
#include <poll.h>
#include <set>
#include <streambuf>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#else
#define SIM_ASAN 0
#endif

namespace sim {

bool active = false;
thread_local int guard = 1;
thread_local Ctx* cur = nullptr;
Shm* shm = nullptr;
Config cfg;
long long simWall, simMono;
uint64_t fired[32];
std::vector<std::string> faultKindNames;
const char* const CKNAME[CK_N] = {"alloc", "open", "read", "write", "close", "stat", "sleep", "clock", "cin", "cout", "call", "io"};

static uint64_t g_steps, g_yields, g_switches, g_hash = 1469598103934665603ULL, g_swhash = 1469598103934665603ULL;
static thread_local int noYield = 0;
static long g_disk = -1;
static unsigned char g_tracked[4096];
static bool g_ferr[4096];

uint64_t fnv(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
void ev(const char* kind, uint64_t a, uint64_t b) {
    if (!active) return;
    g_hash = fnv(kind, strlen(kind), g_hash);
    g_hash = fnv(&a, sizeof a, g_hash);
    g_hash = fnv(&b, sizeof b, g_hash);
    if (cur) g_hash = fnv(&cur->task, sizeof(int), g_hash);
}
static void publish() {
    if (!shm) return;
    shm->hash = g_hash; shm->swhash = g_swhash;
    shm->simns = (uint64_t)(simMono - cfg.mono0);
    shm->cnt.yields = g_yields; shm->cnt.switches = g_switches;
    memcpy(shm->fired, fired, sizeof fired);
}
[[noreturn]] static void die(int code) { publish(); _exit(code); }

void emit(const std::string& line) {
    Guard g;
    g_hash = fnv(line.data(), line.size(), g_hash);
    if (!shm) return;
    size_t n = line.size();
    if (shm->len + n + 1 > sizeof shm->data) die(77);
    memcpy(shm->data + shm->len, line.data(), n);
    shm->data[shm->len + n] = '\n';
    shm->len += n + 1;
}

int faultKindIndex(const std::string& kind, const std::string& act) {
    std::string k = kind + ":" + act;
    for (size_t i = 0; i < faultKindNames.size(); i++) if (faultKindNames[i] == k) return (int)i;
    if (faultKindNames.size() >= 31) return 31;
    faultKindNames.push_back(k);
    return (int)faultKindNames.size() - 1;
}
static struct InitKinds { InitKinds() {
    const char* ks[][2] = {{"alloc", "fail"}, {"open", "emfile"}, {"open", "eacces"}, {"open", "enoent"}, {"open", "eintr"}, {"read", "eio"}, {"read", "short"}, {"read", "eintr"},
        {"write", "enospc"}, {"write", "eio"}, {"write", "short"}, {"write", "eintr"}, {"close", "eio"}, {"close", "lost"}, {"sleep", "eintr"}, {"clock", "jump"},
        {"cin", "eof"}, {"cout", "fail"}, {"call", "stop"}, {"io", "crash"}, {"disk", "full"}, {"chunk", "read"}, {"chunk", "write"}, {"clock", "step"}, {"switch", "task"}, {"cin", "chunk"}, {"open", "denied"}};
    for (auto& k : ks) faultKindNames.push_back(std::string(k[0]) + ":" + k[1]);
} } initKinds;
enum { F_DISKFULL = 20, F_CHUNKR = 21, F_CHUNKW = 22, F_SWITCH = 24, F_CINCHUNK = 25, F_DENIED = 26 };

static const Fault* hit(const char* kind, uint64_t n) {
    if (!cur || cur->faults.empty()) return nullptr;
    for (auto& f : cur->faults) {
        if (f.kind != kind) continue;
        uint64_t run = (f.kind == "alloc" && f.v > 1) ? (uint64_t)f.v : 1;
        if (n >= f.nth && n < f.nth + run) {
            f.fired++;
            Guard g;
            fired[faultKindIndex(f.kind, f.act)]++;
            ev("fault", n);
            return &f;
        }
    }
    return nullptr;
}
static inline uint64_t count(int k) {
    if (shm) shm->cnt.c[k]++;
    if (++g_steps > cfg.budget) die(77);
    return cur ? ++cur->cnt[k] : 0;
}
void window(Ctx& c, const std::vector<Fault>& f) { Guard g; memset(c.cnt, 0, sizeof c.cnt); c.faults = f; }
void windowEnd(Ctx& c) { Guard g; c.faults.clear(); }

// ---- scheduler: real threads, exactly one runs, handed over explicitly ------------------------------------------
struct Task { std::thread th; bool done = false; Ctx ctx; std::condition_variable cv; std::function<void(Ctx&)> fn; };
static std::vector<Task*> g_tasks;
static std::mutex g_m;
static int g_running = -1;
static std::condition_variable g_main;
static Schedule g_sched;
static uint64_t g_kindcount[Y_N];

static void switchTo(int to) {
    Guard g;
    int self = cur->task;
    if (to == self) return;
    g_switches++;
    fired[F_SWITCH]++;
    g_swhash = fnv(&to, sizeof to, g_swhash);
    for (int i = 0; i < Y_N; i++) g_swhash = fnv(&cur->ycnt[i], sizeof(uint64_t), g_swhash);
    ev("switch", (uint64_t)to);
    std::unique_lock<std::mutex> l(g_m);
    g_running = to;
    g_tasks[to]->cv.notify_one();
    g_tasks[self]->cv.wait(l, [&] { return g_running == self; });
}
static int nextLive(int from) {
    int n = (int)g_tasks.size();
    for (int i = 1; i <= n; i++) { int t = (from + i) % n; if (!g_tasks[t]->done && t != from) return t; }
    return -1;
}
void yieldPoint(Yield k) {
    if (!active || !cur) return;
    g_yields++;
    if (g_tasks.empty()) return;
    cur->ycnt[k]++;
    g_kindcount[k]++;
    if (noYield) return;
    int to = -1;
    for (auto& s : g_sched.sw) if (s.task == cur->task && s.kind == k && s.nth == cur->ycnt[k]) { to = s.to; break; }
    if (to < 0 && g_sched.rr[k] && g_kindcount[k] % g_sched.rr[k] == 0) to = nextLive(cur->task);
    if (to < 0 || to >= (int)g_tasks.size()) return;
    if (g_tasks[to]->done) return;
    switchTo(to);
}
void runTasks(const std::vector<std::function<void(Ctx&)>>& tasks, const Schedule& s) {
    Guard g;
    g_sched = s;
    g_tasks.clear();
    for (size_t i = 0; i < tasks.size(); i++) { Task* t = new Task; t->fn = tasks[i]; t->ctx.task = (int)i; g_tasks.push_back(t); }
    for (size_t i = 0; i < tasks.size(); i++) {
        Task* t = g_tasks[i];
        t->th = std::thread([t, i] {
            guard = 1;
            { std::unique_lock<std::mutex> l(g_m); t->cv.wait(l, [&] { return g_running == (int)i; }); }
            cur = &t->ctx;
            t->fn(t->ctx);
            cur = nullptr;
            std::unique_lock<std::mutex> l(g_m);
            t->done = true;
            int nx = nextLive((int)i);
            g_running = nx;
            if (nx >= 0) g_tasks[nx]->cv.notify_one(); else g_main.notify_one();
        });
    }
    {
        std::unique_lock<std::mutex> l(g_m);
        g_running = 0;
        g_tasks[0]->cv.notify_one();
        g_main.wait(l, [] { return g_running == -1; });
    }
    for (auto t : g_tasks) t->th.join();
    g_tasks.clear();
}

bool onCall() {
    if (!active || !cur) return false;
    uint64_t n = count(CK_CALL);
    ev("call");
    yieldPoint(Y_CALL);
    return hit("call", n) != nullptr;
}

// ---- console ----------------------------------------------------------------------------------------------------
struct OutBuf : std::streambuf {
    std::string text;
    int_type overflow(int_type c) override { char ch = (char)c; return c == traits_type::eof() ? 0 : (xsputn(&ch, 1) == 1 ? c : traits_type::eof()); }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        bool real = guard == 0 && cur;
        Guard g;
        if (real) {
            uint64_t k = count(CK_COUT);
            { int sv = guard; guard = 0; yieldPoint(Y_CONSOLE); guard = sv; }
            if (const Fault* f = hit("cout", k)) { long keep = std::min<long>(f->v, (long)n); if (keep > 0) text.append(s, (size_t)keep); return keep < 0 ? 0 : keep; }
        }
        text.append(s, (size_t)n);
        return n;
    }
    int sync() override { return 0; }
};
struct InBuf : std::streambuf {
    std::string text; size_t pos = 0; std::vector<long> chunks; size_t ci = 0; bool ended = false; uint64_t eofReads = 0;
    int_type underflow() override {
        bool real = guard == 0 && cur;
        Guard g;
        if (real) {
            uint64_t k = count(CK_CIN);
            { int sv = guard; guard = 0; yieldPoint(Y_CONSOLE); guard = sv; }
            if (hit("cin", k)) ended = true;
        }
        if (ended || pos >= text.size()) { eofReads++; return traits_type::eof(); }
        long n = ci < chunks.size() ? chunks[ci++] : (long)text.size();
        if (n < 1) n = 1;
        if (ci <= chunks.size() && ci > 0) fired[F_CINCHUNK]++;
        size_t e = std::min(text.size(), pos + (size_t)n);
        setg(&text[pos], &text[pos], &text[0] + e);
        ev("cin", pos, e);
        pos = e;
        return traits_type::to_int_type(*gptr());
    }
};
static OutBuf* g_out; static InBuf* g_in;
void installConsole(const std::string& input, const std::vector<long>& chunks, bool) {
    Guard g;
    g_out = new OutBuf; g_in = new InBuf;
    g_in->text = input; g_in->chunks = chunks;
    std::cout.rdbuf(g_out); std::cerr.rdbuf(g_out); std::clog.rdbuf(g_out);
    std::cin.rdbuf(g_in);
    std::cout.clear(); std::cin.clear();
}
void setConsoleInput(const std::string& input, const std::vector<long>& chunks) {
    Guard g;
    g_in = new InBuf; g_in->text = input; g_in->chunks = chunks; std::cin.rdbuf(g_in); std::cin.clear();
}
std::string consoleOut() { return g_out ? g_out->text : std::string(); }

// ---- real file helpers ------------------------------------------------------------------------------------------
std::string readReal(const std::string& path, bool* ok) {
    Guard g;
    std::string r; if (ok) *ok = false;
    int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return r;
    char b[65536]; ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n);
    close(fd);
    if (ok) *ok = true;
    return r;
}
void library() { Guard g; mkdir("Library", 0755); static const std::string text = readReal(FUEL_REPO "/Library/fuellib.fuel", nullptr); writeReal("Library/fuellib.fuel", text); }
void mkdirReal(const std::string& path) { Guard g; mkdir(path.c_str(), 0755); }
bool writeReal(const std::string& path, const std::string& data) {
    Guard g;
    for (size_t i = 1; i < path.size(); i++) if (path[i] == '/') mkdir(path.substr(0, i).c_str(), 0755);
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0) return false;
    size_t o = 0;
    while (o < data.size()) { ssize_t n = write(fd, data.data() + o, data.size() - o); if (n <= 0) { close(fd); return false; } o += (size_t)n; }
    close(fd);
    return true;
}
int openFdCount() {
    Guard g;
    int n = 0;
    for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++;
    return n;
}
static std::string g_scratch;
std::string scratchDir() {
    if (g_scratch.empty()) {
        const char* base = getenv("SIM_SCRATCH");
        std::string t = std::string(base ? base : "/tmp") + "/fuelsim-XXXXXX";
        std::vector<char> b(t.begin(), t.end()); b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(2); }
        g_scratch = b.data();
        mkdir((g_scratch + "/w").c_str(), 0755);
    }
    return g_scratch;
}
static void rmTree(const std::string& d) {
    DIR* dir = opendir(d.c_str());
    if (!dir) return;
    while (dirent* e = readdir(dir)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0755); rmTree(p); rmdir(p.c_str()); } else unlink(p.c_str());
    }
    closedir(dir);
}
void cleanScratch() { Guard g; rmTree(scratchDir() + "/w"); }
static pid_t g_owner = 0;
static void atExit() { if (getpid() == g_owner && !g_scratch.empty()) { rmTree(g_scratch); rmdir(g_scratch.c_str()); } }

std::string Result::statusText() const {
    switch (status) { case 0: return "completed"; case 1: return "crashed (signal " + std::to_string(sig) + ")"; case 2: return "hang (step budget exhausted)"; case 3: return "deadlock"; case 4: return "simulated process death"; }
    return "exit code " + std::to_string(code);
}

// stale contents of the stack do not depend on what the worker did before
__attribute__((noinline)) static void stackFill(int v) { volatile char b[1 << 18]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v; }

Result runChild(const Config& c, const std::function<void()>& fn) {
    if (!shm) {
        shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (shm == MAP_FAILED) { perror("mmap"); exit(2); }
        g_owner = getpid();
        scratchDir();
        atexit(atExit);
    }
    cleanScratch();
    memset((void*)shm, 0, offsetof(Shm, data));
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        guard = 1;
        signal(SIGALRM, SIG_DFL);
        struct rlimit rl; rl.rlim_cur = 20; rl.rlim_max = 25; setrlimit(RLIMIT_CPU, &rl);    // a loop without any step of the world
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        alarm(300);
        if (chdir((scratchDir() + "/w").c_str())) _exit(79);
        int dn = open("/dev/null", O_RDWR);
        dup2(dn, 0); dup2(dn, 1);
        int er = open((scratchDir() + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(er, 2); close(er); close(dn);
        setenv("TZ", "UTC0", 1); unsetenv("FUELPATH"); tzset();
        cfg = c;
        g_disk = cfg.diskcap;
        simWall = cfg.wall0; simMono = cfg.mono0;
        installConsole("", {});
        static Ctx mainCtx; mainCtx.task = 0; cur = &mainCtx;
        active = true;
        stackFill(cfg.fill);
        fn();
        active = false;
        publish();
        shm->complete = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    r.cnt = shm->cnt; r.hash = shm->hash; r.simns = shm->simns; r.swhash = shm->swhash;
    memcpy(r.fired, shm->fired, sizeof r.fired);
    r.out.assign(shm->data, shm->len);
    if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); r.status = r.sig == SIGALRM || r.sig == SIGXCPU ? 2 : 1; }
    else {
        r.code = WEXITSTATUS(st);
        if (r.code == 0 && shm->complete) r.status = 0;
        else if (r.code == 77) r.status = 2;
        else if (r.code == 78) r.status = 3;
        else if (r.code == 70) r.status = 4;
        else if (r.code == 0) { r.status = 5; }
        else r.status = SIM_ASAN && r.code == 99 ? 1 : 5;
    }
    if (r.status == 1 || r.status == 5) {
        std::string e = readReal(scratchDir() + "/stderr");
        if (!e.empty()) r.out += "STDERR " + e.substr(0, 1500) + "\n";
    }
    return r;
}

void advance(long long ns) { simWall += ns; simMono += ns; }

// ---- scenario text ----------------------------------------------------------------------------------------------
std::string esc(const std::string& s) {
    std::string r; char b[8];
    if (s.empty()) return "%e";
    for (unsigned char c : s) { if (c <= ' ' || c == '%' || c >= 127) { snprintf(b, sizeof b, "%%%02X", c); r += b; } else r += (char)c; }
    return r;
}
std::string unesc(const std::string& s) {
    if (s == "%e") return "";
    std::string r;
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i]; }
    return r;
}
std::string serialize(const Scenario& s) {
    std::string r = "scenario " + s.prop + " seed " + std::to_string(s.seed) + "\n";
    for (auto& i : s.items) { r += i.kind; for (auto& a : i.a) r += " " + esc(a); r += "\n"; }
    return r;
}
bool parse(const std::string& text, Scenario& out) {
    size_t p = 0; bool head = false;
    while (p < text.size()) {
        size_t e = text.find('\n', p); if (e == std::string::npos) e = text.size();
        std::string line = text.substr(p, e - p); p = e + 1;
        if (line.empty() || line[0] == '#') continue;
        std::vector<std::string> w; size_t q = 0;
        while (q < line.size()) { size_t f = line.find(' ', q); if (f == std::string::npos) f = line.size(); if (f > q) w.push_back(line.substr(q, f - q)); q = f + 1; }
        if (w.empty()) continue;
        if (w[0] == "scenario") { if (w.size() < 4) return false; out.prop = w[1]; out.seed = strtoull(w[3].c_str(), nullptr, 10); head = true; continue; }
        Item it; it.kind = w[0]; for (size_t i = 1; i < w.size(); i++) it.a.push_back(unesc(w[i]));
        out.items.push_back(it);
    }
    return head;
}

// ---- allocation -------------------------------------------------------------------------------------------------
static uint64_t g_padseq = 0x12345;
static inline void* allocate(size_t n, bool nothrow) {
    bool real = active && guard == 0 && cur;
    size_t extra = 0;
    if (real && !noYield) {     // initialisations of the process as a whole belong to no session
        uint64_t k = count(CK_ALLOC);
        if (!cur->faults.empty() && hit("alloc", k)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        yieldPoint(Y_ALLOC);
        if (cfg.pad) { g_padseq = g_padseq * 6364136223846793005ULL + (uint64_t)cfg.pad; extra = (g_padseq >> 60) * 16; }
        if (n > (1u << 30)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
    void* p = malloc((n ? n : 1) + extra);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (active) memset(p, cfg.fill, n);
    return p;
}
static inline void release(void* p) {
    if (!p) return;
#if !SIM_ASAN
    if (active) memset(p, 0xDD, malloc_usable_size(p) & ~(size_t)7);
#endif
    free(p);
}
} // namespace sim

void* operator new(size_t n) { return sim::allocate(n, false); }
void* operator new[](size_t n) { return sim::allocate(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::allocate(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::allocate(n, true); }
void operator delete(void* p) noexcept { sim::release(p); }
void operator delete[](void* p) noexcept { sim::release(p); }
void operator delete(void* p, size_t) noexcept { sim::release(p); }
void operator delete[](void* p, size_t) noexcept { sim::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::release(p); }

// ---- system call seam -------------------------------------------------------------------------------------------
using namespace sim;
#define REALFN(ret, name, ...) typedef ret (*fn_##name)(__VA_ARGS__); static fn_##name real_##name() { static fn_##name f = nullptr; if (!f) f = (fn_##name)dlsym(RTLD_NEXT, #name); return f; }
REALFN(FILE*, fopen, const char*, const char*)
REALFN(FILE*, fopen64, const char*, const char*)
REALFN(int, fclose, FILE*)
REALFN(int, open, const char*, int, ...)
REALFN(int, openat, int, const char*, int, ...)
REALFN(int, close, int)
REALFN(ssize_t, read, int, void*, size_t)
REALFN(ssize_t, readv, int, const struct iovec*, int)
REALFN(ssize_t, write, int, const void*, size_t)
REALFN(ssize_t, writev, int, const struct iovec*, int)
REALFN(size_t, fread, void*, size_t, size_t, FILE*)
REALFN(size_t, fwrite, const void*, size_t, size_t, FILE*)
REALFN(int, fputs, const char*, FILE*)
REALFN(int, fflush, FILE*)
REALFN(int, ferror, FILE*)
REALFN(int, fsync, int)
REALFN(int, rename, const char*, const char*)
REALFN(int, unlink, const char*)
REALFN(int, remove, const char*)
REALFN(int, gettimeofday, struct timeval*, void*)
REALFN(time_t, time, time_t*)
REALFN(int, clock_gettime, clockid_t, struct timespec*)
REALFN(int, nanosleep, const struct timespec*, struct timespec*)
REALFN(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*)
REALFN(int, usleep, useconds_t)
REALFN(unsigned, sleep, unsigned)
REALFN(int, select, int, fd_set*, fd_set*, fd_set*, struct timeval*)
REALFN(int, poll, struct pollfd*, nfds_t, int)
REALFN(int, pthread_mutex_lock, pthread_mutex_t*)

static inline bool simNow() { return sim::active && sim::guard == 0 && sim::cur; }
static inline bool tracked(int fd) { return fd >= 0 && fd < 4096 && g_tracked[fd]; }
struct Yielding { int sv; Yielding() { sv = guard; guard = 0; } ~Yielding() { guard = sv; } };

// common entry of every file operation: counts, yields, process death
static uint64_t ioEnter(int kind) {
    uint64_t k = count(kind);
    uint64_t io = count(CK_IO);
    { Yielding y; yieldPoint(Y_IO); }
    if (kind != CK_WRITE) if (hit("io", io)) die(70);
    return k;
}
static std::vector<std::string> g_denied;
static std::string normal(const char* p) {
    std::vector<std::string> v; std::string w;
    for (;; p++) { if (*p && *p != '/') { w += *p; continue; } if (w == ".." && !v.empty()) v.pop_back(); else if (!w.empty() && w != ".") v.push_back(w); w.clear(); if (!*p) break; }
    std::string r; for (auto& x : v) r += (r.empty() ? "" : "/") + x;
    return r;
}
void sim::deny(const std::string& path) { g_denied.push_back(normal(path.c_str())); }
static std::vector<std::pair<std::string, std::string>> g_redirect;
void sim::redirect(const std::string& from, const std::string& to) { g_redirect.push_back({normal(from.c_str()), to}); }
static const char* redirected(const char* path) {
    if (*path == '/' && !g_redirect.empty()) { std::string n = normal(path); for (auto& d : g_redirect) if (d.first == n) return d.second.c_str(); }
    return path;
}
static int openFault(const char* path) {
    uint64_t k = ioEnter(CK_OPEN);
    ev("open", fnv(path, strlen(path)));
    if (const Fault* f = hit("open", k)) {
        if (f->act == "emfile") return EMFILE;
        if (f->act == "eacces") return EACCES;
        if (f->act == "enoent") return ENOENT;
        if (f->act == "eintr") return EINTR;
        return EIO;
    }
    if (!g_denied.empty()) { std::string n = normal(path); for (auto& d : g_denied) if (d == n) { fired[F_DENIED]++; return EACCES; } }
    return 0;
}
static FILE* doFopen(FILE* (*fn)(const char*, const char*), const char* path, const char* mode) {
    if (!simNow()) return fn(path, mode);
    Guard g;
    if (int e = openFault(path)) { errno = e; return nullptr; }
    path = redirected(path);
    FILE* f = fn(path, mode);
    if (f) { int fd = fileno(f); if (fd >= 0 && fd < 4096) { g_tracked[fd] = 1; g_ferr[fd] = false; } }
    return f;
}
extern "C" FILE* fopen(const char* path, const char* mode) { return doFopen(real_fopen(), path, mode); }
extern "C" FILE* fopen64(const char* path, const char* mode) { return doFopen(real_fopen64(), path, mode); }
static int doOpen(const char* path, int flags, mode_t mode) {
    if (!simNow()) return real_open()(path, flags, mode);
    Guard g;
    if (int e = openFault(path)) { errno = e; return -1; }
    path = redirected(path);
    int fd = real_open()(path, flags, mode);
    if (fd >= 0 && fd < 4096) { g_tracked[fd] = 1; g_ferr[fd] = false; }
    return fd;
}
extern "C" int open(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? (mode_t)va_arg(ap, int) : 0; va_end(ap); return doOpen(path, flags, m); }
extern "C" int open64(const char* path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? (mode_t)va_arg(ap, int) : 0; va_end(ap); return doOpen(path, flags, m); }
extern "C" int openat(int d, const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? (mode_t)va_arg(ap, int) : 0; va_end(ap);
    if (simNow() && d == AT_FDCWD) return doOpen(path, flags, m);
    return real_openat()(d, path, flags, m);
}
static int closeFault(int fd) {     // 0 or errno to report after the descriptor is gone
    uint64_t k = ioEnter(CK_CLOSE);
    ev("close", (uint64_t)0);
    if (const Fault* f = hit("close", k)) {
        if (f->act == "lost") { struct stat st; if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > f->v && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY) { if (ftruncate(fd, f->v)) {} } return ENOSPC; }
        return EIO;
    }
    return 0;
}
extern "C" int fclose(FILE* f) {
    int fd = f ? fileno(f) : -1;
    if (!simNow() || !tracked(fd)) { if (tracked(fd)) g_tracked[fd] = 0; return real_fclose()(f); }
    Guard g;
    int e = closeFault(fd);
    g_tracked[fd] = 0;
    int r = real_fclose()(f);
    if (e) { errno = e; return EOF; }
    return r;
}
extern "C" int close(int fd) {
    if (!simNow() || !tracked(fd)) { if (tracked(fd)) g_tracked[fd] = 0; return real_close()(fd); }
    Guard g;
    int e = closeFault(fd);
    g_tracked[fd] = 0;
    int r = real_close()(fd);
    if (e) { errno = e; return -1; }
    return r;
}
static ssize_t doRead(int fd, void* buf, size_t n) {
    uint64_t k = ioEnter(CK_READ);
    if (const Fault* f = hit("read", k)) {
        if (f->act == "eintr") { errno = EINTR; return -1; }
        if (f->act == "short") { if ((size_t)f->v < n) n = f->v > 0 ? (size_t)f->v : 1; }
        else { errno = EIO; return -1; }
    }
    if (sim::cfg.rchunk > 0 && n > (size_t)sim::cfg.rchunk) { n = (size_t)sim::cfg.rchunk; fired[F_CHUNKR]++; }
    ssize_t r = real_read()(fd, buf, n);
    ev("read", (uint64_t)r);
    return r;
}
extern "C" ssize_t read(int fd, void* buf, size_t n) {
    if (!simNow() || !tracked(fd)) return real_read()(fd, buf, n);
    Guard g;
    return doRead(fd, buf, n);
}
extern "C" ssize_t readv(int fd, const struct iovec* v, int c) {
    if (!simNow() || !tracked(fd)) return real_readv()(fd, v, c);
    Guard g;
    for (int i = 0; i < c; i++) if (v[i].iov_len) return doRead(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
static ssize_t doWritev(int fd, const struct iovec* v, int c) {
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    uint64_t k = ioEnter(CK_WRITE);
    size_t want = n; int err = 0; bool crash = false;
    if (const Fault* f = hit("io", cur->cnt[CK_IO])) { crash = true; if ((size_t)f->v < n) n = f->v > 0 ? (size_t)f->v : 0; }
    else if (const Fault* f = hit("write", k)) {
        if (f->act == "eintr") { errno = EINTR; return -1; }
        if (f->act == "short") { if ((size_t)f->v < n) n = f->v > 0 ? (size_t)f->v : 1; }
        else err = f->act == "enospc" ? ENOSPC : EIO;
    }
    if (err) { ev("write", (uint64_t)-1); errno = err; return -1; }
    if (sim::cfg.wchunk > 0 && n > (size_t)sim::cfg.wchunk) { n = (size_t)sim::cfg.wchunk; fired[F_CHUNKW]++; }
    if (g_disk >= 0 && (long)n > g_disk) { fired[F_DISKFULL]++; n = (size_t)g_disk; if (n == 0 && want > 0) { ev("write", (uint64_t)-2); errno = ENOSPC; return -1; } }
    size_t left = n; ssize_t done = 0;
    for (int i = 0; i < c && left > 0; i++) {
        size_t m = std::min(left, v[i].iov_len);
        size_t o = 0;
        while (o < m) { ssize_t r = real_write()(fd, (char*)v[i].iov_base + o, m - o); if (r <= 0) { if (done + (ssize_t)o > 0) return done + (ssize_t)o; return r; } o += (size_t)r; }
        done += (ssize_t)m; left -= m;
    }
    if (g_disk >= 0) g_disk -= done;
    ev("write", (uint64_t)done);
    if (crash) die(70);
    return done;
}
extern "C" ssize_t write(int fd, const void* buf, size_t n) {
    if (!simNow() || !tracked(fd)) return real_write()(fd, buf, n);
    Guard g;
    struct iovec v = {(void*)buf, n};
    return doWritev(fd, &v, 1);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!simNow() || !tracked(fd)) return real_writev()(fd, v, c);
    Guard g;
    return doWritev(fd, v, c);
}
// C stdio on simulated files goes straight to the descriptor, so that the same faults apply
extern "C" size_t fread(void* p, size_t sz, size_t n, FILE* f) {
    int fd = f ? fileno(f) : -1;
    if (!simNow() || !tracked(fd)) return real_fread()(p, sz, n, f);
    Guard g;
    size_t want = sz * n, got = 0;
    while (got < want) { ssize_t r = doRead(fd, (char*)p + got, want - got); if (r < 0) { if (errno == EINTR) continue; g_ferr[fd] = true; break; } if (r == 0) break; got += (size_t)r; }
    return sz ? got / sz : 0;
}
static bool stdioWrite(int fd, const char* p, size_t want, size_t& put) {
    put = 0;
    while (put < want) { struct iovec v = {(void*)(p + put), want - put}; ssize_t r = doWritev(fd, &v, 1); if (r < 0) { if (errno == EINTR) continue; g_ferr[fd] = true; return false; } put += (size_t)r; }
    return true;
}
extern "C" size_t fwrite(const void* p, size_t sz, size_t n, FILE* f) {
    int fd = f ? fileno(f) : -1;
    if (!simNow() || !tracked(fd)) return real_fwrite()(p, sz, n, f);
    Guard g;
    size_t put; stdioWrite(fd, (const char*)p, sz * n, put);
    return sz ? put / sz : 0;
}
extern "C" int fputs(const char* s, FILE* f) {
    int fd = f ? fileno(f) : -1;
    if (!simNow() || !tracked(fd)) return real_fputs()(s, f);
    Guard g;
    size_t put; return stdioWrite(fd, s, strlen(s), put) ? 1 : EOF;
}
extern "C" int fflush(FILE* f) {
    int fd = f ? fileno(f) : -1;
    if (!simNow() || !tracked(fd)) return real_fflush()(f);
    return g_ferr[fd] ? EOF : 0;
}
extern "C" int ferror(FILE* f) noexcept {
    int fd = f ? fileno(f) : -1;
    if (tracked(fd) && g_ferr[fd]) return 1;
    return real_ferror()(f);
}
extern "C" int fsync(int fd) { if (simNow() && tracked(fd)) { Guard g; ioEnter(CK_STAT); } return real_fsync()(fd); }
extern "C" int rename(const char* a, const char* b) noexcept { if (simNow()) { Guard g; ioEnter(CK_STAT); ev("rename"); } return real_rename()(a, b); }
extern "C" int unlink(const char* a) noexcept { if (simNow()) { Guard g; ioEnter(CK_STAT); ev("unlink"); } return real_unlink()(a); }
extern "C" int remove(const char* a) noexcept { if (simNow()) { Guard g; ioEnter(CK_STAT); ev("remove"); } return real_remove()(a); }

// clocks
static void clockEvent() {
    uint64_t k = count(CK_CLOCK);
    if (sim::cfg.clocktick) advance(sim::cfg.clocktick);
    if (const Fault* f = hit("clock", k)) simWall += (long long)f->v * 1000000LL;   // ms
    { Yielding y; yieldPoint(Y_CLOCK); }
    ev("clock");
}
extern "C" int gettimeofday(struct timeval* tv, void* tz) noexcept {
    if (!simNow()) return real_gettimeofday()(tv, tz);
    Guard g; clockEvent(); cur->wallSeen.push_back(simWall);
    tv->tv_sec = simWall / 1000000000LL; tv->tv_usec = (simWall % 1000000000LL) / 1000;
    return 0;
}
extern "C" time_t time(time_t* t) noexcept {
    if (!simNow()) return real_time()(t);
    Guard g; clockEvent(); cur->wallSeen.push_back(simWall);
    time_t v = (time_t)(simWall / 1000000000LL);
    if (t) *t = v;
    return v;
}
// processor time: grows with the steps of the run, not with the time that passes
static long long cpuTime() { return 2000000LL + 1000LL * (long long)sim::g_steps; }
extern "C" clock_t clock() noexcept { typedef clock_t (*F)(); if (!simNow()) { static F f; if (!f) f = (F)dlsym(RTLD_NEXT, "clock"); return f(); } Guard g; return (clock_t)(cpuTime() / 1000); }
// randomness of the system: another one for every contents of memory
static uint64_t g_random = 0;
static uint64_t nextRandom() { if (!g_random) g_random = 0x9E3779B97F4A7C15ULL * (uint64_t)(sim::cfg.fill + 3) + (uint64_t)sim::cfg.pad; g_random ^= g_random << 13; g_random ^= g_random >> 7; g_random ^= g_random << 17; return g_random; }
extern "C" ssize_t getrandom(void* p, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)(nextRandom() >> 11); return (ssize_t)n; }
extern "C" int getentropy(void* p, size_t n) noexcept { getrandom(p, n, 0); return 0; }
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)(nextRandom() >> 16); }
extern "C" pid_t getpid() noexcept { typedef pid_t (*F)(); static F f; if (!f) f = (F)dlsym(RTLD_NEXT, "getpid"); return simNow() ? 1000 + (pid_t)(sim::cfg.fill * 7 + sim::cfg.pad) : f(); }
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    if (!simNow()) return real_clock_gettime()(id, ts);
    Guard g; clockEvent();
    if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) { long long v = cpuTime(); ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0; }
    bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE;
    long long v = wall ? simWall : simMono;
    (wall ? cur->wallSeen : cur->monoSeen).push_back(v);
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
    return 0;
}
// the result of localtime is one buffer of the process: another task may run while it is in use
extern "C" struct tm* localtime(const time_t* t) noexcept {
    static struct tm buf;
    struct tm* r = localtime_r(t, &buf);
    if (simNow()) { Guard g; { Yielding y; yieldPoint(Y_CLOCK); } ev("localtime"); }
    return r;
}
extern "C" struct tm* gmtime(const time_t* t) noexcept {
    static struct tm buf;
    struct tm* r = gmtime_r(t, &buf);
    if (simNow()) { Guard g; { Yielding y; yieldPoint(Y_CLOCK); } }
    return r;
}
static int doSleep(long long ns, struct timespec* rem) {
    uint64_t k = count(CK_SLEEP);
    ev("sleep", (uint64_t)ns);
    if (ns < 0) ns = 0;
    if (const Fault* f = hit("sleep", k)) {       // interrupted after v percent
        long long part = ns / 100 * f->v;
        advance(part);
        if (rem) { long long l = ns - part; rem->tv_sec = l / 1000000000LL; rem->tv_nsec = l % 1000000000LL; }
        errno = EINTR;
        return -1;
    }
    advance(ns);
    { Yielding y; yieldPoint(Y_CLOCK); }
    return 0;
}
extern "C" int nanosleep(const struct timespec* rq, struct timespec* rem) {
    if (!simNow()) return real_nanosleep()(rq, rem);
    Guard g;
    struct timespec c = *rq;
    if (c.tv_nsec < 0 || c.tv_nsec > 999999999 || c.tv_sec < 0) { errno = EINVAL; return -1; }
    return doSleep((long long)c.tv_sec * 1000000000LL + c.tv_nsec, rem);
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const struct timespec* rq, struct timespec* rem) {
    if (!simNow()) return real_clock_nanosleep()(id, flags, rq, rem);
    Guard g;
    long long ns = (long long)rq->tv_sec * 1000000000LL + rq->tv_nsec;
    if (flags & TIMER_ABSTIME) ns -= (id == CLOCK_REALTIME ? simWall : simMono);
    return doSleep(ns, (flags & TIMER_ABSTIME) ? nullptr : rem) ? EINTR : 0;
}
extern "C" int usleep(useconds_t us) { if (!simNow()) return real_usleep()(us); Guard g; return doSleep((long long)us * 1000, nullptr); }
extern "C" unsigned sleep(unsigned s) { if (!simNow()) return real_sleep()(s); Guard g; struct timespec r{0, 0}; return doSleep((long long)s * 1000000000LL, &r) ? (unsigned)r.tv_sec + 1 : 0; }
extern "C" int select(int n, fd_set* a, fd_set* b, fd_set* c, struct timeval* tv) {
    if (!simNow() || n != 0 || !tv) return real_select()(n, a, b, c, tv);
    Guard g; return doSleep((long long)tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL, nullptr);
}
extern "C" int poll(struct pollfd* p, nfds_t n, int t) {
    if (!simNow() || n != 0 || t < 0) return real_poll()(p, n, t);
    Guard g; return doSleep((long long)t * 1000000LL, nullptr);
}
// a lock held by a parked task must not stop the simulation: hand the baton over until it is free
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!simNow() || g_tasks.empty()) return real_pthread_mutex_lock()(m);
    for (int spins = 0;; spins++) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        Guard g;
        int to = nextLive(cur->task);
        if (to < 0 || spins > 100000) die(78);
        switchTo(to);
    }
}
// initialisation of a function-local static: no switch inside (the guard would block the other task for real)
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(__guard* g) { typedef int (*F)(__guard*); static F f; if (!f) f = (F)dlsym(RTLD_NEXT, "__cxa_guard_acquire"); int r = f(g); if (r) noYield++; return r; }
extern "C" void __cxa_guard_release(__guard* g) noexcept { typedef void (*F)(__guard*); static F f; if (!f) f = (F)dlsym(RTLD_NEXT, "__cxa_guard_release"); f(g); noYield--; }
extern "C" void __cxa_guard_abort(__guard* g) noexcept { typedef void (*F)(__guard*); static F f; if (!f) f = (F)dlsym(RTLD_NEXT, "__cxa_guard_abort"); f(g); noYield--; }
}
