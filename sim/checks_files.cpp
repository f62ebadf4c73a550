// P04 (writes) and P05 (reads): real files below a scratch directory, every call of the operating system under control
#include "files.h"
#include <cstring>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>

str content(const str& spec) {
    long seed = 1, len = 0; char kind = 't';
    sscanf(spec.c_str(), "%ld:%ld:%c", &seed, &len, &kind);
    Rng r((uint64_t)seed);
    str s; s.reserve((size_t)len);
    if (kind == 'u' && len >= 3) s = "\xEF\xBB\xBF";
    while ((long)s.size() < len) {
        switch (kind) {
            case 'b': s += (char)r.below(256); break;
            case 'z': s += (char)(r.p(0.3) ? 0 : r.p(0.3) ? 255 : r.below(256)); break;
            case 'c': if (r.p(0.1)) { s += "\r\n"; } else s += (char)('a' + r.below(26)); break;
            case 'u': if (r.p(0.2)) s += "\xC3\xBC"; else if (r.p(0.1)) s += "\xE2\x82\xAC"; else s += (char)('a' + r.below(26)); break;
            default: if (r.p(0.05)) s += '\n'; else s += (char)(' ' + r.below(95)); break;
        }
    }
    s.resize((size_t)len);
    return s;
}
str pickContentSpec(Rng& r, bool big) {
    static const std::vector<long> edges = {0, 0, 1, 2, 3, 16, 511, 512, 1023, 1024, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16382, 16383, 16384, 32768, 65535, 65536, 65537};
    long len = r.p(0.5) ? (long)r.pick(edges) : (long)r.logu(big ? 300000 : 20000);
    static const std::vector<char> kinds = {'t', 't', 't', 'b', 'z', 'c', 'u'};
    return num((long)r.below(1000)) + ":" + num(len) + ":" + str(1, r.pick(kinds));
}
str lispPath(const str& p) { return lispStr(p); }
str normPath(const str& p) {
    strs parts; size_t i = 0;
    while (i <= p.size()) { size_t e = p.find('/', i); if (e == str::npos) e = p.size(); str c = p.substr(i, e - i); if (c == ".." && !parts.empty()) parts.pop_back(); else if (!c.empty() && c != ".") parts.push_back(c); i = e + 1; }
    return joined(parts, "/");
}
static void snap(const str& base, const str& rel, std::map<str, str>& out) {
    sim::Guard g;
    str d = rel.empty() ? base : base + "/" + rel;
    DIR* dir = opendir(d.c_str()); if (!dir) return;
    while (dirent* e = readdir(dir)) {
        str n = e->d_name; if (n == "." || n == "..") continue;
        str p = rel.empty() ? n : rel + "/" + n; struct stat st;
        if (lstat((base + "/" + p).c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { out[p] = "<dir>"; snap(base, p, out); }
        else out[p] = sim::readReal(base + "/" + p);
    }
    closedir(dir);
}
std::map<str, str> snapshotDir(const str& base) { std::map<str, str> m; snap(base, "", m); return m; }

static const strs kPaths = {"a.txt", "b.txt", "a.txt", "b.txt", "sub/c.txt", "./a.txt", "sub/../b.txt", "a b c.txt", "\xC3\xA4\xC3\xB6.txt", "a.tx", "a.txt.bak", "sub/deep/d.txt"};
static const strs kBadPaths = {"missing/x.txt", "sub", "a.txt/x", "."};
static str longName() { return str(200, 'n') + ".txt"; }

// ---- P04 --------------------------------------------------------------------------------------------------------
// items: init <path> <spec> | op <task> <path> <spec> <how> | fault <op> <kind> <act> <nth> <v> | sw <task> <nth> <to>
static Scenario genP04(Rng& r, bool thorough) {
    Scenario s;
    auto cfg = [&](const char* n, long v) { s.items.push_back(Item("cfg", {n, num(v)})); };
    bool tasks = r.p(0.15);
    if (r.p(0.4)) { static const std::vector<long> ch = {1, 2, 7, 100, 511, 1000, 4096, 8191}; cfg("wchunk", r.pick(ch)); }
    if (r.p(0.2)) cfg("diskcap", (long)r.logu(60000));
    if (r.p(0.3)) cfg("fill", (long)r.below(256));
    cfg("tasks", tasks ? 2 : 1);
    int nf = (int)r.below(4);
    for (int i = 0; i < nf; i++) s.items.push_back(Item("init", {normPath(r.pick(kPaths)), pickContentSpec(r, false)}));
    int n = (int)r.range(1, thorough ? 8 : 6);
    std::vector<Item> faults;
    for (int i = 0; i < n; i++) {
        str p = r.p(0.85) ? r.pick(kPaths) : r.p(0.7) ? r.pick(kBadPaths) : longName();
        int t = tasks ? (int)r.below(2) : 0;
        if (tasks) p = "t" + num(t) + "-" + num((long)r.below(2)) + ".txt";
        str spec = pickContentSpec(r, thorough || r.p(0.15));
        if (s.cfgn("wchunk") > 0 && s.cfgn("wchunk") < 50) { long cap = 3000; long seed = 0, len = 0; char k; sscanf(spec.c_str(), "%ld:%ld:%c", &seed, &len, &k); if (len > cap) spec = num(seed) + ":" + num(len % cap) + ":" + str(1, k); }
        static const strs hows = {"var", "var", "literal", "concat", "fn", "read"};
        s.items.push_back(Item("op", {num(t), p, spec, r.pick(hows)}));
        if (r.p(0.6)) {
            int k = (int)r.range(1, r.p(0.25) ? 2 : 1);
            for (int j = 0; j < k; j++) {
                strs f = {num(i)};
                double x = (double)r.below(1000) / 1000;
                long big = (long)r.logu(20000);
                if (x < 0.22) f.insert(f.end(), {"write", "enospc", num((long)r.logu(6)), "0"});
                else if (x < 0.37) f.insert(f.end(), {"write", "eio", num((long)r.logu(6)), "0"});
                else if (x < 0.47) f.insert(f.end(), {"write", "short", num((long)r.logu(6)), num(big)});
                else if (x < 0.55) f.insert(f.end(), {"write", "eintr", num((long)r.logu(6)), "0"});
                else if (x < 0.62) f.insert(f.end(), {"close", "eio", num((long)r.range(1, 2)), "0"});
                else if (x < 0.72) f.insert(f.end(), {"close", "lost", num((long)r.range(1, 2)), num(big)});
                else if (x < 0.80) { static const strs a = {"emfile", "eacces", "enoent", "eintr"}; f.insert(f.end(), {"open", r.pick(a), num((long)r.range(1, 2)), "0"}); }
                else if (x < 0.92 && !tasks) f.insert(f.end(), {"io", "crash", num((long)r.logu(12)), num(r.p(0.5) ? big : 0)});
                else f.insert(f.end(), {"alloc", "fail", num((long)r.logu(400)), "1"});
                faults.push_back(Item("fault", f));
            }
        }
    }
    for (auto& f : faults) s.items.push_back(f);
    if (tasks) { int k = (int)r.range(1, 12); for (int i = 0; i < k; i++) s.items.push_back(Item("sw", {num((long)r.below(2)), num((long)r.logu(60)), num((long)r.below(2))})); }
    return s;
}
static str writeCode(const str& how, size_t i, const str& path, const str& data, str& prep) {
    str v = "c" + num((long)i), src = "src" + num((long)i);
    bool literalOk = data.size() < 30000;
    for (unsigned char c : data) if (c == 0) literalOk = false;
    str w;
    if (how == "literal" && literalOk) { prep = ""; w = "(File-WriteAllText " + lispPath(path) + " " + lispStr(data) + ")"; }
    else if (how == "concat") { prep = "(def " + v + " (File-ReadAllText \"../in/" + src + "\")) (def " + v + "e \"\")"; w = "(File-WriteAllText " + lispPath(path) + " (+ " + v + "e " + v + "))"; }
    else if (how == "fn") { prep = "(def " + v + " (File-ReadAllText \"../in/" + src + "\")) (defn wr (p x) (do (return (File-WriteAllText p x)) ))"; w = "(wr " + lispPath(path) + " " + v + ")"; }
    else { prep = "(def " + v + " (File-ReadAllText \"../in/" + src + "\"))"; w = "(File-WriteAllText " + lispPath(path) + " " + v + ")"; }
    return w;
}
static Verdict runP04(const Scenario& s) {
    Verdict v;
    auto ops = s.all("op");
    auto inits = s.all("init");
    bool tasks = s.cfgn("tasks", 1) > 1;
    if (ops.empty()) return v;
    str base = sim::scratchDir();
    Config c = configOf(s);
    sim::Schedule sch;
    for (auto i : s.all("sw")) sch.sw.push_back({(int)i->n(0), sim::Y_IO, (uint64_t)i->n(1), (int)i->n(2)});
    // the contents the scripts read live beside the working directory
    sim::mkdirReal(base + "/in");
    for (size_t i = 0; i < ops.size(); i++) sim::writeReal(base + "/in/src" + num((long)i), content(ops[i]->s(2)));
    std::map<str, str> init;
    for (auto i : inits) init[i->s(0)] = content(i->s(1));
    auto body = [&] {
        if (!tasks) for (const char* d : {"sub", "sub/deep"}) sim::mkdirReal(d);
        for (auto& kv : init) sim::writeReal(kv.first, kv.second);
        auto task = [&](int t, Ctx& cx) {
            fuel::Session ses("", true, true, false);
            for (size_t i = 0; i < ops.size(); i++) {
                if (ops[i]->n(0) != t) continue;
                str data = content(ops[i]->s(2)), prep, code = writeCode(ops[i]->s(3), i, ops[i]->s(1), data, prep);
                if (!prep.empty()) { auto o = ses.eval(cx, prep); if (o.failed()) { sim::emit("prep " + num((long)i) + " " + q(o.str())); return; } }
                auto f = faultsFor(s, (long)i);
                sim::emit("begin " + num((long)i));
                auto o = ses.eval(cx, code, f);
                str res = o.kind == "ok" && o.text == "#t" ? "true" : o.kind == "ok" && o.text == "#f" ? "false" : "error";
                sim::emit("done " + num((long)i) + " " + res + " " + q(o.str()));
                if (!tasks) for (auto& kv : snapshotDir(".")) sim::emit("snap " + num((long)i) + " " + q(kv.first) + " " + num((long)kv.second.size()) + " " + num((long long)sim::fnv(kv.second.data(), kv.second.size())));
            }
        };
        if (tasks) sim::runTasks({[&](Ctx& x) { task(0, x); }, [&](Ctx& x) { task(1, x); }}, sch);
        else task(0, C());
        for (auto& kv : snapshotDir(".")) sim::emit("snap end " + q(kv.first) + " " + num((long)kv.second.size()) + " " + num((long long)sim::fnv(kv.second.data(), kv.second.size())));
    };
    Result r = child(c, body);
    if (r.status != 0 && r.status != 4) { v.fail("run-" + r.statusText().substr(0, 7), r.statusText() + "\n" + cut(r.out)); return v; }
    // judge
    struct Want { bool known = false, exists = false; size_t n = 0; uint64_t h = 0; };
    std::map<str, Want> want;
    auto set = [&](const str& p, const str& d) { Want w; w.known = true; w.exists = true; w.n = d.size(); w.h = sim::fnv(d.data(), d.size()); want[p] = w; };
    for (auto& kv : init) set(kv.first, kv.second);
    if (!tasks) { set("sub", "<dir>"); set("sub/deep", "<dir>"); }
    std::map<str, std::map<str, std::pair<size_t, uint64_t>>> snaps;
    std::map<long, str> outcome; long lastBegin = -1;
    for (auto& l : splitLines(r.out)) {
        std::vector<str> w; size_t p = 0; while (p < l.size()) { size_t e = l.find(' ', p); if (e == str::npos) e = l.size(); w.push_back(l.substr(p, e - p)); p = e + 1; }
        if (w.size() >= 5 && w[0] == "snap") snaps[w[1]][unq(w[2])] = {strtoul(w[3].c_str(), 0, 10), (uint64_t)strtoll(w[4].c_str(), 0, 10)};
        if (w.size() >= 2 && w[0] == "begin") lastBegin = atol(w[1].c_str());
        if (w.size() >= 3 && w[0] == "done") { outcome[atol(w[1].c_str())] = w[2]; }
        if (w.size() >= 3 && w[0] == "prep") { v.fail("prepare", "reading the content failed: " + unq(w[2])); return v; }
    }
    bool crashed = r.status == 4;
    auto verify = [&](const std::map<str, std::pair<size_t, uint64_t>>& now, const str& when, bool extraOk) {
        for (auto& kv : want) {
            if (!kv.second.known) continue;
            auto it = now.find(kv.first);
            if (it == now.end()) { v.fail("file-gone", "file " + kv.first + " is missing " + when); return; }
            if (it->second.first != kv.second.n || it->second.second != kv.second.h) { v.fail("content", "file " + kv.first + " has " + num((long)it->second.first) + " bytes, expected exactly the " + num((long)kv.second.n) + " bytes of its last successful write (or its untouched content) " + when); return; }
        }
        if (!extraOk) for (auto& kv : now) if (!want.count(kv.first)) { v.fail("other-file", "file " + kv.first + " was created " + when); return; }
    };
    bool success = false, faulty = false;
    for (size_t i = 0; i < ops.size() && v.ok; i++) {
        str p = normPath(ops[i]->s(1)), data = content(ops[i]->s(2));
        bool isDir = !tasks && (p == "sub" || p == "sub/deep" || p.empty());
        str parent = p.rfind('/') == str::npos ? "" : p.substr(0, p.rfind('/'));
        bool writable = !isDir && (parent.empty() || parent == "sub" || parent == "sub/deep");
        bool began = (long)i <= lastBegin || tasks;
        if (!began) break;
        auto it = outcome.find((long)i);
        bool hasFault = !faultsFor(s, (long)i).empty();
        if (hasFault) faulty = true;
        if (it == outcome.end()) {
            // the process died in this operation
            if (!tasks && !isDir) want[p] = Want();
            break;
        }
        if (it->second == "true") {
            success = true;
            if (!writable) { v.fail("impossible-success", "write to " + q(ops[i]->s(1)) + " reported success but this path can not be written"); break; }
            set(p, data);
        }
        else {
            if (!isDir) want[p] = Want();
            if (!hasFault && writable && c.diskcap < 0 && c.wchunk == 0) { v.fail("spurious-failure", "write to " + q(ops[i]->s(1)) + " failed without any fault"); break; }
        }
        if (!tasks && snaps.count(num((long)i))) verify(snaps[num((long)i)], "after operation " + num((long)i) + " (" + it->second + ")", false);
        else if (!tasks) verify({}, "after operation " + num((long)i), false);
    }
    if (v.ok) {
        std::map<str, std::pair<size_t, uint64_t>> fin;
        for (auto& kv : snapshotDir(base + "/w")) fin[kv.first] = {kv.second.size(), sim::fnv(kv.second.data(), kv.second.size())};
        verify(fin, crashed ? "after the process died" : "at the end", crashed || tasks);
    }
    uint64_t anyFired = 0; for (int i = 0; i < 32; i++) anyFired += r.fired[i];
    v.nontrivial = success && (anyFired > 0 || crashed);
    (void)faulty;
    return v;
}
static Reg regP04({"P04", genP04, runP04, "a write reported success and at least one fault (error, short or interrupted call, full disk, lost data at close, process death, task switch) fired",
    "tokenizer, parser, interpreter, file builtins, C++ stream library, kernel file system", "disk capacity and error model, chunking, process death, task scheduler"});

// ---- P05 --------------------------------------------------------------------------------------------------------
// items: init <path> <spec> | op read|exists|again <path> | fault <op> ...
static Scenario genP05(Rng& r, bool thorough) {
    Scenario s;
    auto cfg = [&](const char* n, long v) { s.items.push_back(Item("cfg", {n, num(v)})); };
    bool small = false;
    if (r.p(0.5)) { static const std::vector<long> ch = {1, 2, 7, 100, 511, 1000, 4096, 8190}; long v = r.pick(ch); cfg("rchunk", v); small = v < 50; }
    if (r.p(0.3)) cfg("fill", (long)r.below(256));
    if (r.p(0.3)) cfg("pad", (long)r.range(1, 1000));
    int nf = (int)r.range(1, 3);
    strs names;
    for (int i = 0; i < nf; i++) {
        str spec = pickContentSpec(r, thorough || r.p(0.15));
        if (small) { long seed = 0, len = 0; char k; sscanf(spec.c_str(), "%ld:%ld:%c", &seed, &len, &k); if (len > 3000) spec = num(seed) + ":" + num(len % 3000) + ":" + str(1, k); }
        str p = normPath(r.pick(kPaths)); names.push_back(p);
        s.items.push_back(Item("init", {p, spec}));
        if (r.p(0.06)) s.items.push_back(Item("deny", {p}));
    }
    int n = (int)r.range(1, 5);
    std::vector<Item> faults;
    for (int i = 0; i < n; i++) {
        str p = r.p(0.8) ? r.pick(names) : r.p(0.5) ? r.pick(kPaths) : r.p(0.8) ? r.pick(kBadPaths) : longName();
        static const strs kinds = {"read", "read", "read", "readfn", "exists", "twice", "runner"};
        str kind = r.pick(kinds);
        if (r.p(0.15)) {        // somebody else changes the file
            str f = r.pick(names);
            if (r.p(0.2)) s.items.push_back(Item("op", {"del", f}));
            else { str spec = pickContentSpec(r, false); if (r.p(0.5)) for (auto it : s.all("init")) if (it->s(0) == f) { spec = it->s(1); spec = num((long)r.below(1000)) + spec.substr(spec.find(':')); } long seed = 0, len = 0; char k; sscanf(spec.c_str(), "%ld:%ld:%c", &seed, &len, &k); if (small) spec = num(seed) + ":" + num(len % 3000) + ":" + str(1, k); s.items.push_back(Item("op", {r.p(0.3) ? "write" : "put", f, spec})); }
            continue;
        }
        if (kind == "exists" && (p == "sub" || p == ".")) kind = "read";
        s.items.push_back(Item("op", {kind, p}));
        if (r.p(0.6)) {
            int k = (int)r.range(1, r.p(0.25) ? 2 : 1);
            for (int j = 0; j < k; j++) {
                strs f = {num(i)};
                double x = (double)r.below(1000) / 1000;
                if (x < 0.35) f.insert(f.end(), {"read", "eio", num((long)r.logu(8)), "0"});
                else if (x < 0.55) f.insert(f.end(), {"read", "short", num((long)r.logu(8)), num((long)r.logu(5000))});
                else if (x < 0.68) f.insert(f.end(), {"read", "eintr", num((long)r.logu(8)), "0"});
                else if (x < 0.88) { static const strs a = {"emfile", "eacces", "enoent", "eintr"}; f.insert(f.end(), {"open", r.pick(a), num((long)r.range(1, 2)), "0"}); }
                else if (x < 0.93) f.insert(f.end(), {"close", "eio", "1", "0"});
                else f.insert(f.end(), {"alloc", "fail", num((long)r.logu(400)), "1"});
                faults.push_back(Item("fault", f));
            }
        }
    }
    for (auto& f : faults) s.items.push_back(f);
    return s;
}
static Verdict runP05(const Scenario& s) {
    Verdict v;
    auto ops = s.all("op");
    if (ops.empty()) return v;
    std::map<str, str> init;
    for (auto i : s.all("init")) init[i->s(0)] = content(i->s(1));
    Result r = child(configOf(s), [&] {
        sim::mkdirReal("sub"); sim::mkdirReal("sub/deep");
        for (auto& kv : init) sim::writeReal(kv.first, kv.second);
        std::set<str> denied; for (auto i : s.all("deny")) { denied.insert(i->s(0)); sim::deny(i->s(0)); }
        fuel::Session ses("", true, true, false);
        ses.eval(C(), "(defn rd (p) (do (def t (File-ReadAllText p)) (return t)))");
        for (size_t i = 0; i < ops.size(); i++) {
            str p = ops[i]->s(1), n = normPath(p), kind = ops[i]->s(0);
            str id = num((long)i);
            if (kind == "del") { if (!denied.count(n)) { unlink(n.c_str()); init.erase(n); } continue; }
            if (kind == "put") { if (!denied.count(n)) { init[n] = content(ops[i]->s(2)); sim::writeReal(n, init[n]); } continue; }
            if (kind == "write") {
                if (denied.count(n)) continue;
                init[n] = content(ops[i]->s(2)); for (auto& c : init[n]) if (!c) c = 'x';
                auto o = ses.eval(C(), "(File-WriteAllText " + lispPath(p) + " " + lispStr(init[n]) + ")");
                if (o.kind != "ok" || o.text != "#t") sim::emit("bad " + q("writing " + p + " without a fault: " + o.str()));
                continue;
            }
            auto fl = faultsFor(s, (long)i);
            str fk; for (auto& f : fl) fk += (fk.empty() ? "" : ",") + f.kind + ":" + f.act;
            bool isDir = n == "sub" || n == "sub/deep" || n.empty();
            bool isFile = init.count(n) > 0;
            str want = isFile ? init[n] : "";
            uint64_t before[32]; memcpy(before, sim::fired, sizeof before);
            auto firedNow = [&](const char* k, const char* a) { int x = sim::faultKindIndex(k, a); return sim::fired[x] - before[x]; };
            str code = kind == "exists" ? "(File-Exists " + lispPath(p) + ")" : kind == "readfn" ? "(rd " + lispPath(p) + ")" : kind == "twice" ? "(list (File-ReadAllText " + lispPath(p) + ") (File-ReadAllText " + lispPath(p) + "))" : "(File-ReadAllText " + lispPath(p) + ")";
            fuel::Outcome o; str got; bool escaped = false;
            if (kind == "runner") { auto sv = fuel::safeEval(C(), "(do " + code + ")", "main", false, false, "", fl); o = sv.o; escaped = sv.escaped; if (sv.isError) { o.kind = "error"; } }
            else o = ses.eval(C(), code, fl);
            bool eio = firedNow("read", "eio") > 0;
            bool openErr = firedNow("open", "emfile") + firedNow("open", "eacces") + firedNow("open", "eintr") > 0 || (denied.count(n) && !firedNow("open", "enoent")), noent = firedNow("open", "enoent") > 0, oom = firedNow("alloc", "fail") > 0;
            str problem;
            if (escaped) { if (firedNow("alloc", "fail") < 2) problem = "exception left the safe evaluation"; }   // memory has to be there again when the error is reported
            else if (kind == "exists") {
                if (!oom) {
                    bool can = isFile && !openErr && !noent;
                    if (o.kind != "ok" || o.text != (can ? "#t" : "#f")) { if (!(isFile && firedNow("open", "eintr") && o.text == "#t")) problem = str("existence test answered ") + o.str() + " but the file " + (can ? "can" : "can not") + " be opened"; }
                }
                else if (o.kind == "ok" && o.text != (isFile ? "#t" : "#f") && !openErr && !noent) problem = "existence test answered " + o.str() + " after a failed allocation";
            }
            else {
                bool exactly = false;
                if (o.kind == "ok") {
                    if (kind == "twice") { str one = "\"" + want + "\""; exactly = o.canon.size() > 0 && (o.text == "(" + one + " " + one + ")" || o.text == "(" + want + " " + want + ")"); }
                    else exactly = o.text == want;
                }
                bool mustErr = (isFile || isDir) && (eio || (isDir && !noent)) ;
                if (isFile && openErr) mustErr = true;
                if (o.kind == "ok") {
                    if (mustErr && !(firedNow("open", "eintr") && exactly)) problem = "the file could not be read but the script got " + num((long)o.text.size()) + " bytes instead of an error";
                    else if (noent && kind != "twice") { if (!(exactly || o.text.empty())) problem = "file reported missing, but content delivered differs"; }
                    else if (noent) {}
                    else if (!exactly) problem = "delivered " + num((long)o.text.size()) + " bytes, file has " + num((long)want.size()) + " (" + (o.text.size() == want.size() ? "content differs" : "size differs") + ")";
                }
                else {
                    bool allowed = mustErr || oom || openErr || denied.count(n) || isDir || firedNow("read", "eintr") || firedNow("close", "eio");
                    if (!allowed) problem = "reading failed without a reason: " + o.str();
                }
            }
            sim::emit("op " + id + " " + kind + " " + o.kind + " " + num((long)o.text.size()) + (problem.empty() ? "" : " BAD"));
            if (!problem.empty()) sim::emit("bad " + q("operation " + id + " (" + kind + " " + p + ", faults " + fk + "): " + problem));
        }
    });
    if (r.status != 0) { v.fail("run-" + r.statusText().substr(0, 7), r.statusText() + "\n" + cut(r.out)); return v; }
    auto bad = field(r.out, "bad");
    if (!bad.empty()) v.fail("read", unq(bad[0]));
    uint64_t anyFired = 0; for (int i = 0; i < 32; i++) anyFired += r.fired[i];
    v.nontrivial = anyFired > 0;
    return v;
}
static Reg regP05({"P05", genP05, runP05, "at least one fault (read or open error, short, chunked or interrupted read, failed allocation) fired during a read or existence test",
    "tokenizer, parser, interpreter, file builtins, C++ stream library, kernel file system", "error and chunking model of open/read/close, allocator"});
