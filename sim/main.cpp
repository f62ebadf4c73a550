// Driver: seeded search (batch), exact replay of one scenario (replay), minimisation of a failing scenario.
#include "check.h"
#include <cstdio>
#include <cstring>
#include <sys/personality.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

using namespace sim;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

static Check* find(const str& id) { for (auto& c : checks()) if (id == c.id) return &c; return nullptr; }
struct Run { Verdict v; uint64_t hash; };
static Run runScenario(Check& c, const Scenario& s) {
    runHash = 1469598103934665603ULL;
    Run r; r.v = c.run(s); r.hash = runHash;
    return r;
}
static Scenario generate(Check& c, uint64_t base, uint64_t i, bool thorough) {
    uint64_t seed = mix(base, i);
    Rng r(seed);
    Scenario s = c.gen(r, thorough);
    s.prop = c.id; s.seed = seed;
    return s;
}

// ---- minimisation ----------------------------------------------------------------------------------------------
struct SNode { size_t a, b; };      // sub expressions [a,b)
static void subExprs(const str& t, std::vector<SNode>& out) {
    std::vector<size_t> st; bool in = false;
    for (size_t i = 0; i < t.size(); i++) {
        char ch = t[i];
        if (in) { if (ch == '\\') i++; else if (ch == '"') in = false; continue; }
        if (ch == '"') in = true;
        else if (ch == ';') { while (i < t.size() && t[i] != '\n') i++; }
        else if (ch == '(') st.push_back(i);
        else if (ch == ')' && !st.empty()) { out.push_back({st.back(), i + 1}); st.pop_back(); }
    }
}
struct Minimiser {
    Check& c; str cls; double deadline; Scenario best; int tries = 0;
    bool test(const Scenario& s) {
        if (now() > deadline) return false;
        tries++;
        Run r = runScenario(c, s);
        if (!r.v.ok && r.v.cls == cls) { best = s; return true; }
        return false;
    }
    void dropItems() {
        size_t n = std::max<size_t>(1, best.items.size() / 2);
        while (now() < deadline) {
            bool any = false;
            for (size_t i = 0; i < best.items.size() && now() < deadline;) {
                Scenario s = best;
                size_t e = std::min(s.items.size(), i + n);
                s.items.erase(s.items.begin() + (long)i, s.items.begin() + (long)e);
                if (test(s)) any = true; else i += n;
            }
            if (n == 1 && !any) break;
            if (n > 1) n = (n + 1) / 2; else if (!any) break;
        }
    }
    static bool isNumber(const str& a) { if (a.empty() || a.size() > 9) return false; for (char ch : a) if (!isdigit((unsigned char)ch)) return false; return true; }
    void shrinkArgs() {
        for (size_t i = 0; i < best.items.size(); i++) for (size_t k = 0; k < best.items[i].a.size(); k++) {
            str a = best.items[i].a[k];
            if (isNumber(a) && best.items[i].kind != "cfg") {
                long v = atol(a.c_str());
                for (long t : {0L, 1L, v / 2, v - 1}) { if (t < 0 || t >= v) continue; Scenario s = best; s.items[i].a[k] = std::to_string(t); if (test(s)) { v = t; k--; break; } }
            }
            else if (a.find('(') != str::npos) {
                bool again = true;
                while (again && now() < deadline) {
                    again = false;
                    str t = best.items[i].a[k];
                    std::vector<SNode> e; subExprs(t, e);
                    std::sort(e.begin(), e.end(), [](const SNode& x, const SNode& y) { return x.b - x.a > y.b - y.a; });
                    for (auto& n : e) {
                        if (now() > deadline) break;
                        Scenario s = best; s.items[i].a[k] = t.substr(0, n.a) + t.substr(n.b);
                        if (test(s)) { again = true; break; }
                        bool hit = false;
                        for (auto& m : e) if (m.a > n.a && m.b < n.b) { Scenario u = best; u.items[i].a[k] = t.substr(0, n.a) + t.substr(m.a, m.b - m.a) + t.substr(n.b); if (test(u)) { hit = true; break; } if (now() > deadline) break; }
                        if (hit) { again = true; break; }
                    }
                }
            }
        }
    }
};
static Scenario minimise(Check& c, const Scenario& s, const str& cls, double seconds, int* tries) {
    Minimiser m{c, cls, now() + seconds, s};
    for (int round = 0; round < 3 && now() < m.deadline; round++) {
        str before = serialize(m.best);
        m.dropItems(); m.shrinkArgs();
        if (serialize(m.best) == before) break;
    }
    if (tries) *tries = m.tries;
    return m.best;
}

// ---- output ----------------------------------------------------------------------------------------------------
static str jstr(const str& s) {
    str r = "\""; char b[8];
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; } else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; } else r += (char)ch; }
    return r + "\"";
}
static str hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
static void writeFile(const str& p, const str& d) { FILE* f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); exit(2); } fwrite(d.data(), 1, d.size(), f); fclose(f); }
static bool exists(const str& p) { struct stat st; return stat(p.c_str(), &st) == 0; }

int main(int argc, char** argv) {
    if (!getenv("SIM_NOASLR") && (personality(0xffffffff) & ADDR_NO_RANDOMIZE) == 0) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::sort(checks().begin(), checks().end(), [](const Check& a, const Check& b) { return str(a.id) < b.id; });
    str mode = argc > 1 ? argv[1] : "";
    if (mode == "list") { for (auto& c : checks()) printf("%s\n", c.id); return 0; }
    if (mode == "replay" && argc > 2) {
        bool ok; str text = readReal(argv[2], &ok);
        Scenario s;
        if (!ok || !parse(text, s)) { fprintf(stderr, "cannot read scenario\n"); return 2; }
        Check* c = find(s.prop); if (!c) { fprintf(stderr, "unknown property\n"); return 2; }
        if (getenv("SIM_SHOW")) setenv("SIM_TRANSCRIPT", "1", 1);
        Run r = runScenario(*c, s);
        printf("property %s\nseed %llu\nverdict %s\nclass %s\nhash %s\nnontrivial %d\ndetail %s\n", c->id, (unsigned long long)s.seed, r.v.ok ? "held" : "VIOLATED", r.v.cls.c_str(), hex(r.hash).c_str(), (int)r.v.nontrivial, r.v.detail.c_str());
        return r.v.ok ? 0 : 1;
    }
    if (mode == "gen" && argc > 4) {
        Check* c = find(argv[2]); if (!c) return 2;
        Scenario s = generate(*c, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), argc > 5 && atoi(argv[5]));
        printf("%s", serialize(s).c_str());
        return 0;
    }
    if (mode == "hashes" && argc > 5) {     // determinism: hash of every scenario of a range
        Check* c = find(argv[2]); if (!c) return 2;
        uint64_t base = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), to = strtoull(argv[5], 0, 10), step = argc > 6 ? strtoull(argv[6], 0, 10) : 1;
        for (uint64_t i = from; i < to; i += step) { Scenario s = generate(*c, base, i, false); Run r = runScenario(*c, s); printf("%llu %s %d\n", (unsigned long long)i, hex(r.hash).c_str(), (int)r.v.ok); }
        return 0;
    }
    if (mode == "batch" && argc > 8) {
        Check* c = find(argv[2]); if (!c) { fprintf(stderr, "unknown property\n"); return 2; }
        uint64_t base = strtoull(argv[3], 0, 10), w = strtoull(argv[4], 0, 10), nw = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
        double secs = atof(argv[7]); str dir = argv[8]; bool thorough = argc > 9 && atoi(argv[9]);
        double t0 = now();
        strs samples; uint64_t maxi = 0; bool violated = false;
        str vjson;
        for (uint64_t i = w; i < count; i += nw) {
            if (now() - t0 > secs) break;
            if (exists(dir + "/stop")) break;
            Scenario s = generate(*c, base, i, thorough);
            Run r = runScenario(*c, s);
            stats.scenarios++; maxi = i;
            if (r.v.nontrivial) { stats.nontrivial++; stats.histories.insert(r.v.state.empty() ? r.hash : fnv(r.v.state.data(), r.v.state.size())); if (samples.size() < 2) samples.push_back(serialize(s)); }
            if (!r.v.ok) {
                Run r2 = runScenario(*c, s);
                if (r2.hash != r.hash || r2.v.cls != r.v.cls) { fprintf(stderr, "not deterministic: seed %llu\n%s", (unsigned long long)s.seed, serialize(s).c_str()); writeFile(dir + "/nondet" + std::to_string(w) + ".sim", serialize(s)); writeFile(dir + "/stop", "x"); return 2; }
                writeFile(dir + "/found" + std::to_string(w) + ".orig.sim", serialize(s));
                writeFile(dir + "/stop", "x");
                int tries = 0;
                Scenario m = minimise(*c, s, r.v.cls, thorough ? 60 : 30, &tries);
                Run rm = runScenario(*c, m);
                if (rm.v.ok || rm.v.cls != r.v.cls) { m = s; rm = r; }
                str name = dir + "/found" + std::to_string(w) + ".sim";
                str text = serialize(m);
                text += "# class " + rm.v.cls + "\n# hash " + hex(rm.hash) + "\n";
                for (auto& l : splitLines(rm.v.detail)) text += "# " + l + "\n";
                writeFile(name, text);
                vjson = "{\"file\":" + jstr(name) + ",\"class\":" + jstr(rm.v.cls) + ",\"detail\":" + jstr(cut(rm.v.detail, 1500)) + ",\"hash\":\"" + hex(rm.hash) + "\",\"seed\":" + std::to_string(s.seed) + ",\"tries\":" + std::to_string(tries) + "}";
                violated = true;
                break;
            }
        }
        str j = "{\"scenarios\":" + std::to_string(stats.scenarios) + ",\"nontrivial\":" + std::to_string(stats.nontrivial) + ",\"children\":" + std::to_string(stats.children) + ",\"simulated_s\":" + std::to_string((double)(stats.simns / 1e9L));
        j += ",\"wall\":" + std::to_string(now() - t0) + ",\"steps\":{";
        for (int i = 0; i < CK_N; i++) j += str(i ? "," : "") + "\"" + CKNAME[i] + "\":" + std::to_string(stats.cnt[i]);
        j += "},\"yields\":" + std::to_string(stats.yields) + ",\"switches\":" + std::to_string(stats.switches) + ",\"deaths\":" + std::to_string(stats.crashes) + ",\"faults\":{";
        bool first = true;
        for (size_t i = 0; i < faultKindNames.size(); i++) if (stats.fired[i]) { j += str(first ? "" : ",") + jstr(faultKindNames[i]) + ":" + std::to_string(stats.fired[i]); first = false; }
        j += "},\"rule\":" + jstr(c->rule) + ",\"real\":" + jstr(c->real) + ",\"stub\":" + jstr(c->stub) + ",\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++) j += str(i ? "," : "") + jstr(cut(samples[i], 1500));
        j += "],\"violation\":" + (violated ? vjson : str("null")) + "}\n";
        writeFile(dir + "/w" + std::to_string(w) + ".json", j);
        str h; for (auto x : stats.histories) h += "h" + hex(x) + "\n"; for (auto x : stats.interleavings) h += "i" + hex(x) + "\n";
        writeFile(dir + "/w" + std::to_string(w) + ".sets", h);
        return violated ? 1 : 0;
    }
    fprintf(stderr, "usage: simfuel list | gen P base i | replay file | hashes P base from to [step] | batch P base worker nworkers count seconds dir [thorough]\n");
    return 2;
}
