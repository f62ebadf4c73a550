#include "check.h"
#include <cstring>
RunStats stats;
uint64_t runHash;
std::vector<Check>& checks() { static std::vector<Check> c; return c; }

Result child(const Config& c, const std::function<void()>& fn) {
    Result r = sim::runChild(c, fn);
    stats.children++;
    stats.simns += (long double)(r.simns < (1ULL << 62) ? r.simns : 0);
    for (int i = 0; i < sim::CK_N; i++) stats.cnt[i] += r.cnt.c[i];
    stats.yields += r.cnt.yields; stats.switches += r.cnt.switches;
    for (int i = 0; i < 32; i++) stats.fired[i] += r.fired[i];
    if (r.cnt.switches) stats.interleavings.insert(r.swhash);
    if (r.status == 4) stats.crashes++;
    uint64_t st = (uint64_t)r.status;
    runHash = sim::fnv(&r.hash, sizeof r.hash, runHash);
    runHash = sim::fnv(&st, sizeof st, runHash);
    return r;
}
Config configOf(const Scenario& s) {
    Config c;
    c.fill = (int)s.cfgn("fill", 0xCB);
    c.pad = s.cfgn("pad", 0);
    c.rchunk = s.cfgn("rchunk", 0); c.wchunk = s.cfgn("wchunk", 0);
    c.diskcap = s.cfgn("diskcap", -1);
    if (!s.cfg("wall0").empty()) c.wall0 = atoll(s.cfg("wall0").c_str());
    if (!s.cfg("mono0").empty()) c.mono0 = atoll(s.cfg("mono0").c_str());
    c.clocktick = s.cfgn("tick", 0);
    if (s.cfgn("budget", 0) > 0) c.budget = (uint64_t)s.cfgn("budget", 0);
    return c;
}
Fault faultOf(const Item& i, size_t f) { Fault x; x.kind = i.s(f); x.act = i.s(f + 1); x.nth = (uint64_t)i.n(f + 2, 1); x.v = i.n(f + 3, 0); return x; }
std::vector<Fault> faultsFor(const Scenario& s, long op) {
    std::vector<Fault> r;
    for (auto& i : s.items) if (i.kind == "fault" && i.n(0) == op) r.push_back(faultOf(i, 1));
    return r;
}
std::vector<str> splitLines(const str& s) { std::vector<str> r; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == str::npos) e = s.size(); r.push_back(s.substr(p, e - p)); p = e + 1; } return r; }
bool startsWith(const str& s, const str& p) { return s.compare(0, p.size(), p) == 0; }
bool endsWith(const str& s, const str& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
str num(long long v) { return std::to_string(v); }
str joined(const strs& v, const str& sep) { str r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r; }
str cut(const str& s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + "...[" + num((long long)s.size()) + " bytes]"; }
str lispStr(const str& s) { str r = "\""; for (char c : s) { switch (c) { case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break; case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; default: r += c; } } return r + "\""; }
std::vector<str> field(const str& out, const str& tag) { std::vector<str> r; str t = tag + " "; for (auto& l : splitLines(out)) if (startsWith(l, t)) r.push_back(l.substr(t.size())); else if (l == tag) r.push_back(""); return r; }
str one(const str& out, const str& tag, const str& def) { auto v = field(out, tag); return v.empty() ? def : v.back(); }
str q(const str& s) { return sim::esc(s); }
str unq(const str& s) { return sim::unesc(s); }
str firstDiff(const str& a, const str& b) {
    auto x = splitLines(a), y = splitLines(b);
    for (size_t i = 0; i < x.size() || i < y.size(); i++) {
        str l = i < x.size() ? x[i] : "<nothing>", m = i < y.size() ? y[i] : "<nothing>";
        if (l != m) return "line " + num((long long)i + 1) + ": expected [" + cut(l) + "] got [" + cut(m) + "]";
    }
    return a == b ? "equal" : "differ in line ends only";
}
