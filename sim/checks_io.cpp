// P09 (interactive loops), P10 (time) and P11 (console): the console, the clocks and the zone of the process are simulated.
#include "broad.h"
#include "files.h"
#include "session.h"
#include <algorithm>
#include <cstring>
#include <time.h>

static strs splitKeep(const str& t) { strs r; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == str::npos) { r.push_back(t.substr(p)); break; } r.push_back(t.substr(p, e - p)); p = e + 1; } return r; }
static size_t countOf(const str& t, const str& w) { size_t n = 0, p = 0; while ((p = t.find(w, p)) != str::npos) { n++; p += w.size(); } return n; }
static const char* kPrompt = "FUEL(isp)-DBG> ";

// ---- P09 ----------------------------------------------------------------------------------------------------------
// items: mode shell|debug|maini|maind | prog <text> | line <text> | chunk <n> | cut <byte> | nonl 1 | fault 0 cout fail <nth> <v>
static Scenario genP09(Rng& r, bool thorough) {
    Scenario s;
    static const strs modes = {"shell", "shell", "debug", "debug", "debug", "maini", "maind"};
    str mode = r.pick(modes);
    s.items.push_back(Item("mode", {mode}));
    if (mode[0] == 'm' && r.p(0.4)) s.items.push_back(Item("cfg", {"eopt", "1"}));
    if (mode[0] == 'm' && r.p(0.3)) s.items.push_back(Item("cfg", {"topt", "1"}));
    if (r.p(0.3)) s.items.push_back(Item("cfg", {"fill", num((long)r.below(256))}));
    bool dbg = mode == "debug" || mode == "maind";
    bool reads = r.p(0.4);
    if (dbg) {
        Broad b(r); b.wWild = r.p(0.5) ? 0 : 1; b.wIo = 0; b.wIn = 0; b.wTime = 0; b.wDoc = 0; b.files = false;
        static const strs tiny = {"", "; only a comment", "5", "\"text\"", "(nop)", "(nosuchfunction 1)", "(((", "NIL", "(println 1)", "(do)", ")", "()", "(return 4)", "(println \"a\")\n(nosuchfunction)\n", "(quote x)", "\n\n"};
        str prog = r.p(0.35) ? r.pick(tiny) : b.program((int)r.range(0, 4), r.p(0.15), r.p(0.5) ? 0 : 0.1);
        if (reads) { int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) prog += r.p(0.6) ? "(println \"READ\" (readline))\n" : "(defn rdl" + num(i) + " () (println \"READ\" (readline)))\n(rdl" + num(i) + ")\n"; }
        s.items.push_back(Item("prog", {prog}));
    }
    int n = (int)r.range(0, thorough ? 25 : 14);
    bool clear = r.p(0.3);
    for (int i = 0; i < n; i++) {
        double x = (double)r.below(1000) / 1000;
        str l;
        if (x < 0.3) l = "(nop (println \"L" + num(i) + ";\"))";
        else if (x < 0.34 && reads) l = "(nop (println \"TREAD\" (readline)))";
        else if (x < 0.40) { static const strs e = {"(nosuch 1)", "(nosuch", ")", "(println \"abc", "((", "5", "x", "(+ 1", "'", "#", "(setf)", "(def)", "(nop \"\xC3\xBC\")", "(return 3)", "(if)", "(import \"nowhere.fuel\")", "(break)"}; l = r.pick(e); }
        else if (x < 0.44) l = "(def zq" + num(i) + " " + num(i) + ")";
        else if (x < 0.47) l = "(defn zf (a) (+ a 1)) (zf " + num(i) + ")";
        else if (x < 0.48) l = "(nop " + lispStr(str((size_t)r.logu(4000), 'y')) + ")";
        else if (x < 0.62) { static const strs c = {"s", "step", "v", "over", "o", "out"}; l = dbg || r.p(0.05) ? r.pick(c) : "k"; }
        else if (x < 0.68) { l = dbg || r.p(0.05) ? (r.p(0.5) ? "r" : "run") : "stack"; }
        else if (x < 0.70) l = r.p(0.5) && dbg ? "restart" : "version";
        else if (x < 0.88) { static const strs c = {"k", "l", "g", "list", "t", "u", "d", "up", "down", "b 2", "b 1 (> 1 0)", "b main:3", "b x:y", "b ", "break 2 (nosuch)", "clear 1", "clear 9", "clear x", "about", "ver", "help", "h", "macros", "modules", "doc len", "searchdoc nop", "doc nosuchname", "locals", "globals"}; l = r.pick(c); }
        else if (x < 0.91 && clear) { s.items.push_back(Item("line", {"clear"})); static const strs a = {"y", "n", "Yes", "no", "maybe", "x"}; l = r.pick(a); }
        else if (x < 0.93) { static const strs c = {"funcs", "builtins", "code", "c"}; l = dbg || r.p(0.3) ? r.pick(c) : "about"; }
        else if (x < 0.945) { static const strs c = {"", "exit", "quit", "q", "   ", "\t", "y", "n", "y", "Y"}; l = r.pick(c); }
        else l = "(nop (println \"L" + num(i) + ";\"))";
        if (r.p(0.05)) l = "  " + l + " \t";
        if (r.p(0.04)) l += "\r";
        s.items.push_back(Item("line", {l}));
    }
    if (r.p(0.25)) s.items.push_back(Item("nonl", {"1"}));
    int ch = (int)r.below(12); bool tiny = r.p(0.3);
    for (int i = 0; i < ch; i++) s.items.push_back(Item("chunk", {num((long)(tiny ? r.range(1, 3) : r.logu(80)))}));
    if (r.p(0.75)) s.items.push_back(Item("cut", {num((long)r.below(400))}));
    if (r.p(0.3)) s.items.push_back(Item("fault", {"0", "cout", "fail", num((long)r.logu(200)), num((long)r.logu(20))}));
    if (r.p(0.3)) s.items.push_back(Item("fault", {"1", "alloc", "fail", num((long)(r.p(0.5) ? 1 + r.below(3000) : 1 + r.below(30000))), "1"}));
    return s;
}
static Verdict runP09(const Scenario& s) {
    Verdict v;
    str mode = s.first("mode") ? s.first("mode")->s(0) : "shell", prog = s.first("prog") ? s.first("prog")->s(0) : "", text;
    strs lines; for (auto i : s.all("line")) lines.push_back(i->s(0));
    for (auto& l : lines) text += l + "\n";
    if (s.first("nonl") && !text.empty()) text.pop_back();
    std::vector<long> chunks; for (auto i : s.all("chunk")) chunks.push_back(std::max(1L, i->n(0)));
    bool dbg = mode == "debug" || mode == "maind";
    auto run = [&](const str& input, bool cin, int faults) {
        return child(configOf(s), [&] {
            sim::writeReal("prog.fuel", prog);
            sim::setConsoleInput(cin ? input : "", cin ? chunks : std::vector<long>());
            auto f = faults ? faultsFor(s, faults - 1) : std::vector<Fault>();
            fuel::Safe o;
            strs a; if (s.cfgn("topt")) a.push_back("-t");
            if (s.cfgn("eopt")) { a.push_back("-e"); a.push_back("(println \"ONCE\")\n" + prog); } else if (mode == "maind") a.push_back("prog.fuel");
            if (mode == "debug") o = fuel::debugRun(C(), prog, "prog.fuel", input, f, false, cin);
            else if (mode[0] == 'm') { a.insert(a.begin(), mode == "maini" ? "-i" : "-d"); o = fuel::mainRun(C(), a, input, f, cin); }
            else o = fuel::shellRun(C(), input, f, cin);
            sim::emit("end " + q(o.escaped ? "escaped " + o.escapedWhat : o.o.str()));
            sim::emit("out " + q(o.output));
        });
    };
    auto ended = [&](const Result& r, const str& what) {
        if (r.status != 0) { v.fail(r.status == 2 ? "endless" : "run-" + r.statusText().substr(0, 7), what + ": " + r.statusText() + "\n" + cut(r.out)); return false; }
        if (startsWith(unq(one(r.out, "end")), "escaped")) { v.fail("escape", what + ": " + unq(one(r.out, "end"))); return false; }
        return true;
    };
    Result a = run(text, false, 0);
    if (!ended(a, "lines as text")) return v;
    str out = unq(one(a.out, "out"));
    Result b = run(text, true, 0);
    if (!ended(b, "lines from the console")) return v;
    if (a.out != b.out) { v.fail("chunks", "the same lines from the console in chunks give a different run:\n" + unq(firstDiff(a.out, b.out))); return v; }
    if (s.cfgn("topt")) { size_t x = out.rfind("Result="); if (x != str::npos) out.resize(x); }       // the result of the command line
    // every line is processed exactly once and in order
    size_t prompts = countOf(out, kPrompt), reads = countOf(out, "READ ");
    bool noClear = std::find(lines.begin(), lines.end(), str("clear")) == lines.end();
    for (auto& l : lines) { str t = l; size_t x = t.find_first_not_of(" \t"); if (x != str::npos) t = t.substr(x); if (startsWith(t, "clear") || t == "code" || t == "c" || startsWith(t, "c")) noClear = noClear && !(startsWith(t, "clear") && t.find_first_of("0123456789x", 5) == str::npos); }
    bool hasCode = false; for (auto& l : lines) { str t = l; size_t x = t.find_first_not_of(" \t"); if (x != str::npos) t = t.substr(x); if (t == "code" || (t.size() && t[0] == 'c' && !startsWith(t, "clear"))) hasCode = true; }
    long last = -1, got = 0; size_t p = 0;
    std::set<long> seen;
    if (!(hasCode && !dbg)) {
        for (p = 0; p < out.size(); p++) {
            if (out[p] != 'L' || p + 1 >= out.size() || !isdigit((unsigned char)out[p + 1])) continue;
            size_t e = p + 1; while (e < out.size() && isdigit((unsigned char)out[e])) e++;
            if (e >= out.size() || out[e] != ';') continue;
            if (p >= 7 && (out.compare(p - 7, 7, "result=") == 0 || out.compare(p - 7, 7, "Result=") == 0)) continue;
            long k = atol(out.c_str() + p + 1);
            // text typed at a stop may itself stop: its output then comes after the lines typed there
            bool nested = dbg && k < last && !seen.count(k) && out.rfind("--> ", p) != str::npos;
            if (nested) { seen.insert(k); got++; continue; }
            if (k <= last) { v.fail("twice", "line L" + num(k) + " shows up after L" + num(last) + ":\n" + cut(out, 3000)); return v; }
            last = k; seen.insert(k); got++;
        }
        if (noClear) {
            size_t consumed = prompts + reads, missing = 0; str which;
            for (size_t i = 0; i < lines.size(); i++) {
                size_t m = lines[i].find("(nop (println \"L"); if (m == str::npos) continue;
                long k = atol(lines[i].c_str() + m + 16);
                bool is = seen.count(k) > 0;
                if (i < consumed && !is) { missing++; which = lines[i]; }
                if (i >= consumed && is) { v.fail("count", "line " + num((long)i + 1) + " (" + lines[i] + ") was executed, but there were only " + num((long)prompts) + " prompts and " + num((long)reads) + " reads"); return v; }
            }
            bool anyRead = prog.find("readline") != str::npos || text.find("readline") != str::npos;
            // a typed text that stopped inside and was left there has not come to its output
            if (missing > (anyRead ? 1u : 0u) + countOf(out, "Native Exception")) { v.fail("lost", num((long)missing) + " of the processed lines left no trace, i. e. " + which + " (" + num((long)prompts) + " prompts, " + num((long)reads) + " reads):\n" + cut(out, 3000)); return v; }
        }
    }
    if (s.cfgn("eopt")) { bool shows = false; for (auto& l : lines) { str t = l; size_t x = t.find_first_not_of(" \t"); if (x != str::npos && t[x] == 'c') shows = true; }
        size_t once = countOf("\n" + out, "ONCE\n") ; if (!shows && once > 1 + countOf(out, "restart program")) { v.fail("again", "the program was executed " + num((long)once) + " times:\n" + cut(out, 3000)); return v; } }
    // no prompt without a line: only the end of the input may be read by the loops that are open then
    if (prompts > lines.size() + 12) { v.fail("prompts", num((long)prompts) + " prompts for " + num((long)lines.size()) + " lines"); return v; }
    if (auto c = s.first("cut")) {
        str part = text.substr(0, std::min(text.size(), (size_t)std::max(0L, c->n(0))));
        Result x = run(part, true, 0);
        if (!ended(x, "input ends after " + num((long)part.size()) + " bytes")) return v;
        // after the end every read delivers an empty line
        str more = part; if (!more.empty() && more.back() != '\n') more += "\n";
        for (int i = 0; i < 25; i++) more += "\n";
        more += "(nop (println \"SENTINEL\"))\nr\n";
        Result y = run(more, false, 0);
        if (!ended(y, "input followed by empty lines")) return v;
        if (x.out != y.out) { v.fail("end", "after the end of the input (" + num((long)part.size()) + " bytes) the loop does not behave as with empty lines:\n" + unq(firstDiff(y.out, x.out))); return v; }
        if (unq(one(y.out, "out")).find("SENTINEL") != str::npos) { v.fail("sentinel", "more than 25 lines were read after the end of the input"); return v; }
    }
    if (!faultsFor(s, 0).empty()) {
        Result x = run(text, s.seed % 2 == 0, 1);
        if (!ended(x, "console output fails")) return v;
        if (x.out != a.out) { v.fail("console", "a failing console changes the run:\n" + unq(firstDiff(a.out, x.out))); return v; }
    }
    if (!faultsFor(s, 1).empty() && !(hasCode && !dbg)) {
        // a failing allocation: the loops end, and no line is processed twice
        Result x = run(text, s.seed % 2 == 0, 2);
        if (x.status != 0) { v.fail(x.status == 2 ? "endless" : "run-" + x.statusText().substr(0, 7), "a failing allocation: " + x.statusText() + "\n" + cut(x.out)); return v; }
        str o = unq(one(x.out, "out"));
        if (s.cfgn("topt")) { size_t e = o.rfind("Result="); if (e != str::npos) o.resize(e); }
        if (!dbg) {
            long at = -1;
            for (size_t i = 0; i < o.size(); i++) {
                if (o[i] != 'L' || i + 1 >= o.size() || !isdigit((unsigned char)o[i + 1]) || (i >= 7 && o.compare(i - 7, 7, "result=") == 0)) continue;
                size_t e = i + 1; while (e < o.size() && isdigit((unsigned char)o[e])) e++;
                if (e >= o.size() || o[e] != ';') continue;
                long k = atol(o.c_str() + i + 1);
                if (k <= at) { v.fail("alloc-twice", "with a failing allocation line L" + num(k) + " shows up after L" + num(at) + ":\n" + cut(o, 3000)); return v; }
                at = k;
            }
        }
    }
    v.nontrivial = got > 0 || s.first("cut");
    return v;
}
static Reg regP09({"P09", genP09, runP09, "at least one marked line was executed, or the input was cut",
    "interactive shell, debugger loops, command line runner, interpreter", "console input (chunks, end at any byte), console output (errors)"});

// ---- P10 ----------------------------------------------------------------------------------------------------------
// items: cfg tasks|tick|wall0|mono0 | tz <text> | op <task> tick|sleep|date|span|main|adv|jump <n> <n> | fault <op> ... | sw <task> <kind> <nth> <to>
static const strs kZones = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NPT-5:45", "<+14>-14", "<-12>12", "AEST-10AEDT,M10.1.0,M4.1.0/3", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"};
static Scenario genP10(Rng& r, bool thorough) {
    Scenario s;
    bool tasks = r.p(0.3);
    s.items.push_back(Item("cfg", {"tasks", num(tasks ? 2 : 1)}));
    s.items.push_back(Item("tz", {r.pick(kZones)}));
    long long wall;
    double x = (double)r.below(100) / 100;
    static const std::vector<long long> edges = {0, 86399, 951782399, 951782400, 951868799, 1078012800, 1078099200, 1709164799, 1709251199, 1711846799, 1711846800, 1729990800, 1729994400, 1710053999, 1710054000, 1730613600, 2147483646, 2147483648LL, 4107542399LL, 4107542400LL, 1703980799, 1704067199, 1704067200, 1735689599, 253402300799LL};
    if (x < 0.5) wall = r.pick(edges) + r.range(-2, 2) + (r.p(0.3) ? 3600 * r.range(-14, 14) : 0); else wall = (long long)r.below(4200000000ULL);
    if (wall < 0) wall = 0;
    s.items.push_back(Item("cfg", {"wall0", num(wall * 1000000000LL + (long long)r.below(1000000000))}));
    static const std::vector<long long> mono = {0, 1, 999999, 1000000, 5000000000LL, 2147483647000000LL, 2147483646999999LL, 4294967295999999LL, 4294967296000000LL, 86400000000000LL};
    s.items.push_back(Item("cfg", {"mono0", num(r.p(0.6) ? r.pick(mono) : (long long)r.below(9000000000000000ULL))}));
    if (r.p(0.5)) { static const std::vector<long> t = {1, 1000, 499999, 999999, 1000000, 1000001, 700000000, 1000000000}; s.items.push_back(Item("cfg", {"tick", num(r.pick(t))})); }
    int n = (int)r.range(1, thorough ? 14 : 8);
    std::vector<Item> faults;
    for (int i = 0; i < n; i++) {
        static const strs kinds = {"tick", "tick", "sleep", "sleep", "date", "date", "date", "span", "main", "adv", "jump"};
        str k = r.pick(kinds);
        if (tasks && (k == "main" || k == "span")) k = "date";
        static const std::vector<long> ms = {0, 1, 2, 10, 999, 1000, 1001, 59999, 86400000, -5, 2147483, 100000000};
        long a = k == "adv" ? (long)r.logu(200000000) : k == "jump" ? (r.p(0.5) ? -1 : 1) * (long)r.logu(4000000) * (r.p(0.3) ? 1000 : 1) : r.p(0.7) ? r.pick(ms) : (long)r.logu(100000);
        s.items.push_back(Item("op", {num(tasks ? (long)r.below(2) : 0), k, num(a), num((long)r.range(1, 4))}));
        int nf = r.p(0.5) ? (int)r.range(1, 3) : 0;
        for (int j = 0; j < nf; j++) {
            if (r.p(0.5)) faults.push_back(Item("fault", {num(i), "sleep", "eintr", num((long)r.range(1, 4)), num((long)r.below(101))}));
            else faults.push_back(Item("fault", {num(i), "clock", "jump", num((long)r.range(1, 5)), num((r.p(0.5) ? -1 : 1) * (long)r.logu(90000000))}));
        }
    }
    for (auto& f : faults) s.items.push_back(f);
    if (tasks) { int k = (int)r.range(1, 12); for (int i = 0; i < k; i++) { static const std::vector<long> kd = {sim::Y_CLOCK, sim::Y_CLOCK, sim::Y_ALLOC, sim::Y_CALL}; long kind = r.pick(kd); s.items.push_back(Item("sw", {num((long)r.below(2)), num(kind), num((long)r.logu(kind == sim::Y_ALLOC ? 4000 : 12)), num((long)r.below(2))})); } }
    return s;
}
// calendar date of a day number, independent of the C library
static void civil(long long z, int& y, int& m, int& d) {
    z += 719468; long long era = (z >= 0 ? z : z - 146096) / 146097; unsigned long doe = (unsigned long)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long long yy = (long long)yoe + era * 400; unsigned long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    d = (int)(doy - (153 * mp + 2) / 5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y = (int)(yy + (m <= 2));
}
static str calendar(long long ns) {
    time_t t = (time_t)(ns / 1000000000LL); struct tm l; localtime_r(&t, &l);
    long long loc = (long long)t + l.tm_gmtoff, day = loc >= 0 ? loc / 86400 : -((-loc + 86399) / 86400), sec = loc - day * 86400;
    int y, m, d; civil(day, y, m, d);
    return "(" + num(y) + " " + num(m) + " " + num(d) + " " + num(sec / 3600) + " " + num(sec / 60 % 60) + " " + num(sec % 60) + ")";
}
static Verdict runP10(const Scenario& s) {
    Verdict v;
    auto ops = s.all("op");
    if (ops.empty()) return v;
    bool tasks = s.cfgn("tasks", 1) > 1;
    Config c = configOf(s);
    sim::Schedule sch;
    for (auto i : s.all("sw")) sch.sw.push_back({(int)i->n(0), (int)i->n(1), (uint64_t)i->n(2), (int)i->n(3)});
    str zone = s.first("tz") ? s.first("tz")->s(0) : "UTC0";
    Result r = child(c, [&] {
        { sim::Guard g; setenv("TZ", zone.c_str(), 1); tzset(); }
        auto task = [&](int t, Ctx& cx) {
            fuel::Session ses("", true, true, true);
            long long firstMono0 = -1, firstMono1 = -1; long long first = 0;
            for (size_t i = 0; i < ops.size(); i++) {
                if (tasks && ops[i]->n(0) != t) continue;
                str k = ops[i]->s(1), id = num((long)i), bad; long n = ops[i]->n(2);
                if (k == "adv") { sim::advance((long long)n * 1000LL + 7); continue; }
                if (k == "jump") { sim::simWall += (long long)n * 1000000LL; if (sim::simWall < 0) sim::simWall = 0; continue; }
                auto f = faultsFor(s, (long)i);
                long long m0 = sim::simMono; cx.wallSeen.clear();
                if (k == "tick") {
                    auto o = ses.eval(cx, "(tickcount)", f);
                    long long m1 = sim::simMono;
                    if (o.kind != "ok") bad = "failed: " + o.str();
                    else {
                        long long val = atoll(o.text.c_str());
                        if (firstMono0 < 0) { first = val; firstMono0 = m0; firstMono1 = m1; }
                        else {
                            unsigned int d = (unsigned int)(val - first);        // the counter wraps around like the one of the system
                            unsigned int lo = (unsigned int)((m0 - firstMono1) / 1000000 - 1), span = (unsigned int)((m1 - m0) / 1000000 + (firstMono1 - firstMono0) / 1000000 + 3);
                            if (d - lo > span) bad = "two ticks differ by " + num((long long)(int)d) + " ms but " + num((m1 - firstMono0) / 1000000) + " ms passed";
                        }
                    }
                }
                else if (k == "sleep") {
                    auto o = ses.eval(cx, "(sleep " + num(n) + ")", f);
                    if (o.kind != "ok") bad = "failed: " + o.str();
                    else if (n > 0 && sim::simMono - m0 < (long long)n * 1000000LL) bad = "a sleep of " + num(n) + " ms returned after " + num((sim::simMono - m0) / 1000) + " us";
                }
                else if (k == "span") {
                    long rep = ops[i]->n(3, 1); str code = "(def zt (tickcount))"; for (long j = 0; j < rep; j++) code += "(sleep " + num(n) + ")";
                    code += "(def ze (- (tickcount) zt))";
                    auto o = ses.eval(cx, code, f);
                    if (o.kind != "ok") bad = "failed: " + o.str();
                    else { str e = ses.lookup("ze"); long long want = n > 0 ? (long long)n * rep : 0, d = e.size() > 1 ? atoll(e.c_str() + 1) : -1, all = (sim::simMono - m0) / 1000000; if ((long long)(int)want == want && all < 2147483647LL && (e[0] != 'i' || d < want - 1 || d > all + 1)) bad = "measured " + e + " ms around sleeps of " + num(want) + " ms, " + num(all) + " ms passed"; }
                }
                else if (k == "main") {
                    long rep = ops[i]->n(3, 1); str code; for (long j = 0; j < rep; j++) code += "(sleep " + num(n) + ")";
                    sim::writeReal("t.fuel", code);
                    auto o = fuel::mainRun(cx, {"-m", "t.fuel"}, "x", f);
                    long long all = (sim::simMono - m0) / 1000000, want = n > 0 ? (long long)n * rep : 0; size_t p = o.output.find("Execution time = ");
                    double sec = p == str::npos ? -1 : atof(o.output.c_str() + p + 17);
                    if (o.escaped) bad = "escaped: " + o.escapedWhat;
                    else if (p == str::npos) bad = "no execution time in " + cut(o.output);
                    else if (sec * 1000 < (double)want - 1.5 || sec * 1000 > (double)all + 1.5) bad = "execution time " + o.output.substr(p + 17, 20) + " for " + num(want) + " ms of sleep, " + num(all) + " ms passed";
                }
                else if (k == "date") {
                    auto o = ses.eval(cx, "(date-time)", f);
                    if (o.kind != "ok") bad = "failed: " + o.str();
                    else {
                        bool ok = false; str all;
                        for (auto w : cx.wallSeen) { str x = calendar(w); all += x + " "; if (x == o.text) ok = true; }
                        if (!ok) bad = "date-time delivered " + o.text + ", the clock showed " + all + "(" + zone + ")";
                    }
                }
                sim::emit("op " + id + " " + k + (bad.empty() ? "" : " BAD"));
                if (!bad.empty()) sim::emit("bad " + q("operation " + id + " (" + k + " " + num(n) + "): " + bad));
            }
        };
        if (tasks) sim::runTasks({[&](Ctx& x) { task(0, x); }, [&](Ctx& x) { task(1, x); }}, sch);
        else task(0, C());
    });
    if (r.status != 0) { v.fail("run-" + r.statusText().substr(0, 7), r.statusText() + "\n" + cut(r.out)); return v; }
    auto bad = field(r.out, "bad");
    if (!bad.empty()) v.fail("time", unq(bad[0]));
    uint64_t any = 0; for (int i = 0; i < 32; i++) any += r.fired[i];
    bool jump = false; for (auto i : ops) if (i->s(1) == "jump" || i->s(1) == "adv") jump = true;
    v.nontrivial = any > 0 || jump || r.cnt.switches > 1;
    return v;
}
static Reg regP10({"P10", genP10, runP10, "a clock jumped, time passed between operations, a sleep was interrupted or two sessions were interleaved",
    "time builtins, command line runner, interpreter, C++ chrono and thread library, time zone rules of the C library", "wall and monotonic clock, sleep (interruption), time zone of the process, buffer of localtime, task scheduler"});

// ---- P11 ----------------------------------------------------------------------------------------------------------
// items: mode session|safe|main | cin 0/1 | input <text> | chunk <n> | ev <i> <stmt>;... | fault <ev> ...
// stmt: P<ctx><nl>:<args>   prints args in context ctx (t top, f function, e evalstr, d nested block, w loop, m macro, a module)
//       R print a line read, V read into a variable and print it later, T1/T0 trace, G print the trace buffer, F flush, f<spec> format, E script error
struct Exp { str code; std::vector<str> units; bool error = false; };
static str argText(const str& a) { return a == "l" ? "()" : a.size() < 2 ? "" : a[0] == 's' ? unq(a.substr(1)) : a[0] == 'i' ? a.substr(1) : a[0] == 'b' ? (a[1] == '1' ? "#t" : "#f") : a[0] == 'l' ? "(" + a.substr(1) + ")" : ""; }
static str argCode(const str& a) { return a[0] == 's' ? lispStr(unq(a.substr(1))) : a[0] == 'i' ? a.substr(1) : a[0] == 'b' ? (a[1] == '1' ? "#t" : "#f") : a[0] == 'l' ? "(list " + a.substr(1) + ")" : "1"; }
static strs splitArgs(const str& t) { strs r; if (t.empty()) return r; size_t p = 0; while (p <= t.size()) { size_t e = t.find('\x1f', p); if (e == str::npos) e = t.size(); str x = t.substr(p, e - p); if (x == "s") x = "s"; r.push_back(x); p = e + 1; } return r; }
static str arg(Rng& r) {
    static const strs texts = {"", "a", "hello world", "{0}", "{1,5}", "%s", "x\ty", "line1\nline2", "\xC3\xA4\xE2\x82\xAC", "  ", "\\", "\"q\"", "end\n", "(1 2)", ";no"};
    double x = (double)r.below(100) / 100;
    if (x < 0.5) return "s" + q(r.pick(texts));
    if (x < 0.56) return "s" + q(str((size_t)r.logu(9000), (char)('a' + r.below(26))));
    if (x < 0.75) return "i" + num(r.range(-9, 1000));
    if (x < 0.85) return r.p(0.5) ? "b1" : "b0";
    str l; int n = (int)r.range(0, 3); for (int i = 0; i < n; i++) l += (i ? " " : "") + num((long)r.below(9));
    return "l" + l;
}
static Scenario genP11(Rng& r, bool thorough) {
    if (r.p(0.2)) return genDual(r, thorough);
    Scenario s;
    static const strs modes = {"session", "session", "session", "safe", "main"};
    s.items.push_back(Item("mode", {r.pick(modes)}));
    s.items.push_back(Item("cin", {num(r.p(0.5) ? 1 : 0)}));
    if (r.p(0.3)) s.items.push_back(Item("cfg", {"fill", num((long)r.below(256))}));
    str in; int nl = (int)r.below(7);
    static const strs ls = {"", "x", "some words", "(list 1 2)", "\xC3\xBC", "tab\there", "12", "cr\r", "{0}"};
    for (int i = 0; i < nl; i++) in += (r.p(0.2) ? "" : r.p(0.15) ? "  " : num(i)) + (r.p(0.9) ? r.pick(ls) : str((size_t)r.logu(9000), 'z')) + (i + 1 == nl && r.p(0.3) ? "" : "\n");
    if (in.empty()) in = "\n";
    s.items.push_back(Item("input", {in}));
    int ch = (int)r.below(10); bool tiny = r.p(0.3);
    for (int i = 0; i < ch; i++) s.items.push_back(Item("chunk", {num((long)(tiny ? r.range(1, 3) : r.logu(5000)))}));
    int ne = (int)r.range(1, thorough ? 5 : 3);
    std::vector<Item> faults;
    for (int e = 0; e < ne; e++) {
        strs st; int n = (int)r.range(1, 8);
        for (int i = 0; i < n; i++) {
            double x = (double)r.below(1000) / 1000;
            if (x < 0.55) {
                static const str ctx = "tttfedwmac";
                str a; int k = (int)r.below(4); for (int j = 0; j < k; j++) a += (j ? "\x1f" : "") + arg(r);
                st.push_back("P" + str(1, ctx[r.below(ctx.size())]) + (r.p(0.6) ? "1" : "0") + ":" + a);
            }
            else if (x < 0.68) st.push_back("R");
            else if (x < 0.74) st.push_back("V");
            else if (x < 0.82) st.push_back(r.p(0.65) ? "T1" : "T0");
            else if (x < 0.89) st.push_back("G");
            else if (x < 0.92) st.push_back("F");
            else if (x < 0.97) { static const strs fm = {"{0}", "<{0}|{1}>", "{1}{0}", "{0,6}|{1,-6}|", "{2} {1} {0}", "none"}; st.push_back("f" + q(r.pick(fm)) + "\x1f" + arg(r) + "\x1f" + arg(r) + "\x1f" + arg(r)); }
            else if (x < 0.985) st.push_back("E");
            else st.push_back("R");
        }
        strs a = {num(e)}; for (auto& x : st) a.push_back(x);
        s.items.push_back(Item("ev", a));
        double y = (double)r.below(100) / 100;
        if (y < 0.2) faults.push_back(Item("fault", {num(e), "cout", "fail", num((long)r.logu(30)), num((long)r.logu(6) - 1)}));
        else if (y < 0.4) faults.push_back(Item("fault", {num(e), "alloc", "fail", num((long)r.logu(r.p(0.5) ? 400 : 4000)), "1"}));
        else if (y < 0.48) faults.push_back(Item("fault", {num(e), "call", "stop", num((long)r.range(1, 20)), "0"}));
    }
    for (auto& f : faults) s.items.push_back(f);
    return s;
}
struct P11Model {
    bool traceOn = false; str buffer; size_t line = 0; strs lines; int uid = 0; str var;
    str read() { return line < lines.size() ? lines[line++] : (line++, str()); }
};
static Exp expect(P11Model& m, const strs& stmts, size_t ev) {
    Exp x;
    for (size_t i = 0; i < stmts.size(); i++) {
        const str& t = stmts[i]; if (t.empty()) continue;
        str u = num((long)ev) + "x" + num((long)i);
        auto print = [&](const str& txt, bool nl, bool top) { x.units.push_back(txt + (nl ? "\n" : "")); if (top && m.traceOn) m.buffer += txt; };
        if (t[0] == 'P' && t.size() > 3) {
            strs as = splitArgs(t.substr(4)); str txt, code; for (size_t k = 0; k < as.size(); k++) { str a = argText(as[k]); if (txt.size() > 0) txt += " "; txt += a; code += " " + argCode(as[k]); }
            bool nl = t[2] == '1'; str call = str("(") + (nl ? "println" : "print") + code + ")";
            switch (t[1]) {
                case 'f': x.code += "(defn zp" + u + " () " + call + ")(zp" + u + ")\n"; print(txt, nl, false); break;
                case 'e': x.code += "(evalstr " + lispStr(call) + ")\n"; print(txt, nl, true); break;
                case 'd': x.code += "(if #t (do " + call + "))\n"; print(txt, nl, true); break;
                case 'w': x.code += "(def zi 0)(while (< zi 2) (do (setf zi (+ zi 1)) " + call + "))\n"; print(txt, nl, true); print(txt, nl, true); break;
                case 'm': x.code += "(define-macro-eval zm" + u + " (za) (do za))(zm" + u + " " + call + ")\n"; print(txt, nl, true); break;
                case 'c': x.code += "(defn zo" + u + " () (do (defn zn" + u + " () " + call + ") (zn" + u + ")))(zo" + u + ")\n"; print(txt, nl, false); break;
                case 'a': x.code += "(import \"z" + u + ".fuel\")\n"; print(txt, nl, false); break;
                default: x.code += call + "\n"; print(txt, nl, true);
            }
        }
        else if (t == "R") { x.code += "(println \"R\" (readline))\n"; str l = m.read(); print(str("R ") + l, true, true); }
        else if (t == "V") { x.code += "(def zv" + u + " (readline))(print zv" + u + " \"!\")\n"; str l = m.read(); print(l.empty() ? "!" : l + " !", false, true); }
        else if (t == "T1" || t == "T0") { x.code += str("(trace ") + (t[1] == '1' ? "#t" : "#f") + ")\n"; m.traceOn = t[1] == '1'; x.units.push_back(""); }
        else if (t == "G") { x.code += "(println \"G\" (gettrace))\n"; str b = m.buffer; print(str("G ") + b, true, true); }
        else if (t == "F") { x.code += "(flush)\n"; }
        else if (t[0] == 'f') {
            strs as = splitArgs(t.substr(1)); if (as.size() < 4) continue;
            str fm = unq(as[0]), txt;
            for (size_t k = 0; k < fm.size(); k++) {
                if (fm[k] == '{' && k + 2 < fm.size() && isdigit((unsigned char)fm[k + 1])) {
                    str a = argText(as[1 + (size_t)(fm[k + 1] - '0')]); size_t e = fm.find('}', k); long w = fm[k + 2] == ',' ? atol(fm.c_str() + k + 3) : 0; str pad((size_t)std::max(0L, labs(w) - (long)a.size()), ' ');
                    txt += w > 0 ? pad + a : a + pad; k = e;
                } else txt += fm[k];
            }
            x.code += "(print (format " + lispStr(fm) + " " + argCode(as[1]) + " " + argCode(as[2]) + " " + argCode(as[3]) + "))\n"; print(txt, false, true);
        }
        else if (t == "E") { x.code += "(nosuchfunction 1)\n"; x.error = true; return x; }
    }
    return x;
}
static bool subsequence(const str& a, const str& b) { size_t i = 0; for (size_t k = 0; k < b.size() && i < a.size(); k++) if (a[i] == b[k]) i++; return i == a.size(); }
static str stripTold(const str& o) { size_t p; str r = o; while ((p = r.find("EXCEPTION: ")) != str::npos) { size_t e = r.find('\n', p); r.erase(p, e == str::npos ? str::npos : e + 1 - p); } return r; }
static Verdict runP11(const Scenario& s) {
    if (s.first("dual")) return runDual(s);
    Verdict v;
    str mode = s.first("mode") ? s.first("mode")->s(0) : "session", input = s.first("input") ? s.first("input")->s(0) : "\n";
    bool cin = s.first("cin") && s.first("cin")->n(0);
    std::vector<long> chunks; for (auto i : s.all("chunk")) chunks.push_back(std::max(1L, i->n(0)));
    auto evs = s.all("ev"); if (evs.empty() || input.empty()) return v;
    auto stmts = [&](size_t e) { return strs(evs[e]->a.begin() + 1, evs[e]->a.end()); };
    // modules used by the statements
    std::map<str, str> mods;
    for (size_t e = 0; e < evs.size(); e++) { auto st = stmts(e); for (size_t i = 0; i < st.size(); i++) if (st[i].size() > 3 && st[i][0] == 'P' && st[i][1] == 'a') { str code; for (auto& a : splitArgs(st[i].substr(4))) code += " " + argCode(a); mods["z" + num((long)e) + "x" + num((long)i) + ".fuel"] = str("(") + (st[i][2] == '1' ? "println" : "print") + code + ")"; } }
    size_t n = mode == "session" ? evs.size() : 1;
    std::vector<str> codes; { P11Model m; for (size_t e = 0; e < n; e++) codes.push_back(expect(m, stmts(e), e).code); }
    Result r = child(configOf(s), [&] {
        for (auto& kv : mods) sim::writeReal(kv.first, kv.second);
        sim::setConsoleInput(cin ? input : "", cin ? chunks : std::vector<long>());
        str con; size_t seen = 0, cseen = 0;
        auto report = [&](size_t e, const str& kind, const str& txt, const str& all) {
            str c = sim::consoleOut();
            sim::emit("ev " + num((long)e) + " " + kind); sim::emit("txt" + num((long)e) + " " + q(txt)); sim::emit("out" + num((long)e) + " " + q(all.substr(std::min(seen, all.size())))); sim::emit("con" + num((long)e) + " " + q(c.substr(std::min(cseen, c.size()))));
            seen = all.size(); cseen = c.size();
        };
        if (mode == "safe" || mode == "main") {
            auto f = faultsFor(s, 0);
            sim::writeReal("p.fuel", codes[0]);
            auto o = mode == "main" ? fuel::mainRun(C(), {"p.fuel"}, input, f, cin) : cin ? fuel::mainRun(C(), {"p.fuel"}, input, f, true) : fuel::safeEval(C(), codes[0], "p.fuel", false, false, input, f);
            report(0, o.escaped ? "escaped" : "ok", o.escaped ? o.escapedWhat : o.o.str(), o.output);
        }
        else {
            fuel::Session ses(input, true, !cin, true);
            for (size_t e = 0; e < n; e++) { auto o = ses.eval(C(), codes[e], faultsFor(s, (long)e)); report(e, o.kind, o.str(), ses.output()); }
        }
    });
    if (r.status != 0) { v.fail("run-" + r.statusText().substr(0, 7), r.statusText() + "\n" + cut(r.out)); return v; }
    P11Model m; m.lines = splitKeep(input);
    bool consoleBroken = false;
    for (size_t e = 0; e < n; e++) {
        str kind = one(r.out, "ev"), txt = unq(one(r.out, "txt" + num((long)e))), out = unq(one(r.out, "out" + num((long)e))), con = unq(one(r.out, "con" + num((long)e)));
        for (auto& l : field(r.out, "ev")) if (startsWith(l, num((long)e) + " ")) kind = l.substr(l.find(' ') + 1);
        bool cutF = false, coutF = false; for (auto& f : faultsFor(s, (long)e)) { if (f.kind == "cout") coutF = true; else cutF = true; }
        cutF = cutF && (kind != "ok" || mode != "session");
        P11Model before = m;
        Exp x = expect(m, stmts(e), e);
        str raw = out;
        if (coutF) consoleBroken = true;
        // the console gets what is captured
        bool told = mode != "session" && raw.find("rror") != str::npos;       // a runner writes its error reports to the console and to the output
        if (!consoleBroken && told ? !subsequence(raw, con) : !consoleBroken && con != raw) { v.fail("console", "evaluation " + num((long)e) + ": console and captured output differ: " + firstDiff(raw, con)); return v; }
        if (consoleBroken && !told && !subsequence(con, raw)) { v.fail("console-order", "evaluation " + num((long)e) + ": the failing console got text that was not printed: [" + cut(con) + "] captured [" + cut(raw) + "]"); return v; }
        out = stripTold(out);
        str all; for (auto& u : x.units) all += u;
        if (mode != "session") {
            // a runner reports errors on the output after the text of the script
            if (kind == "escaped") { v.fail("escaped", txt); return v; }
            bool failing = x.error || cutF;
            if (!failing) { if (out != all) { v.fail("output", firstDiff(all, out)); return v; } }
            else {
                bool ok = false; str pre;
                for (size_t k = 0; k <= x.units.size() && !ok; k++) { if (k) pre += x.units[k - 1]; if (x.error && !cutF && k < x.units.size()) continue; if (startsWith(out, pre)) { str rest = out.substr(pre.size()); if ((k == x.units.size() && !x.error && rest.empty()) || rest.find("rror") != str::npos) ok = true; } }
                if (!ok) { v.fail("output-error", "expected the printed text, then the error report: " + firstDiff(all, out)); return v; }
            }
            continue;
        }
        if (!cutF) {
            if ((kind == "ok") == x.error) { v.fail("result", "evaluation " + num((long)e) + ": " + txt); return v; }
            if (out != all) { v.fail("output", "evaluation " + num((long)e) + " printed: " + firstDiff(all, out)); return v; }
        }
        else {
            // cut short: whole prints only, and the position of input and trace follow the completed statements
            bool ok = false; str pre;
            for (size_t k = 0; k <= x.units.size() && !ok; k++) { if (k) pre += x.units[k - 1]; if (out == pre) ok = true; }
            if (!ok) { v.fail("output-cut", "evaluation " + num((long)e) + " was cut short (" + txt + ") and left text that is no sequence of whole prints: " + firstDiff(all, out)); return v; }
            v.nontrivial = true;
            break;      // what was read and traced before the cut is not known exactly: later evaluations are judged by other scenarios
        }
    }
    uint64_t any = 0; for (int i = 0; i < 32; i++) any += r.fired[i];
    if (any) v.nontrivial = true;
    return v;
}
static Reg regP11({"P11", genP11, runP11, "input came in chunks, or a console, allocation or stop fault fired",
    "print, format, trace and read builtins, text reader and writer, interpreter, runner, safe entry point, C++ iostreams", "console device (chunks, end of input, errors, partial writes), allocator, debugger stop"});
