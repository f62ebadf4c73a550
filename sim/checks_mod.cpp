// P06: modules. Seeded directory layouts, histories of imports, module changes and faults, judged by a small model
// that knows the search order and treats the effects of an import as a sequence that is cut at some point.
#include "files.h"
#include "check.h"
#include <cstring>
#include <unistd.h>
#include <algorithm>

// items: place <lib 0/1> <fuelpath 0/1> | init/op put <path> <version> <stmts> | op del <path> | op import <how> <name,name> | fault <op> ...
// stmts, separated by ';':  f<j> own function, v<j> own variable, g<j> global variable, G<j> global function, p output,
//                           i<name> nested import, E script error, U unbalanced text (at the end), c<j> calls an own function, n<name> nested import inside a function call
struct Layout { bool lib, fp; };
static const strs kNames = {"m0", "m1.fuel", "sub/m2", "m3", "n.fuel4"};
static const strs kDirs = {"", "lp/", "Library/", "lib/fuel/", "fp/"};
static str withExt(const str& n) { return endsWith(n, ".fuel") ? n : n + ".fuel"; }
static strs candidates(const Layout& l, const str& name) {
    strs c = {name};
    if (l.lib) c.push_back("lp/" + withExt(name));
    c.push_back("Library/" + withExt(name)); c.push_back("lib/fuel/" + withExt(name));
    if (l.fp) c.push_back("fp/" + withExt(name));
    return c;
}
static strs allPaths(const Layout& l) { strs r; for (auto& n : kNames) for (auto& c : candidates({true, true}, n)) r.push_back(c); return r; }
static long pathIndex(const str& p) { strs a = allPaths({true, true}); for (size_t i = 0; i < a.size(); i++) if (a[i] == p) return (long)i; return 99; }
struct Mod { str path, ver; strs st; bool dir = false; };
static str own(const Mod& m, char k, const str& j) { return str(1, k) + num(pathIndex(m.path)) + "x" + j; }
static str val(const Mod& m, const str& j) { return "v" + m.ver + "." + j; }
static strs splitOn(const str& s, char c) { strs r; size_t p = 0; while (p < s.size()) { size_t e = s.find(c, p); if (e == str::npos) e = s.size(); r.push_back(s.substr(p, e - p)); p = e + 1; } return r; }
static str modText(const Mod& m) {
    str t = "; module " + m.path + "\n";
    for (auto& s : m.st) {
        str j = s.substr(1);
        switch (s[0]) {
            case 'f': t += "(defn " + own(m, 'f', j) + " () \"" + val(m, j) + "\")\n"; break;
            case 'v': t += "(def " + own(m, 'v', j) + " \"" + val(m, j) + "\")\n"; break;
            case 'g': t += "(gdef " + own(m, 'g', j) + " \"" + val(m, j) + "\")\n"; break;
            case 'G': t += "(gdefn " + own(m, 'G', j) + " () \"" + val(m, j) + "\")\n"; break;
            case 'p': t += "(println \"run " + m.path + " " + m.ver + " " + j + "\")\n"; break;
            case 'c': t += "(println \"call\" (" + own(m, 'f', j) + "))\n"; break;
            case 'i': t += "(import \"" + j + "\")\n"; break;
            case 'n': t += "(defn zimp" + num(pathIndex(m.path)) + " (zn) (do (import zn) (return 1)))\n(zimp" + num(pathIndex(m.path)) + " \"" + j + "\")\n"; break;
            case 'E': t += "(nosuchfunction 1)\n"; break;
            case 'U': t += "(println ((\n"; break;
        }
    }
    return t;
}
struct Vis { std::map<str, std::map<str, str>> mods; std::map<str, str> globals; str out; };
struct Trace { std::vector<Vis> states; bool fail = false; int dev = 0; };
struct Model {
    const Layout& l; const std::map<str, Mod>& files; Vis cur; Trace t;
    int resolution = 0, devAt = -1, devAlt = 0; bool used = false;
    Model(const Layout& l, const std::map<str, Mod>& f, const Vis& v) : l(l), files(f), cur(v) { t.states.push_back(cur); }
    void eff() { t.states.push_back(cur); }
    bool import(const str& name, int depth = 0) {          // false: failed
        if (depth > 6) return true;
        std::vector<const Mod*> c; for (auto& p : candidates(l, name)) { auto i = files.find(p); if (i != files.end()) c.push_back(&i->second); }
        const Mod* m = c.empty() ? nullptr : c[0];
        bool found = !c.empty();
        if (resolution++ == devAt) {
            // alternatives: 0 reading fails, 1 warning (nothing opened), 2 vanished between the tests (nothing happens), 3.. a later candidate
            used = true;
            if (devAlt == 0) { if (!found) { used = false; return true; } return false; }
            if (devAlt == 1) { if (!found) used = false; m = nullptr; found = false; }
            else if (devAlt == 2) { if (!found) { used = false; } return true; }
            else { size_t k = (size_t)devAlt - 2; if (k >= c.size()) { used = false; return true; } m = c[k]; }
        }
        if (!m) { cur.out += "WARNING " + name + "\n"; eff(); return true; }
        if (m->dir) return false;
        for (auto& s : m->st) if (s[0] == 'U') return false;
        std::map<str, str> defs;
        for (auto& s : m->st) {
            str j = s.substr(1);
            switch (s[0]) {
                case 'f': defs[own(*m, 'f', j)] = val(*m, j); break;
                case 'v': defs[own(*m, 'v', j)] = val(*m, j); break;
                case 'g': case 'G': cur.globals[own(*m, s[0], j)] = val(*m, j); eff(); break;
                case 'p': cur.out += "run " + m->path + " " + m->ver + " " + j + "\n"; eff(); break;
                case 'c': if (!defs.count(own(*m, 'f', j))) return false; cur.out += "call " + val(*m, j) + "\n"; eff(); break;
                case 'i': case 'n': if (!import(j, depth + 1)) return false; break;
                case 'E': return false;
            }
        }
        cur.mods[m->path] = defs; eff();
        return true;
    }
};
static Item putItem(Rng& r, const str& kind, const str& path, long ver, bool ok) {
    strs st; int n = (int)r.range(1, 5); long nf = 0;
    for (int i = 0; i < n; i++) {
        double x = (double)r.below(100) / 100;
        long self = 0; for (size_t k = 0; k < kNames.size(); k++) for (auto& c : candidates({true, true}, kNames[k])) if (c == path) self = (long)k;
        if (x < 0.3) st.push_back("f" + num(nf++));
        else if (x < 0.45) st.push_back("v" + num((long)r.below(3)));
        else if (x < 0.55) st.push_back("g" + num((long)r.below(2)));
        else if (x < 0.62) st.push_back("G" + num((long)r.below(2)));
        else if (x < 0.78) st.push_back("p" + num(i));
        else if (x < 0.85 && nf) st.push_back("c" + num((long)r.below((uint64_t)nf)));
        else if (self + 1 < (long)kNames.size()) st.push_back((r.p(0.7) ? "i" : "n") + kNames[(size_t)r.range(self + 1, (long)kNames.size() - 1)]);
        else st.push_back("p" + num(i));
    }
    if (!ok) { if (r.p(0.75)) st.insert(st.begin() + (long)r.below(st.size() + 1), "E"); else st.push_back("U"); }
    strs a = kind == "op" ? strs{"put", path, num(ver), joined(st, ";")} : strs{path, num(ver), joined(st, ";")};
    return Item(kind, a);
}
static Scenario genP06(Rng& r, bool thorough) {
    Scenario s; long ver = 1;
    if (r.p(0.3)) s.items.push_back(Item("cfg", {"rchunk", num((long)r.range(1, 40))}));
    if (r.p(0.3)) s.items.push_back(Item("cfg", {"fill", num((long)r.below(256))}));
    Layout l{r.p(0.6), r.p(0.6)};
    s.items.push_back(Item("place", {num((long)l.lib), num((long)l.fp)}));
    if (l.lib && r.p(0.4)) s.items.push_back(Item("cfg", {"libopt", num((long)r.range(1, 3))}));
    if (l.fp && r.p(0.3)) s.items.push_back(Item("cfg", {"fpslash", num((long)r.range(1, 2))}));
    if (r.p(0.3)) { strs names; for (int k = (int)r.range(1, 3); k > 0; k--) names.push_back(r.p(0.93) ? r.pick(kNames) : "nowhere"); s.items.push_back(Item("line", {joined(names, ","), num((long)r.below(2))})); }
    strs paths = allPaths(l);
    int n = (int)r.range(1, 7);
    for (int i = 0; i < n; i++) {
        str p = r.pick(paths);
        if (r.p(0.08) && p.find('/') != str::npos && !startsWith(p, "sub/") && endsWith(p, ".fuel")) { s.items.push_back(putItem(r, "init", p.substr(0, p.size() - 5), ver++, r.p(0.75))); continue; }   // no candidate
        if (r.p(0.06)) { s.items.push_back(Item("init", {p, "0", "D"})); continue; }
        s.items.push_back(putItem(r, "init", p, ver++, r.p(0.75)));
    }
    int ops = (int)r.range(1, thorough ? 10 : 6);
    // files at the top of the file system (simulated: the paths are redirected into the scratch directory) are no candidates
    if (r.p(0.4)) for (int k = (int)r.range(1, 3); k > 0; k--) s.items.push_back(putItem(r, "init", "root/" + withExt(r.pick(kNames)), ver++, r.p(0.85)));
    if (!l.fp && r.p(0.3)) s.items.push_back(Item("cfg", {"fpempty", "1"}));
    std::vector<Item> faults;
    static const strs hows = {"plain", "plain", "fn", "evalstr", "do", "lambda"};
    for (int i = 0; i < ops; i++) {
        double x = (double)r.below(100) / 100;
        if (x < 0.2) { s.items.push_back(putItem(r, "op", r.pick(paths), ver++, r.p(0.8))); continue; }
        if (x < 0.27) { s.items.push_back(Item("op", {"del", r.pick(paths)})); continue; }
        strs names; int k = (int)r.range(1, r.p(0.8) ? 1 : 3); for (int j = 0; j < k; j++) names.push_back(r.p(0.93) ? r.pick(kNames) : "nowhere");
        s.items.push_back(Item("op", {"import", r.pick(hows), joined(names, ",")}));
        double y = (double)r.below(100) / 100;
        if (y < 0.18) { static const strs a = {"eio", "eio", "short", "eintr"}; faults.push_back(Item("fault", {num(i), "read", r.pick(a), num((long)r.logu(6)), num((long)r.range(1, 30))})); }
        else if (y < 0.34) { static const strs a = {"emfile", "eacces", "enoent"}; faults.push_back(Item("fault", {num(i), "open", r.pick(a), num((long)r.range(1, 6)), "0"})); }
        else if (y < 0.55) faults.push_back(Item("fault", {num(i), "alloc", "fail", num((long)r.logu(r.p(0.5) ? 300 : 3000)), "1"}));
        else if (y < 0.65) faults.push_back(Item("fault", {num(i), "call", "stop", num((long)r.range(1, 12)), "0"}));
    }
    for (auto& f : faults) s.items.push_back(f);
    return s;
}
static str warnings(const str& o) {                 // the exact wording of the warning is not part of the property
    str r;
    for (auto& ln : splitLines(o)) {
        if (startsWith(ln, "EXCEPTION: ")) continue;        // told by the attached debugger
        if (startsWith(ln, "WARNING")) { str best; for (auto& n : kNames) if (ln.find(" " + n + " ") != str::npos || ln.find("\"" + n) != str::npos) best = n; if (ln.find("nowhere") != str::npos) best = "nowhere"; r += "WARNING " + best + "\n"; }
        else r += ln + "\n";
    }
    return r;
}
static Verdict runP06(const Scenario& s) {
    Verdict v;
    auto pl = s.first("place"); if (!pl) return v;
    Layout l{pl->n(0) != 0, pl->n(1) != 0};
    auto ops = s.all("op");
    std::map<str, Mod> files;
    auto mk = [](const str& p, const str& ver, const str& st) { Mod m; m.path = p; m.ver = ver; m.st = splitOn(st, ';'); m.dir = st == "D"; return m; };
    for (auto i : s.all("init")) files[i->s(0)] = mk(i->s(0), i->s(1), i->s(2));
    auto place = [&](const Mod& m) { if (m.dir) sim::mkdirReal(m.path); else sim::writeReal(m.path, modText(m)); };
    // names to look at: everything any version of any module defines
    std::set<str> fnames, vnames;
    auto note = [&](const Mod& m) { for (auto& st : m.st) { str j = st.size() ? st.substr(1) : ""; if (st[0] == 'f' || st[0] == 'G') fnames.insert(own(m, st[0], j)); if (st[0] == 'v' || st[0] == 'g') vnames.insert(own(m, st[0], j)); } };
    for (auto& kv : files) note(kv.second);
    for (auto i : ops) if (i->s(0) == "put") note(mk(i->s(1), i->s(2), i->s(3)));
    Result r = child(configOf(s), [&] {
        { sim::Guard g; if (l.fp) setenv("FUELPATH", s.cfgn("fpslash") == 1 ? "fp/" : s.cfgn("fpslash") == 2 ? "./fp" : "fp", 1); else if (s.cfgn("fpempty")) setenv("FUELPATH", "", 1); else unsetenv("FUELPATH"); }
        // the library path is set by the embedding program or by the command line
        str opt = s.cfgn("libopt") == 2 ? "-l=lp/" : s.cfgn("libopt") == 3 ? "-l=./lp" : "-l=lp";
        fuel::setLibraryPath(l.lib && !s.cfgn("libopt") ? "lp" : "");
        if (l.lib && s.cfgn("libopt")) { auto o = fuel::mainRun(C(), {opt, "-e", "(nop)"}, "", {}); if (o.escaped || !o.output.empty()) sim::emit("odd -1 -l " + q(o.escapedWhat + o.output)); }
        for (const char* d : {"sub", "lp", "lp/sub", "Library", "Library/sub", "lib", "lib/fuel", "lib/fuel/sub", "fp", "fp/sub", "root", "root/sub"}) sim::mkdirReal(d);
        for (auto& n : kNames) sim::redirect("/" + withExt(n), "root/" + withExt(n));
        for (auto& kv : files) place(kv.second);
        fuel::Session ses("", true, true, true);
        ses.eval(C(), "(defn zimport (zn) (do (import zn) (return 1)))");
        size_t seen = ses.output().size();
        for (size_t i = 0; i < ops.size(); i++) {
            str id = num((long)i);
            if (ops[i]->s(0) == "put") { Mod m = mk(ops[i]->s(1), ops[i]->s(2), ops[i]->s(3)); sim::Guard g; rmdir(m.path.c_str()); place(m); continue; }
            if (ops[i]->s(0) == "del") { sim::Guard g; unlink(ops[i]->s(1).c_str()); rmdir(ops[i]->s(1).c_str()); continue; }
            str how = ops[i]->s(1), code; strs names = splitOn(ops[i]->s(2), ',');
            str quoted; for (auto& n : names) quoted += " \"" + n + "\"";
            if (how == "fn") for (auto& n : names) code += "(zimport \"" + n + "\")";
            else if (how == "evalstr") code = "(evalstr " + lispStr("(import" + quoted + ")") + ")";
            else if (how == "do") code = "(do (import" + quoted + "))";
            else if (how == "lambda") code = "(map (lambda (za) (import" + quoted + ")) (list 1))";
            else code = "(import" + quoted + ")";
            code += "(println \"after\")";
            uint64_t before[32]; memcpy(before, sim::fired, sizeof before);
            int fds = sim::openFdCount();
            auto o = ses.eval(C(), code, faultsFor(s, (long)i));
            if (sim::openFdCount() != fds) sim::emit("leak " + id);
            str fk; for (size_t k = 0; k < sim::faultKindNames.size() && k < 32; k++) if (sim::fired[k] != before[k]) fk += sim::faultKindNames[k] + ",";
            str all = ses.output(), delta = all.substr(seen); seen = all.size();
            sim::emit("res " + id + " " + o.kind + " " + q(fk.empty() ? "-" : fk) + " " + q(delta) + " ." + q(o.str()));
            for (auto& n : fnames) { auto f = ses.eval(C(), "(" + n + ")"); if (f.kind == "ok") sim::emit("see " + id + " " + n + " " + q(f.text)); else if (f.where.find("ModuleName=main;") == str::npos || f.text.find(n) == str::npos) sim::emit("odd " + id + " " + n + " " + q(f.str())); }
            for (auto& n : vnames) { auto f = ses.eval(C(), "(str " + n + ")"); if (f.kind != "ok") sim::emit("odd " + id + " " + n + " " + q(f.str())); else if (f.text != n) sim::emit("see " + id + " " + n + " " + q(f.text)); }
            str o2 = ses.output(); str junk = o2.substr(seen); seen = o2.size();
            if (junk.find("run ") != str::npos || junk.find("WARN") != str::npos) sim::emit("odd " + id + " output " + q(junk));
        }
        if (auto li = s.first("line")) {        // a command line at the end of the history
            str code; for (auto& n : splitOn(li->s(0), ',')) code += "(import \"" + n + "\")\n";
            sim::writeReal("zline.fuel", code + "(println \"after\")\n");
            strs a; if (l.lib && s.cfgn("libopt")) a.push_back(opt);
            if (li->n(1)) { a.push_back("-e"); a.push_back(code + "(println \"after\")\n"); } else a.push_back("zline.fuel");
            auto o = fuel::mainRun(C(), a, "", {});
            sim::emit("line " + q(o.escaped ? "escaped " + o.escapedWhat : o.output));
        }
    });
    if (r.status != 0) { v.fail("run-" + r.statusText().substr(0, 7), r.statusText() + "\n" + cut(r.out)); return v; }
    // judge
    std::map<long, strs> res; std::map<long, std::map<str, str>> see;
    for (auto& ln : splitLines(r.out)) {
        auto w = splitOn(ln, ' ');
        if (w[0] == "leak") { v.fail("descriptor", "operation " + w[1] + " left a file open"); return v; }
        if (w[0] == "odd") { v.fail("after", "after operation " + w[1] + " looking up " + w[2] + " gives " + unq(w.size() > 3 ? ln.substr(ln.find(w[2]) + w[2].size() + 1) : "")); return v; }
        if (w[0] == "res") { w.resize(6); size_t at = ln.find(" ."); w[5] = unq(ln.substr(at + 2)); size_t p = ln.find(w[3], ln.find(w[2]) + w[2].size()) + w[3].size() + 1; w[4] = ln.substr(p, at - p); res[atol(w[1].c_str())] = w; }
        if (w[0] == "see") see[atol(w[1].c_str())][w[2]] = unq(ln.substr(ln.find(w[2]) + w[2].size() + 1));
    }
    Vis cur; bool failedOnce = false;
    for (size_t i = 0; i < ops.size(); i++) {
        if (ops[i]->s(0) == "put") { files[ops[i]->s(1)] = mk(ops[i]->s(1), ops[i]->s(2), ops[i]->s(3)); continue; }
        if (ops[i]->s(0) == "del") { files.erase(ops[i]->s(1)); continue; }
        strs names = splitOn(ops[i]->s(2), ',');
        if (!res.count((long)i)) { v.fail("run-lost", "no result of operation " + num((long)i)); return v; }
        auto& w = res[(long)i]; str kind = w[2], fk = w[3], out = warnings(unq(w[4]));
        auto& sv = see[(long)i];
        cur.out.clear();
        bool openF = fk.find("open:") != str::npos, eio = fk.find("read:eio") != str::npos, cutF = fk.find("alloc:") != str::npos || fk.find("call:stop") != str::npos;
        struct Opt { int at, alt; };
        std::vector<Opt> opts;
        if (openF) { opts.push_back({-1, 0}); for (int a = 0; a < 8; a++) for (int b = 0; b < 7; b++) opts.push_back({a, b}); }
        else if (eio) { for (int a = 0; a < 8; a++) opts.push_back({a, 0}); }
        else opts.push_back({-1, 0});
        bool ok = false; str why; Vis next;
        for (auto& o : opts) {
            Model m(l, files, cur); m.devAt = o.at; m.devAlt = o.alt;
            bool good = true;
            for (auto& n : names) if (!m.import(n)) { good = false; break; }
            if (good) { m.cur.out += "after\n"; m.eff(); }
            if (o.at >= 0 && !m.used) continue;
            auto same = [&](const Vis& x) {
                std::map<str, str> e = x.globals; for (auto& kv : x.mods) for (auto& d : kv.second) e[d.first] = d.second;
                if (e != sv) { if (why.empty() || o.at < 0) { why = ""; for (auto& kv : e) if (!sv.count(kv.first)) why += kv.first + " is missing; "; else if (sv.at(kv.first) != kv.second) why += kv.first + " is " + sv.at(kv.first) + " instead of " + kv.second + "; "; for (auto& kv : sv) if (!e.count(kv.first)) why += kv.first + " is visible; "; } return false; }
                return true;
            };
            auto& st = m.t.states;
            if (!cutF) {
                if ((kind == "ok") != good) { if (why.empty()) why = "expected " + str(good ? "success" : "an error") + ", got " + w[5]; continue; }
                if (out != st.back().out) { if (why.empty()) why = "output: " + firstDiff(st.back().out, out); continue; }
                if (!same(st.back())) continue;
                ok = true; next = st.back(); break;
            }
            for (size_t k = 0; k < st.size() && !ok; k++) {
                bool last = k + 1 == st.size();
                if (kind == "ok" && !(last && good)) continue;
                if (!(out == st[k].out || (!last && out.size() >= st[k].out.size() && startsWith(st[k + 1].out, out)) || (!last && out == st[k + 1].out) || (!last && st[k+1].out.find("WARNING") != str::npos && startsWith(out, st[k].out)))) { if (last && why.empty()) why = "output: " + firstDiff(st.back().out, out); continue; }
                if (!same(st[k])) continue;
                ok = true; next = st[k];
            }
            if (ok) break;
        }
        if (!ok) { v.fail(cutF ? "cut" : openF || eio ? "fault" : failedOnce ? "retry" : "import", "operation " + num((long)i) + " (import " + ops[i]->s(1) + " " + ops[i]->s(2) + ", faults " + fk + ", result " + w[5] + "): " + why); return v; }
        if (kind != "ok") failedOnce = true;
        if (kind == "ok" && !next.mods.empty()) v.nontrivial = v.nontrivial || failedOnce || fk != "-";
        cur = next;
    }
    if (auto li = s.first("line")) {
        Model m(l, files, Vis()); bool good = true;
        for (auto& n : splitOn(li->s(0), ',')) if (!m.import(n)) { good = false; break; }
        str want = m.cur.out + (good ? "after\n" : ""), out = unq(one(r.out, "line"));
        size_t e = out.find("Error executing script."); bool err = e != str::npos; if (err) out.resize(e); out = warnings(out);
        if (!good && endsWith(out, "\n\n")) out.pop_back(); else if (!good && out == "\n") out.clear();      // the report starts with an empty line
        if (err == good || out != want) v.fail("line", "command line that imports " + li->s(0) + ": expected " + (good ? "" : "an error after ") + "[" + want + "] got [" + unq(one(r.out, "line")) + "]");
        else if (good) v.nontrivial = true;
    }
    return v;
}
static Reg regP06({"P06", genP06, runP06, "an import succeeded after another one had failed, or under a fault",
    "module import, search order, tokenizer, parser, interpreter, scopes, file functions, C++ stream library, kernel file system", "file errors and chunking, allocator, debugger stop, environment variable and library path"});
