// Generator of programs inside the reference model's language subset.
#pragma once
#include "check.h"
struct ProgGen {
    Rng& r;
    explicit ProgGen(Rng& r) : r(r) {}
    struct Env { strs I, S, L, D, E, N, X, C; bool fn = false, call = false; int argLo = 0; strs locals; };     // variables by type (D: int keys, E: text keys, X: floating point numbers, C: quoted code)
    struct Fn { str name; int kind; };                     // 0 (int int)->int  1 (list int)->list  2 (int)->int closure value  3 (dict int)->dict  4 ()->int  5 recursive (int int)->int  6 (function int)->int  7 (code int)->int
    std::vector<Fn> fns;
    strs macros;                                           // (name var int)
    bool hasModule = false; strs moduleNames;
    Env g;
    int loop = 0, fresh = 0;
    bool mark = false, io = false, in = false;    // printed lines carry a mark that no source text contains; file operations
    // swarm weights
    double wErr = 0.03, wList = 1, wDict = 1, wNest = 1, wFn = 1, wPrint = 0.6, wRet = 0.1, wMod = 0, wLoop = 0.4, wSide = 0.04, wCode = 0.3, wDel = 0.2;
    std::function<str()> inert;                            // statements without effect that are mixed into the bodies
    str var(const strs& v) { return v.empty() ? "" : r.pick(v); }
    str lit() { return num(r.range(-3, 9)); }
    str fltE(Env& e, int d) {
        double x = (double)r.below(100) / 100;
        if (d > 0 && x < 0.35) { static const strs ops = {"+", "-", "*"}; bool f = r.p(0.5); return "(" + r.pick(ops) + " " + (f ? fltE(e, d - 1) : intE(e, d - 1)) + " " + (f && r.p(0.5) ? intE(e, d - 1) : fltE(e, d - 1)) + ")"; }
        if (d > 0 && x < 0.42) return "(float " + intE(e, d - 1) + ")";
        if (x < 0.7 && !e.X.empty()) return var(e.X);
        return num(r.range(-3, 9)) + (r.p(0.5) ? ".5" : r.p(0.5) ? ".25" : ".0");
    }
    // a function that is given to a function: (int)->int
    str fnE(Env& e, int d) {
        std::vector<Fn> c; for (auto& f : fns) if (f.kind == 2) c.push_back(f);
        if (!c.empty() && r.p(0.5)) return c[r.below(c.size())].name;
        return str("(") + (r.p(0.2) ? "fn" : "lambda") + " (x) (+ x " + intE(e, d - 1) + "))";
    }
    str intE(Env& e, int d) {
        if (inert && d > 0 && r.p(0.05)) return "(do " + inert() + " (+ 0 " + intE(e, d - 1) + "))";
        if (d > 0 && wSide > 0 && r.p(wSide)) return side(e, d);
        if (e.call && r.p(0.04)) return r.p(0.5) ? "(argscount)" : "(len (args))";
        if (wSide > 0 && !e.L.empty() && d > 0 && r.p(0.02 * wList)) {   // the list that is walked through changes meanwhile
            str l = var(e.L), c = r.p(0.4) ? "(push " + lit() + " " + l + ")" : r.p(0.5) ? "(pop " + l + ")" : "(setf " + l + " (list " + lit() + "))";
            if (r.p(0.5)) return "(len (map (lambda (x) (do " + c + " (return (+ 1 " + lit() + ")))) " + l + "))";
            return "(reduce (lambda (x acc) (do " + c + " (return (+ acc 1)))) " + l + " " + lit() + ")";
        }
        double x = (double)r.below(1000) / 1000;
        if (d <= 0 || x < 0.25) return lit();
        if (x < 0.5 && !e.I.empty()) return var(e.I);
        if (x < 0.66) { static const strs ops = {"+", "-", "*", "+"}; return "(" + r.pick(ops) + " " + intE(e, d - 1) + " " + intE(e, d - 1) + ")"; }
        if (x < 0.74 && !e.L.empty()) return "(len " + var(e.L) + ")";
        if (x < 0.755 && d > 0) {
            double y = (double)r.below(100) / 100;
            if (y < 0.3) { static const strs ops = {"%", "/", "div", "mod"}; return "(" + r.pick(ops) + " " + intE(e, d - 1) + " " + (r.p(0.93) ? num(r.range(1, 5)) : intE(e, 0)) + ")"; }
            if (y < 0.5) { static const strs ops = {"&", "|", "^", "add", "sub", "mul"}; return "(" + r.pick(ops) + " " + intE(e, d - 1) + " " + intE(e, d - 1) + ")"; }
            if (y < 0.7) return "(int " + fltE(e, d - 1) + ")";
            if (y < 0.9) return "(search " + strE(e, 0) + " " + strE(e, d - 1) + ")";
            return "(len " + strE(e, d - 1) + ")";
        }
        if (x < 0.76 && e.call) return "(arg " + num((long)std::max((int)r.below(2), e.argLo)) + ")";
        if (x < 0.80) return "(if " + boolE(e, d - 1) + " " + intE(e, d - 1) + " " + intE(e, d - 1) + ")";
        if (x < 0.93) { str c = callInt(e, d); if (!c.empty()) return c; }
        if (x < 0.96) return "(reduce (lambda (x acc) (+ x acc)) (list " + lit() + " " + intE(e, 0) + ") " + intE(e, d - 1) + ")";
        if (x < 0.98) return "(apply + (list " + intE(e, d - 1) + " " + lit() + "))";
        return "(evalstr " + lispStr("(+ " + intE(e, d - 1) + " 1)") + ")";
    }
    // a value whose evaluation changes data that the same statement uses
    str side(Env& e, int d) {
        switch (r.below(4)) {
            case 0: if (!e.L.empty()) return "(len (push " + lit() + " " + var(e.L) + "))"; break;
            case 1: if (!e.L.empty()) return "(do (pop " + var(e.L) + ") (+ " + lit() + " " + intE(e, d - 1) + "))"; break;
            case 2: if (!e.I.empty()) return "(do (setf " + var(e.I) + " " + intE(e, d - 1) + ") (+ " + var(e.I) + " 1))"; break;
            default: if (!e.D.empty()) return "(do (dict-set " + var(e.D) + " " + num((long)r.below(4)) + " " + lit() + ") (len " + var(e.D) + "))"; break;
        }
        return lit();
    }
    str callInt(Env& e, int d) {
        std::vector<Fn> c; for (auto& f : fns) if (f.kind == 0 || f.kind == 2 || f.kind >= 4) { if (f.kind == 7 && e.C.empty()) continue; c.push_back(f); }
        if (c.empty()) return "";
        const Fn& f = c[r.below(c.size())];
        if (f.kind == 4) return "(" + f.name + ")";
        if (f.kind == 8) { str s = "(" + f.name + " " + intE(e, d - 1); for (int n = (int)r.below(4); n > 0; n--) s += " " + (r.p(0.2) ? "(list " + lit() + " " + lit() + ")" : scalE(e, d - 1)); return s + ")"; }
        if (f.kind == 5) return "(" + f.name + " " + num((long)r.below(4)) + " " + intE(e, d - 1) + ")";
        if (f.kind == 6) return "(" + f.name + " " + fnE(e, d) + " " + intE(e, d - 1) + ")";
        if (f.kind == 7) return "(" + f.name + " " + var(e.C) + " " + intE(e, d - 1) + ")";
        if (f.kind == 2) return "(" + f.name + " " + intE(e, d - 1) + ")";
        if (r.p(0.15)) return "(apply " + f.name + " (list " + intE(e, d - 1) + " " + intE(e, d - 1) + "))";
        return "(" + f.name + " " + intE(e, d - 1) + " " + intE(e, d - 1) + ")";
    }
    str boolE(Env& e, int d) {
        static const strs ops = {"<", ">", "<=", ">=", "==", "!="};
        double x = (double)r.below(1000) / 1000;
        if (d > 0 && x < 0.1) return "(not " + boolE(e, d - 1) + ")";
        if (d > 0 && x < 0.2) return str(r.p(0.5) ? "(and " : "(or ") + boolE(e, d - 1) + " " + boolE(e, d - 1) + ")";
        if (x < 0.3) return r.p(0.5) ? "#t" : "#f";
        if (x < 0.4 && !e.D.empty()) return "(dict-contains-key " + var(e.D) + " " + num((long)r.below(4)) + ")";
        if (r.p(0.08)) { static const strs cmp = {"<", ">", "<=", ">="}; return "(" + r.pick(cmp) + " " + fltE(e, d - 1) + " " + (r.p(0.5) ? intE(e, d - 1) : fltE(e, d - 1)) + ")"; }
        if (r.p(0.06)) return "(" + r.pick(ops) + " " + strE(e, d - 1) + " " + strE(e, d - 1) + ")";
        return "(" + r.pick(ops) + " " + intE(e, d - 1) + " " + intE(e, d - 1) + ")";
    }
    str strE(Env& e, int d) {
        static const strs w = {"a", "bc", "x y", "", "Q", "long text 0123456789"};
        double x = (double)r.below(1000) / 1000;
        if (d > 0 && x < 0.2) return "(+ " + strE(e, d - 1) + " " + (r.p(0.5) ? strE(e, d - 1) : intE(e, d - 1)) + ")";
        if (d > 0 && x < 0.28) switch (r.below(7)) {
            case 0: return str("(") + (r.p(0.5) ? "upper-case " : r.p(0.5) ? "lower-case " : "trim ") + strE(e, d - 1) + ")";
            case 1: return "(replace " + strE(e, d - 1) + " " + lispStr(str(1, "abp"[r.below(3)])) + " " + strE(e, 0) + ")";
            case 2: return "(reverse " + strE(e, d - 1) + ")";
            case 3: { str s = e.S.empty() ? str("\"abc\"") : var(e.S); return "(if (> (len " + s + ") 1) " + (r.p(0.5) ? "(" + str(r.p(0.5) ? "first " : r.p(0.5) ? "last " : "rest ") + s + ")" : "(nth 1 " + s + ")") + " \"-\")"; }
            case 4: { str s = e.S.empty() ? str("\"abc\"") : var(e.S); return "(if (> (len " + s + ") 1) (slice " + s + " 1 " + num((long)r.range(-1, 3)) + ") \"\")"; }
            case 5: { std::vector<const strs*> k = {&e.I, &e.S, &e.L, &e.D, &e.X}; const strs& v = *k[r.below(k.size())]; if (v.empty()) break; return "(typestr " + var(v) + ")"; }
            default: return "(str " + (r.p(0.3) && !e.L.empty() ? var(e.L) : r.p(0.5) ? fltE(e, d - 1) : intE(e, d - 1)) + ")";
        }
        if (x < 0.6 && !e.S.empty()) return var(e.S);
        return lispStr(r.pick(w));
    }
    str scalE(Env& e, int d) { double x = (double)r.below(100) / 100; return x < 0.5 ? intE(e, d) : x < 0.6 ? fltE(e, d) : strE(e, d); }
    str listE(Env& e, int d) {
        double x = (double)r.below(1000) / 1000;
        if (e.call && r.p(0.05)) return "(args)";
        if (x < 0.35 && !e.L.empty()) return var(e.L);
        if (x < 0.6 || d <= 0) { str s = "(list"; int n = (int)r.below(4); for (int i = 0; i < n; i++) s += " " + scalE(e, d - 1); return s + ")"; }
        if (x < 0.66) return "'(" + lit() + " " + lispStr("q") + " " + lit() + ")";
        if (x < 0.72) return "(rest " + listE(e, d - 1) + ")";
        if (x < 0.78) return "(cons " + scalE(e, d - 1) + " " + listE(e, d - 1) + ")";
        if (x < 0.84) { double y = (double)r.below(100) / 100; return "(append " + listE(e, d - 1) + (y < 0.3 ? str("") : " " + listE(e, d - 1) + (y > 0.9 ? " " + listE(e, d - 1) : str(""))) + ")"; }
        if (x < 0.88) return "(reverse " + listE(e, d - 1) + ")";
        if (x < 0.94) return "(map (lambda (x) (+ x " + lit() + ")) (list " + intE(e, d - 1) + " " + intE(e, 0) + "))";
        if (x < 0.97 && !e.L.empty()) return "(list " + var(e.L) + " " + lit() + ")";        // nested, shared
        std::vector<Fn> c; for (auto& f : fns) if (f.kind == 1) c.push_back(f);
        if (c.empty() || e.L.empty()) return "(list)";
        return "(" + r.pick(c).name + " " + var(e.L) + " " + intE(e, d - 1) + ")";
    }
    str body(Env& e, int d, int n) { str s; for (int i = 0; i < n; i++) { s += i ? " " : ""; if (inert && r.p(0.4)) s += inert() + " "; s += stmt(e, d); } return s; }
    str block(Env& e, int d, int n) { return "(do " + body(e, d, n) + ")"; }
    str error(Env& e) {
        switch (r.below(10)) {
            case 0: return "(undefined-fn" + num((long)r.below(3)) + " " + intE(e, 1) + ")";
            case 1: return "(nth " + num((long)r.range(50, 60)) + " " + (e.L.empty() ? str("(list 1 2)") : var(e.L)) + ")";
            case 2: return "(setf nosuchvar " + intE(e, 1) + ")";
            case 3: return e.I.empty() ? str("(push 1 5)") : "(push " + lit() + " " + var(e.I) + ")";
            case 4: return "(len)";
            case 5: return e.I.empty() ? str("(dict-set 1 2 3)") : "(dict-set " + var(e.I) + " 1 2)";
            case 6: return e.L.empty() ? str("(first (list))") : "(setf (nth " + num((long)r.range(50, 60)) + " " + var(e.L) + ") " + intE(e, 1) + ")";
            case 7: return "(if " + boolE(e, 1) + ")";
            case 8: return str(r.p(0.5) ? "(/ " : "(% ") + intE(e, 1) + " 0)";
            default: return "(dict-get " + lit() + " " + lit() + ")";
        }
    }
    str stmt(Env& e, int d) {
        std::vector<std::pair<double, int>> w = {{1.2, 0}, {wList, 1}, {wList, 2}, {wList * 0.6, 3}, {wDict, 4}, {wPrint, 5}, {0.5, 6}, {wLoop, 7}, {wNest * 0.6, 8}, {wFn * 0.7, 9}, {wErr * 3, 10}, {wRet * (e.fn ? 1.5 : 0.4), 11}, {wFn * (e.fn || d < 2 ? 0 : 0.8), 12}, {wNest * 0.4, 13}, {wNest * 0.4, 14}, {0.3, 15}, {0.3, 16}, {wMod * (e.fn || d < 2 ? 0 : 1), 17}, {wCode * (e.C.empty() ? 0 : 1), 18}, {wDel, 19}};
        double t = 0; for (auto& p : w) t += p.first;
        double x = t * (double)r.below(100000) / 100000; int k = 0;
        for (auto& p : w) { if (x < p.first) { k = p.second; break; } x -= p.first; }
        int dd = d - 1;
        switch (k) {
            case 0: { if (r.p(0.12) && !e.X.empty()) return "(" + str(e.fn ? "setf" : "def") + " " + var(e.X) + " " + fltE(e, d) + ")";
                if (r.p(0.5) && !e.I.empty()) { str v = var(e.I); return "(" + str(r.p(0.7) ? "setf" : e.fn ? "setf" : "def") + " " + v + " " + intE(e, d) + ")"; } if (!e.S.empty() && r.p(0.5)) return "(setf " + var(e.S) + " " + strE(e, d) + ")"; if (e.fn) { str v = r.p(0.5) ? "loc" : "i0"; str s = "(def " + v + " " + intE(e, d) + ")"; if (v == "loc") e.I.push_back(v); return s; } return "(gdef " + var(g.I) + " " + intE(e, d) + ")"; }
            case 1: { if (e.call && r.p(0.15)) { str k = "(args)"; return r.p(0.5) ? "(push " + lit() + " " + k + ")" : r.p(0.5) ? "(pop " + k + ")" : "(do (def av " + k + ") (push " + lit() + " av) (pop av 1) (println (len av) (len (args)) (argscount)))"; }
                if (e.L.empty()) break; str l = var(e.L); double y = (double)r.below(100) / 100; if (y < 0.5) return "(push " + scalE(e, dd) + " " + l + (r.p(0.4) ? " " + num((long)r.below(4)) : "") + ")"; if (y < 0.8) return "(pop " + l + (r.p(0.4) ? " " + num((long)r.below(4)) : "") + ")"; if (y < 0.9) return "(setf (nth " + num((long)r.below(3)) + " " + l + ") " + scalE(e, dd + (int)r.below(2)) + ")"; return "(setf (" + str(r.p(0.5) ? "first " : "last ") + l + ") " + scalE(e, dd + (int)r.below(2)) + ")"; }
            case 2: { if (e.L.empty()) break; return "(" + str(e.fn || r.p(0.5) ? "setf" : "def") + " " + var(e.L) + " " + listE(e, d) + ")"; }
            case 3: { if (e.N.empty() || e.L.empty()) break;    // only n-variables hold lists as elements, nothing else ever contains them: no cycles
                str a = var(e.L), b = var(e.N); double y = (double)r.below(100) / 100;
                if (y < 0.3) return "(push " + a + " " + b + ")";
                if (y < 0.5) return "(setf (nth " + num((long)r.below(2)) + " " + b + ") " + a + ")";
                if (y < 0.7) return "(push " + scalE(e, dd) + " (nth " + num((long)r.below(2)) + " " + b + "))";
                if (y < 0.8) return "(pop (first " + b + "))";
                if (y < 0.9) return "(setf " + a + " (nth " + num((long)r.below(2)) + " " + b + "))";
                return "(setf " + b + " " + var(e.N) + ")"; }
            case 4: { if (e.D.empty()) break; bool txt = r.p(0.3) && !e.E.empty(); str dv = txt ? var(e.E) : var(e.D), key = txt ? lispStr(str(1, (char)('a' + r.below(3)))) : num((long)r.below(4)); double y = (double)r.below(100) / 100;
                if (y < 0.45) return "(dict-set " + dv + " " + key + " " + (r.p(0.6) ? scalE(e, dd) : e.L.empty() ? lit() : var(e.L)) + ")";
                if (y < 0.6) return "(dict-remove " + dv + " " + key + ")";
                if (y < 0.64) return "(dict-clear " + dv + ")";
                if (y < 0.74 && e.L.size()) return "(setf " + var(e.L) + " (dict-keys " + dv + "))";
                if (y < 0.84 && e.D.size() > 1 && !txt) return "(setf " + var(e.D) + " " + var(e.D) + ")";
                if (y < 0.87) return "(println " + str(mark ? "(+ \"@\" \"@d\") " : "") + "(typestr (dict-get " + dv + " " + key + ")) (len " + dv + "))";
                if (y < 0.9) return "(println " + str(mark ? "(+ \"@\" \"@d\") " : "") + "(dict-get " + dv + " " + key + "))";
                if (y < 0.91) return "(if (== \"List\" (typestr (dict-get " + dv + " " + key + "))) (push " + scalE(e, dd) + " (dict-get " + dv + " " + key + ")))";
                if (y < 0.92) return "(dict-set " + dv + " " + key + " (dict-get " + dv + " " + (txt ? lispStr("a") : num((long)r.below(4))) + "))";
                if (y < 0.95) return "(println (dict-contains-value " + dv + " " + lit() + "))";
                return "(println (dict-contains-key " + dv + " " + key + ") (len " + dv + "))"; }
            case 5: if (io && r.p(0.4)) switch (r.below(3)) {
                    case 0: return "(File-WriteAllText \"o" + num((long)r.below(3)) + ".txt\" (+ \"v\" " + scalE(e, dd) + "))";
                    case 1: return "(println (+ \"@\" \"@r\") (len (File-ReadAllText \"in.txt\")))";
                    default: return "(println (+ \"@\" \"@x\") (File-Exists \"" + str(r.p(0.5) ? "in.txt" : "nothere.txt") + "\"))";
                }
                if (in && r.p(0.25)) return "(println (+ \"@\" \"@i\") (readline))";
                if (mark) return "(println (+ \"@\" \"@" + str(1, (char)('a' + r.below(26))) + "\") " + scalE(e, dd) + (r.p(0.3) ? " " + boolE(e, dd) : "") + ")";
                return "(" + str(r.p(0.7) ? "println" : "print") + " " + scalE(e, dd) + (r.p(0.3) ? " " + boolE(e, dd) : "") + ")";
            case 6: { if (d <= 0) break; Env e2 = e; return "(if " + boolE(e, dd) + " " + block(e2, dd, (int)r.range(1, 2)) + (r.p(0.5) ? " " + block(e2, dd, 1) : "") + ")"; }
            case 7: { if (d <= 0) break; str v = "w" + num(loop++); Env e2 = e; e2.fn = true; str b = block(e2, dd, (int)r.range(1, 2)); return "(do (def " + v + " 0) (while (< " + v + " " + num(r.range(1, 3)) + ") (do (setf " + v + " (+ " + v + " 1)) " + b + ")))"; }
            case 8: { if (d <= 0) break; Env e2 = e; if (r.p(0.3)) return "(eval (quote (do " + body(e2, dd, (int)r.range(1, 2)) + ")))"; return "(evalstr " + lispStr(body(e2, dd, (int)r.range(1, 2))) + ")"; }
            case 9: { str c = callInt(e, d); if (c.empty()) break; if (r.p(0.4) && !e.I.empty()) return "(setf " + var(e.I) + " " + c + ")"; return c; }
            case 10: return error(e);
            case 11: if (e.fn && e.call && r.p(0.15)) return r.p(0.5) ? "(and " + boolE(e, dd) + " (return #f))" : "(or " + boolE(e, dd) + " (return #t))";
                return "(return " + intE(e, dd) + ")";
            case 12: return defFn(e, d);
            case 13: { if (d <= 0 || e.L.empty()) break; Env e2 = e; e2.fn = e2.call = true; e2.argLo = 0; e2.I.push_back("x"); return "(map (lambda (x) (do " + body(e2, dd, 1) + " (return (+ x 1)))) (list " + lit() + " " + lit() + "))"; }
            case 14: { if (macros.empty() || e.I.empty()) break; return "(" + r.pick(macros) + " " + var(e.I) + " " + intE(e, dd) + ")"; }
            case 15: { std::vector<Fn> c; for (auto& f : fns) if (f.kind == 1) c.push_back(f); if (c.empty() || e.L.empty()) break; return "(" + r.pick(c).name + " " + var(e.L) + " " + intE(e, dd) + ")"; }
            case 16: { std::vector<Fn> c; for (auto& f : fns) if (f.kind == 3) c.push_back(f); if (c.empty() || e.D.empty()) break; return "(" + r.pick(c).name + " " + var(e.D) + " " + intE(e, dd) + ")"; }
            case 18: if (!e.fn && !g.C.empty() && r.p(0.3)) return "(" + str(r.p(0.5) ? "setf" : "def") + " " + var(g.C) + " " + code(dd) + ")";
                if (r.p(0.3)) { std::vector<Fn> c; for (auto& f : fns) if (f.kind == 7) c.push_back(f); if (!c.empty()) return "(" + r.pick(c).name + " " + var(e.C) + " " + intE(e, dd) + ")"; }
                return "(eval " + var(e.C) + ")";
            case 19: if (e.call && r.p(0.6)) { str v = var(g.I); return "(do (def " + v + " " + intE(e, dd) + ") (println " + (mark ? "(+ \"@\" \"@z\") " : "") + v + ") (delvar \"" + v + "\") (setf " + v + " (+ " + v + " 1)))"; }
                { str v = "dv" + num((long)r.below(3)); return "(do (def " + v + " " + scalE(e, dd) + ") (setf " + v + " (list " + v + ")) (println " + (mark ? "(+ \"@\" \"@z\") " : "") + v + " (delvar \"" + v + "\")) (delvar \"" + v + "\"))"; }
            case 17: return "(import \"m" + num((long)r.below(2)) + ".fuel\")";
        }
        return "(setf " + var(g.I) + " " + intE(e, d) + ")";
    }
    str defFn(Env& e, int d) {
        int k = (int)r.below(11);
        str n = "f" + num((long)r.below(6)) + "k" + num(k);
        auto add = [&](int kind) { for (auto& f : fns) if (f.name == n) return; fns.push_back({n, kind}); };
        auto cleanEnv = [&] { Env b; b.fn = b.call = true; b.I = g.I; b.S = g.S; b.L = g.L; b.D = g.D; b.E = g.E; b.N = g.N; b.X = g.X; b.C = g.C; return b; };
        auto saved = fns; fns.erase(std::remove_if(fns.begin(), fns.end(), [&](const Fn& f) { return f.name == n; }), fns.end());    // no recursion
        // calls only of functions with a smaller name: redefinition never makes a cycle
        fns.erase(std::remove_if(fns.begin(), fns.end(), [&](const Fn& f) { return f.name[0] == 'f' && f.name >= n; }), fns.end());
        str s;
        if (k == 0 || k == 5 || k == 9) { Env b = cleanEnv(); str p1 = r.p(0.3) ? "i0" : "a", p2 = "b"; b.I.push_back(p1); b.I.push_back(p2); s = "(defn " + n + " (" + p1 + " " + p2 + ") (do " + body(b, d - 1, (int)r.range(1, 3)) + " (return " + intE(b, 2) + ")" + (r.p(0.3) ? " (println \"unreachable\")" : "") + "))"; fns = saved; add(0); }
        else if (k == 6) { Env b = cleanEnv(); b.I.push_back("a"); str pre = body(b, d - 1, 1), in = intE(b, 1); b.I.push_back("loc"); s = "(defn " + n + " (n a) (do (if (< n 1) (return a)) " + pre + " (def loc (" + n + " (- n 1) " + in + ")) " + body(b, d - 1, 1) + " (return (+ loc n))))"; fns = saved; add(5); }
        else if (k == 7) { Env b = cleanEnv(); b.I.push_back("x"); s = "(defn " + n + " (q x) (do " + body(b, d - 1, 1) + (r.p(0.5) ? " (return (q (q x)))))" : " (return (+ (q x) (apply q (list " + intE(b, 1) + "))))))"); fns = saved; add(6); }
        else if (k == 8) { Env b = cleanEnv(); str p1 = r.p(0.4) ? "i0" : "cn"; b.I.push_back(p1); s = "(defn " + n + " (cd " + p1 + ") (do " + body(b, d - 1, 1) + " (eval cd) " + (r.p(0.4) ? body(b, d - 1, 1) : str("")) + " (return " + intE(b, 1) + ")))"; fns = saved; add(7); }
        else if (k == 1) { Env b = cleanEnv(); b.argLo = 1; str p1 = r.p(0.3) ? "l0" : "pl"; b.L.push_back(p1); b.I.push_back("pv"); s = "(defn " + n + " (" + p1 + " pv) (do (push pv " + p1 + ") " + body(b, d - 1, 1) + " (return " + p1 + ")))"; fns = saved; add(1); }
        else if (k == 2) { str mk = "mk" + num(fresh++); fns = saved; add(2); s = "(defn " + mk + " (n) (do (def c n) (return (lambda (x) (do (setf c (+ c x)) (return c)))))) (def " + n + " (" + mk + " " + lit() + "))"; }
        else if (k == 3) { Env b = cleanEnv(); b.argLo = 1; b.D.push_back("pd"); b.I.push_back("pv"); s = "(defn " + n + " (pd pv) (do (dict-set pd pv " + intE(b, 1) + ") " + body(b, d - 1, 1) + " (return pd)))"; fns = saved; add(3); }
        else if (k == 10) { Env b = cleanEnv(); b.I.push_back("a"); str p2 = r.p(0.6) ? var(g.I) : r.p(0.5) ? str("l0") : str("b"), m = mark ? "(+ \"@\" \"@v\") " : "";     // called with any number of arguments
            for (auto v : {&b.I, &b.L}) v->erase(std::remove(v->begin(), v->end(), p2), v->end());
            s = "(defn " + n + " (a " + p2 + ") (do (println " + m + "(argscount) (typestr " + p2 + ")) " + body(b, d - 1, 1) + " (if (> (argscount) 2) (println " + m + "_additionalArgs))" + (r.p(0.3) ? " (if (> (argscount) 2) (push " + lit() + " _additionalArgs))" : "") + " (return (+ (len (args)) a))))"; fns = saved; add(8); }
        else { Env b = cleanEnv(); s = "(defn " + n + " () (do " + body(b, d - 1, 2) + " (return " + intE(b, 1) + ")))"; fns = saved; add(4); }
        if (k != 2 && r.p(0.12)) s = "(gdefn" + s.substr(5);
        return s;
    }
    // code that is kept in a variable: it uses global names only and calls no functions, as it may be evaluated inside any of them
    str code(int d) { auto f = fns; auto m = macros; auto in = inert; fns.clear(); macros.clear(); inert = nullptr; Env e = g; e.C.clear(); e.fn = true; str s = "'(do " + body(e, std::min(d, 1), (int)r.range(1, 2)) + ")"; if (s.find('\'', 1) != str::npos) s = "'(do (setf i0 " + lit() + ") (println i0))"; fns = f; macros = m; inert = in; return s; }
    str defMacro() {
        str n = "mac" + num((long)r.below(3));
        if (std::find(macros.begin(), macros.end(), n) == macros.end()) macros.push_back(n);
        str b, pr = mark ? "(println (+ \"@\" \"@m\") mx)" : "(println mx)";
        switch (r.below(8)) {
            case 0: b = "(do (setf mv (+ mv mx)) (setf mv (- mv mx)))"; break;       // the argument is evaluated twice
            case 1: b = "(if (> mx 2) (setf mv mx) (setf mv 0))"; break;
            case 2: b = "(do " + pr + " (setf mv (+ mv 1)))"; break;
            case 3: b = "(do (def mloc mx) (setf mv (+ mloc 1)))"; break;             // the name is one of the caller's scope
            case 4: if (n != "mac0" && std::find(macros.begin(), macros.end(), "mac0") != macros.end()) { b = "(mac0 mv (+ mx 1))"; break; }    // fall through
            default: b = "(setf mv (+ mv mx))";
        }
        return "(define-macro-eval " + n + " (mv mx) " + b + ")";
    }
    str setup() {
        str s;
        for (int i = 0; i < 3; i++) { s += "(def i" + num(i) + " " + lit() + ") "; g.I.push_back("i" + num(i)); }
        for (int i = 0; i < 2; i++) { s += "(def s" + num(i) + " " + lispStr(str(1, (char)('p' + i))) + ") "; g.S.push_back("s" + num(i)); }
        for (int i = 0; i < 3; i++) { s += i && r.p(0.3) ? "(def l" + num(i) + " l0) " : "(def l" + num(i) + " (list " + lit() + " " + lit() + (r.p(0.5) ? " \"e\"" : "") + ")) "; g.L.push_back("l" + num(i)); }
        for (int i = 0; i < 2; i++) { s += "(def d" + num(i) + " (make-dict)) "; g.D.push_back("d" + num(i)); }
        s += "(def x0 " + fltE(g, 0) + ") "; g.X.push_back("x0");
        s += "(def e0 (make-dict))"; g.E.push_back("e0");
        for (int i = 0; i < 2; i++) { s += " (def n" + num(i) + " (list l" + num(i) + " l2))"; g.N.push_back("n" + num(i)); }
        if (wCode > 0 && r.p(0.5)) for (int i = 0; i < 2; i++) { s += " (def q" + num(i) + " " + code(1) + ")"; g.C.push_back("q" + num(i)); }
        return s;
    }
    // modules m0, m1: a counter with hidden state, a function that changes a list, one that fails
    str module(int k) {
        str t = num(k);
        str s = "(def mv" + t + " " + lit() + ")\n(defn mf" + t + " (x)\n  (do (setf mv" + t + " (+ mv" + t + " x))\n   (return mv" + t + ")))\n(defn ml" + t + " (pl pv) (do (push pv pl) (return pl)))\n";
        if (r.p(0.5)) s += "(defn mh" + t + " (x y) (do (def loc (mf" + t + " x)) (if (> loc 3) (return y)) (return (+ loc y))))\n";
        if (r.p(0.3)) s += "(println \"module " + t + "\")\n";
        if (r.p(0.3)) s += "(gdef i0 " + lit() + ")\n";
        return s;
    }
    void modulesKnown(const str& m0, const str& m1) {
        for (int k = 0; k < 2; k++) { str t = num(k); const str& m = k ? m1 : m0; fns.push_back({"mf" + t, 2}); fns.push_back({"ml" + t, 1}); if (m.find("mh" + t) != str::npos) fns.push_back({"mh" + t, 0}); }
    }
};
