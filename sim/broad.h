// Programs over the whole language: typed programs (progen.h) mixed with calls of any builtin with any arguments,
// quoted and evaluated code, macros, files, console input, clock, and damaged program text.
#pragma once
#include "progen.h"
struct Broad {
    Rng& r; ProgGen p;
    double wWild = 1, wIo = 0.3, wIn = 0.2, wTime = 0.1, wDoc = 0.02; bool files = true, functions = true;
    bool all = false;       // every name of the language, with any number of arguments
    bool lib = false;       // the program uses the standard library of the repository
    explicit Broad(Rng& r) : r(r), p(r) {}
    str scalar() { static const strs v = {"0", "1", "-1", "2", "7", "100", "3.5", "-0.25", "1e3", "\"\"", "\"a\"", "\"abc def\"", "\"12\"", "\"x3.5\"", "#t", "#f", "NIL", "\"\\n\\t\"", "2147483647", "'sym", "'()"}; return r.pick(v); }
    str fn(bool mutators = false) { static const strs v = {"+", "-", "*", "list", "len", "first", "rest", "str", "not", "(lambda (x) (+ x 1))", "(lambda (x y) (list x y))", "(lambda () 3)", "reverse", "typestr", "undefinedfn", "5", "\"+\""}; (void)mutators; return r.pick(v); }
    // values built by unquoting and splicing, in every place where a value can stand
    str quasi(int d) {
        str l = r.p(0.6) ? p.listE(p.g, d - 1) : r.p(0.3) ? str("(list)") : r.p(0.5) ? scalar() : wild(d - 1);
        switch (r.below(8)) {
            case 0: case 1: case 2: return "`,@" + l;
            case 3: return "`," + l;
            case 4: return "`(,@" + l + ")";
            case 5: return "`(" + scalar() + " ,@" + l + " ,@" + l + ")";
            case 6: return "(" + str(r.p(0.5) ? "_unquote " : "_unquotesplicing ") + l + ")";
            default: return "`(" + scalar() + " (" + scalar() + " ,@" + l + " ," + scalar() + ") ,@" + l + " " + scalar() + ")";
        }
    }
    // calls with arguments of the expected kinds, but any values
    str text() { double x = (double)r.below(100) / 100; if (x < 0.3 && p.g.S.size()) return p.var(p.g.S); static const strs v = {"\"\"", "\"abcabc\"", "\"b\"", "\"  x \"", "\"3.75\"", "\"-12\"", "\"1e400\"", "\"99999999999\"", "\"{0}\"", "\"a{\"", "\"}{0}{1}{2}{3}{4}{5}\"", "\"{0,5}{1,-5}{2:x}\"", "\"\\\"q\\\"\""}; return r.pick(v); }
    str idx() { static const strs v = {"0", "1", "2", "3", "-1", "5", "100", "2147483647", "-2147483648", "1.5"}; return r.p(0.6) ? num((long)r.below(5)) : r.pick(v); }
    str value(int d) { static const strs v = {"(make-dict)", "(lambda (x) x)", "'sym", "len", "()", "NIL", "(quote (1 (2)))", "(list)", "(list (list 1) 2)", "#t", "2.5", "(nop)", "(type 1)", "if", "'(a b)"}; double x = (double)r.below(100) / 100; if (x < 0.3) return r.pick(v); if (x < 0.5) return p.var(p.g.L); if (x < 0.6) return p.var(p.g.D); if (x < 0.7) return text(); if (x < 0.8) return scalar(); return wild(d - 1); }
    // a value that contains no container of the program: no container may ever contain itself
    str fresh() { static const strs v = {"(make-dict)", "(lambda (x) x)", "'sym", "len", "()", "NIL", "(quote (1 (2)))", "(list)", "(list (list 1) 2)", "#t", "2.5", "(nop)", "(type 1)", "if", "'(a b)"}; return r.p(0.6) ? r.pick(v) : r.p(0.5) ? text() : scalar(); }
    str goodCall(int d) {
        static const strs cmp = {"==", "=", "!=", "equal", "<", ">", "<=", ">="};
        switch (r.below(20)) {
            case 0: return "(" + str(r.p(0.5) ? "int " : "float ") + (r.p(0.5) ? text() : value(d)) + ")";
            case 1: return "(search " + text() + " " + (r.p(0.7) ? text() : p.var(p.g.L)) + (r.p(0.6) ? " " + idx() + (r.p(0.6) ? " " + idx() : "") : "") + ")";
            case 2: return "(slice " + text() + " " + idx() + " " + idx() + ")";
            case 3: { str s = "(format " + text(); for (int n = (int)r.below(7); n > 0; n--) s += " " + scalar(); return s + ")"; }
            case 4: return "(replace " + text() + " " + text() + " " + text() + ")";
            case 5: return "((lambda (x y) (arg " + idx() + ")) 1 2)";
            case 6: return "(map (lambda (x) (list (arg " + idx() + ") (argscount) (args))) " + p.var(p.g.L) + ")";
            case 7: return "(nth " + idx() + " " + (r.p(0.5) ? text() : p.var(p.g.L)) + ")";
            case 8: return "(" + str(r.p(0.5) ? "first " : r.p(0.5) ? "last " : "rest ") + (r.p(0.5) ? text() : p.listE(p.g, 1)) + ")";
            case 9: case 10: return "(" + r.pick(cmp) + " " + value(d) + " " + value(d) + ")";
            case 11: return "(dict-contains-value " + p.var(p.g.D) + " " + value(d) + ")";
            case 12: return "(do (dict-set " + p.var(p.g.D) + " " + num((long)r.below(4)) + " " + fresh() + ") (dict-contains-value " + p.var(p.g.D) + " " + value(d) + "))";
            case 13: return "(str " + value(d) + ")";
            case 14: return "(" + str(r.p(0.5) ? "typestr " : "type ") + value(d) + ")";
            case 15: return "(" + str(r.p(0.3) ? "/ " : r.p(0.5) ? "% " : "<< ") + idx() + " " + idx() + ")";
            case 16: return "(search " + scalar() + " " + p.listE(p.g, 1) + ")";
            case 17: return "(" + str(r.p(0.5) ? "not " : "! ") + value(d) + ")";
            case 18: return "(parse-" + str(r.p(0.5) ? "integer " : "float ") + text() + ")";
            default: return "(sym " + text() + ")";
        }
    }
    str wild(int d) {
        if (d > 0 && r.p(0.04)) return quasi(d);
        if (d > 0 && r.p(0.12)) return goodCall(d);
        double x = (double)r.below(1000) / 1000;
        if (d <= 0 || x < 0.25) return scalar();
        if (x < 0.35 && p.g.I.size()) return p.var(p.g.I);
        if (x < 0.41 && p.g.L.size()) return p.var(p.g.L);
        if (x < 0.45 && p.g.D.size()) return p.var(p.g.D);
        if (x < 0.5 && p.g.S.size()) return p.var(p.g.S);
        if (x < 0.54) return p.listE(p.g, d - 1);
        if (x < 0.56) return "(quote (" + scalar() + " " + scalar() + "))";
        if (x < 0.58) return fn();
        if (x < 0.6) return "nosuchvariable";
        return wildCall(d - 1);
    }
    str badFn() { static const strs v = {"(lambda)", "(lambda ())", "(lambda (x))", "(lambda 5 6)", "(lambda x (+ x 1))", "(fn)", "(fn (1 \"a\") (+ 1 2))", "(lambda (x x) (list x))", "(lambda (()) (list 1))", "(lambda ((a b)) (list a))", "(lambda (x) 7)", "(lambda (x) x)", "(lambda (x) ())", "(lambda (x) (x))", "(lambda NIL (+ 1 2))", "(lambda \"x\" \"y\")"}; return r.pick(v); }
    str anyCall(int d) {
        static const strs names = {"fuel", "help", "vars", "macros", "modules", "callstack", "break", "import", "tickcount", "date-time", "sleep", "native-methods", "native-fields", "field", "call", "call-static", "readline", "File-ReadAllText", "File-WriteAllText", "Math-Sinh", "Math-Asin", "Math-Cosh", "Math-Acos", "Math-Tan", "Math-Tanh", "Math-Atan", "Math-Log10", "define-macro", "define-macro-eval", "define-macro-expand", "evalstr", "map", "reduce", "apply", "push", "dict-set", "setf", "def", "defn", "if", "and", "eval", "print", "nth", "htmldoc"};
        if (r.p(0.3)) { str f = badFn(); switch (r.below(6)) { case 0: return "(map " + f + " (list 1 2))"; case 1: return "(apply " + f + " (list " + scalar() + "))"; case 2: return "(reduce " + f + " (list 1 2) 0)"; case 3: return "(do (def zbf " + f + ") (zbf " + scalar() + "))"; case 4: return "(do (defn zbg " + str(r.p(0.5) ? "(x)" : scalar()) + " " + (r.p(0.5) ? scalar() : wild(d)) + ") (zbg " + scalar() + "))"; default: return "(println " + f + ")"; } }
        str f = r.pick(names), s = "(" + f; int n = (int)r.below(5);
        bool stores = f == "push" || f == "dict-set" || f == "setf" || f == "def";
        for (int i = 0; i < n; i++) s += " " + (stores && r.p(0.7) ? (r.p(0.5) && i < 2 ? wildVarNot(i, f) : scalar()) : stores ? fresh() : r.p(0.15) ? badFn() : r.p(0.2) ? str(r.p(0.5) ? "()" : "(())") : wild(d));
        return s + ")";
    }
    str wildCall(int d) {
        static const strs pure = {"!", "!=", "%", "&", "&&", "*", "+", "-", "/", "<", "<<", "<=", "=", "==", ">", ">=", ">>", "Math-Abs", "Math-Ceiling", "Math-Cos", "Math-Exp", "Math-Floor", "Math-Log", "Math-Pi", "Math-Pow", "Math-Round", "Math-Sin", "Math-Sqrt", "Math-Truncate", "^", "add", "append", "and", "or", "car", "cdr", "cons",
            "dict-contains-key", "dict-contains-value", "dict-get", "dict-keys", "div", "do", "begin", "equal", "first", "float", "flush", "format", "gettrace", "if", "int", "last", "len", "list", "lower-case", "make-dict", "mod", "mul", "need-l-value", "nop", "not", "nth", "parse-float", "parse-integer", "platform", "print", "println", "replace", "rest", "reverse", "rval", "search",
            "slice", "str", "string", "sub", "sym", "trim", "type", "typestr", "upper-case", "|", "||", "~", "quote", "quasiquote", "argscount", "args", "arg", "eval", "pop", "dict-remove", "dict-clear", "delvar", "trace", "lambda", "fn", "def", "gdef", "setf", "defn", "gdefn", "doc", "searchdoc", "File-Exists", "unquote", "unquotesplicing", "copyright", "version", "return", "while"};
        if (all && r.p(0.12)) return anyCall(d);
        double x = (double)r.below(1000) / 1000;
        if (x < 0.05) return "(map " + fn() + " " + (r.p(0.7) ? p.listE(p.g, 1) : wild(d)) + ")";
        if (x < 0.09) return "(reduce " + fn() + " " + (r.p(0.7) ? p.listE(p.g, 1) : wild(d)) + " " + scalar() + ")";
        if (x < 0.13) return "(apply " + fn() + " " + (r.p(0.7) ? p.listE(p.g, 1) : wild(d)) + ")";
        if (x < 0.16) return "(evalstr " + lispStr(wildCall(d - 1)) + ")";
        if (x < 0.18) return "(eval (quote " + wildCall(d - 1) + "))";
        if (x < 0.21) return "(push " + scalar() + " " + wildVar() + (r.p(0.4) ? " " + scalar() : "") + ")";
        if (x < 0.24) return "(dict-set " + wildVar() + " " + (r.p(0.5) ? num((long)r.below(4)) : scalar()) + " " + scalar() + ")";
        if (x < 0.26) return "(setf (nth " + scalar() + " " + wildVar() + ") " + scalar() + ")";
        if (x < 0.265) { static const strs v = {"(map (lambda (x) (nosuchfunction x)) (list 1 2))", "(apply (lambda (x) (len x x)) (list 3))", "(do (def zl (lambda (x) (break))) (zl 1))", "(do (def zl (lambda (x) (do (nosuchfunction x)))) (zl 1))", "(map (lambda (x) (callstack)) (list 1))", "(map (lambda (x) (break)) (list 1))", "(do (defn zfe (x) (nth 9 x)) (zfe (list 1 2)))"}; return r.pick(v); }
        if (x < 0.28) return "(" + fn() + " " + wild(d) + ")";
        if (x < 0.30) return "`(a ," + wild(d) + " ,@(list 1 " + scalar() + ") (b " + scalar() + "))";
        if (x < 0.32) return "(format " + lispStr(r.p(0.5) ? "{0} and {1}" : "{0}{5}{a}{") + " " + wild(d) + (r.p(0.5) ? " " + wild(d) : "") + ")";
        const str& f = r.pick(pure);
        if (f == "while") return "(while #f " + wild(d) + ")";
        if (f == "def" || f == "gdef" || f == "setf") { str v = "zv" + num((long)r.below(3)); double y = (double)r.below(100) / 100; if (y < 0.15) return "(" + f + ")"; if (y < 0.3) return "(" + f + " " + v + ")"; if (y < 0.4) return "(" + f + " " + scalar() + " 1)"; return "(" + f + " " + v + " " + scalar() + ")"; }
        if (f == "defn" || f == "gdefn") { double y = (double)r.below(100) / 100; if (y < 0.2) return "(" + f + " zf)"; if (y < 0.35) return "(" + f + " zf (a))"; if (y < 0.5) return "(" + f + " zf " + scalar() + " 1)"; return "(" + f + " zf (a) (list a " + scalar() + "))"; }
        if (f == "delvar") return "(delvar " + str(r.p(0.5) ? "zv0" : "(quote zv1)") + ")";
        if (f == "doc" || f == "searchdoc") return "(" + f + " " + str(r.p(0.5) ? "'len" : "\"len\"") + ")";
        int n = (int)r.range(0, r.p(0.85) ? 3 : 6);
        str s = "(" + f;
        for (int i = 0; i < n; i++) s += " " + wild(d);
        return s + ")";
    }
    // a container at the place where the operation f expects the container
    str wildVarNot(int i, const str& f) { return i == (f == "push" ? 1 : 0) ? wildVar() : scalar(); }
    str wildVar() { double x = (double)r.below(100) / 100; if (x < 0.5 && p.g.L.size()) return p.var(p.g.L); if (x < 0.8 && p.g.D.size()) return p.var(p.g.D); if (x < 0.9) return scalar(); return "nosuchvariable"; }
    str io() {
        str f = "f" + num((long)r.below(3)) + ".txt";
        switch (r.below(5)) {
            case 0: return "(println \"wrote\" (File-WriteAllText " + lispStr(f) + " " + (r.p(0.7) ? "(str " + p.scalE(p.g, 1) + ")" : wild(1)) + "))";
            case 1: return "(println \"text\" (File-ReadAllText " + lispStr(r.p(0.7) ? f : "in.txt") + "))";
            case 2: return "(println (File-Exists " + lispStr(r.p(0.5) ? "in.txt" : f) + "))";
            case 3: return "(println (len (File-ReadAllText " + lispStr(r.p(0.8) ? "in.txt" : "sub") + ")))";
            default: return "(import " + lispStr(r.p(0.6) ? "m0.fuel" : r.p(0.5) ? "m1.fuel" : "nowhere") + ")";
        }
    }
    str libStmt(int d) {
        str k = num((long)r.below(3));
        switch (r.below(12)) {
            case 0: return "(dotimes (zc" + k + " " + num((long)r.below(4)) + ") " + p.stmt(p.g, d - 1) + ")";
            case 1: return "(dotimes (zc" + k + " 2) (dotimes (zd 2) (println \"at\" zc" + k + " zd)))";
            case 2: return "(setq " + p.var(p.g.I) + " " + p.intE(p.g, 1) + ")";
            case 3: return "(defstruct zs" + k + " za zb zc)\n(def zi" + k + " (make-zs" + k + " " + p.intE(p.g, 1) + " " + p.strE(p.g, 1) + " 3))\n(println zi" + k + " (is-zs" + k + "-p zi" + k + ") (is-zs" + k + "-p (list 1)) (get-zs" + k + "-za zi" + k + ") (get-zs" + k + "-zb zi" + k + "))";
            case 4: return "(foreach " + p.listE(p.g, 1) + " (lambda (x) (println \"each\" x)))";
            case 5: return "(foreach (list 1 2 " + p.intE(p.g, 1) + ") (lambda (x) (setf " + p.var(p.g.I) + " (+ x " + p.var(p.g.I) + "))))";
            case 6: return "(println (find " + p.scalE(p.g, 1) + " " + p.listE(p.g, 1) + ") (find 2 (list 1 2 3)))";
            case 7: return "(println (second " + (r.p(0.7) ? "(list 1 2 3)" : p.listE(p.g, 1)) + ") (length " + p.listE(p.g, 1) + ") (strlen " + p.strE(p.g, 1) + "))";
            case 8: return "(println (arg-list-expression " + num((long)r.below(4)) + ") (create-call-expression 'call \"m\" 'obj " + num((long)r.below(3)) + "))";
            case 9: return "(println (isNET) (isCpp) (isHaxe) (dict-len " + p.var(p.g.D) + "))";
            case 10: return "(foreach (list 1 2) (lambda (x) (do (if (> x 1) (nosuchfunction x)) (println \"ok\" x))))";
            default: return "(dotimes (zc" + k + " 3) (if (> zc" + k + " 1) (nth 50 (list 1)) (println \"in\" zc" + k + ")))";
        }
    }
    str stmt(int d) {
        if (lib && r.p(0.3)) return libStmt(d);
        double t = 1 + wWild + wIo + wIn + wTime + wDoc, x = t * (double)r.below(100000) / 100000;
        if (x < 1) return p.stmt(p.g, d);
        x -= 1;
        if (x < wWild) { str c = wildCall(2); if (r.p(0.5)) return "(println " + c + ")"; return c; }
        x -= wWild;
        if (x < wIo && files) return io();
        x -= wIo;
        if (x < wIn) return r.p(0.7) ? "(println \"in\" (readline))" : "(gdef s0 (readline))";
        x -= wIn;
        if (x < wTime) { static const strs v = {"(println (date-time))", "(sleep 5)", "(def zt (tickcount))", "(println (type (tickcount)))"}; return r.pick(v); }
        static const strs v = {"(help)", "(vars)", "(fuel)", "(print (fuel))", "(println (format \"{0}-{1}\" (fuel) i0))", "(copyright)", "(macros)", "(modules)", "(break)", "(print (htmldoc))", "(searchdoc \"list\")"};
        return r.pick(v);
    }
    // statements that define names which every session defines too, each with its own meaning
    str clash(int id) {
        str k = num(id * 7 + 1), m = "cm" + num(id) + ".fuel";
        switch (r.below(9)) {
            case 0: return "(defn cfn (x) (+ x " + k + "))";
            case 1: return "(println \"fn\" (cfn " + num((long)r.below(5)) + "))";
            case 2: return "(import " + lispStr(m) + ")";
            case 3: return "(println \"mod\" (cmod " + num((long)r.below(5)) + "))";
            case 4: return "(define-macro-eval cmac (x) (setf x (+ x " + k + ")))\n(def cv 1)\n(println \"mac\" (cmac cv) cv)";
            case 5: return "(define-macro-expand cmex (x) `(+ ,x " + k + "))\n(println \"mex\" (cmex 2))";
            case 6: return "(gdef cv " + k + ")\n(println \"cv\" cv)";
            case 7: return "(import " + lispStr(m) + ")\n(println \"counted\" (cinc 1) (cinc 1))";
            default: return "(trace #t)\n(println \"traced " + k + "\")\n(println (len (gettrace)))\n(trace #f)";
        }
    }
    void clashFile(Scenario& s, int id) { str k = num(id * 7 + 1); s.items.push_back(Item("file", {"cm" + num(id) + ".fuel", "(def cmv " + k + ")\n(defn cmod (x) (+ x " + k + "))\n(defn cinc (x) (do (setf cmv (+ cmv x)) (return cmv)))\n"})); }
    // the files the programs use
    void world(Scenario& s) {
        if (r.p(0.12)) { s.items.push_back(Item("lib", {"1"})); lib = true; }
        str m0 = p.module(0);
        s.items.push_back(Item("file", {"m0.fuel", m0}));
        str m1 = p.module(1); if (r.p(0.5)) p.modulesKnown(m0, m1); if (r.p(0.3)) m1 = "(import \"m0.fuel\")\n" + m1; if (r.p(0.15)) m1 += "(nosuchfunction 1)\n"; if (r.p(0.1)) m1 += "(((";
        s.items.push_back(Item("file", {"m1.fuel", m1}));
        s.items.push_back(Item("file", {"in.txt", "first line\nsecond \xC3\xBC line\n\nlast"}));
    }
    str program(int n, bool damage, double wErr = 0.02) {
        p.wErr = wErr; p.wNest = 0.3 * (double)r.below(4); p.wFn = 0.4 * (double)r.below(4); p.wMod = 0.1; p.wRet = 0.05; p.wPrint = 1;
        str t;
        if (r.p(0.3)) t += "; comment (with) \"things\"\n";
        t += p.setup() + "\n";
        if (lib && r.p(0.9)) t += "(import \"fuellib\")\n";
        if (damage) { p.wFn = 0; p.wLoop = 0; wWild += 1; }
        else if (functions) {
            if (r.p(0.3)) t += p.defMacro() + "\n";
            if (r.p(0.15)) t += "(define-macro-expand mex (a b) `(+ ,a (* 2 ,b)))\n(println (mex 3 4))\n";
            if (r.p(0.1)) t += "(define-macro-" + str(r.p(0.5) ? "eval" : "expand") + " mqa (a b) " + (r.p(0.5) ? "(list 7 quoted-macro-args a)" : "`(list 7 ,@quoted-macro-args ,b)") + ")\n(println (mqa " + scalar() + " " + wild(1) + "))\n";
            int nf = (int)r.below(3); for (int i = 0; i < nf; i++) t += p.defFn(p.g, 2) + "\n";
            if (r.p(0.1)) t += "(defn rec (n) (if (< n 1) 0 (+ n (rec (- n 1)))))\n(println (rec 5))\n";
        }
        for (int i = 0; i < n; i++) t += stmt(2) + "\n";
        if (damage) {
            int k = (int)r.range(1, 3);
            for (int i = 0; i < k && t.size() > 2; i++) {
                size_t at = r.below(t.size());
                static const strs ins = {"(", ")", "\"", ";", "'", "`", ",", ",@", "#", "\\", "(()", " . ", "\n", "\xC3\xBC", "#t#f", "1.2.3", "-", "\t", "0x", "(\""};
                switch (r.below(5)) { case 0: t.erase(at, 1); break; case 1: t.insert(at, r.pick(ins)); break; case 2: t.resize(at); break; case 3: { size_t b = t.find_first_of("()\"", at); if (b != str::npos) t.erase(b, 1); break; } default: t.insert(at, r.pick(ins)); }
            }
        }
        return t;
    }
};
