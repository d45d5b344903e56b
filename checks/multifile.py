#!/usr/bin/env python3
"""C19: the output for a file is a function of the file, its includes and the options. All ordered
pairs and triples of state-carrying files in one invocation against a fresh process per file; all
include graphs up to a size, #line histories, search orders and option sequences against models."""
import itertools, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import vlib, ppe
from mc.vlib import THOROUGH, sh, CheckError, pmap, chunks, REPO

FILES = {
    "statics": "static int a = 3; int f(void) { static int n = 5; static char t[3] = { 1 }; { static int n = 6; t[1] += n; } return n++ + a + t[1]; }\n",
    "strings": "const char *s = \"hello\", *t = \"wor\" \"ld\"; char u[] = \"hello\"; const char *g(int n) { return n ? \"hello\" : \"other\"; } int *w = L\"wide\"; unsigned short *h = u\"hello\";\n",
    "strings2": "const char *s2 = \"other\", *t2 = \"hello\"; const char *g2(void) { return \"wide\"; } int *w2 = L\"hello\";\n",
    "tentative": "int t1; int t1; static int t2; int t3[]; static int t2; extern int t4; int t4; int *use(void) { t2 = t1; return &t2; }\n",
    "tentdef": "int t1 = 4; extern int t3[]; int get(void) { return t1 + t3[0]; } double t2 = 1.5; static int t4[3];\n",
    "anon": "struct { int a; char b; } x; enum { P, Q = 5 } e; struct { struct { int z; }; union { char c; int d; }; } y = { { 4 }, { 2 } }; int k(void) { struct { char q[3]; } l = { { 1 } }; return l.q[0] + y.z + Q; }\n",
    "pack": "#pragma pack(push, 1)\nstruct p { char a; int b; } v = { 1, 2 };\n#pragma pack(push, 2)\nstruct p2 { char a; long b; } v2 = { 1, 2 };\n",
    "packdef": "#pragma pack(2)\nstruct r { char a; int b; } r = { 1, 2 };\nint s = sizeof(struct r);\n",
    "layout": "struct p { char a; int b; }; struct p v = { 3, 4 }; int sz = sizeof(struct p); struct p2 { char c; long d; } q = { 5, 6 }; typedef char T; T ch = 'x';\n",
    "macros": "#define N 4\n#define FOO(x) ((x) * N)\n#define hello goodbye\n#define int_ int\n#define T1 t1_renamed\nint m[N] = { FOO(2) };\n#undef __STDC__\n",
    "nomacros": "int N = 1; int hello = 2; int FOO(int x) { return x + N; }\n#ifdef __STDC__\nint has_stdc;\n#endif\n#ifdef FOO\n#error leaked\n#endif\n",
    "types": "typedef struct T *T; typedef int N; N n = sizeof(N); struct T { T next; int v[3]; } head = { &head }; T get(T t) { return t->next; }\n",
    "endstring": "extern char c[]; char c[] =\n#define X \"abc\"\nX; const char *last = \"tail\";\nstatic const char *unfinished[] = { \"a\", \"b\" };",
    "pushmac": "#define V 1\n#pragma push_macro(\"V\")\n#undef V\n#define V 2\nint v1 = V;\n",
    "popmac": "#pragma pop_macro(\"V\")\n#ifdef V\nint leaked = V;\n#else\nint v1 = 7;\n#endif\n",
    "line": "int l1 = __LINE__;\n#line 500 \"renamed.c\"\nint l2 = __LINE__; const char *fn = __FILE__;\n",
    "noline": "int l1 = __LINE__;\nconst char *fn = __FILE__; const char *fu(void) { return __func__; }\nint l2 = __LINE__;\n",
    "once": "#include \"once.h\"\n#include \"guard.h\"\n#include \"once.h\"\nint use_once(void) { return ONCE + GUARD; }\n",
    "once2": "#include \"guard.h\"\n#include \"once.h\"\nint a_once[ONCE]; struct og g = { GUARD };\n#include \"plain.h\"\n",
    "vla": "int s(int n) { int a[n]; { char b[n + 3]; b[n] = 1; a[0] = sizeof b; } return a[0] + sizeof a; }\n",
    "varargs": "int sum(int n, ...) { __builtin_va_list ap; __builtin_va_start(ap, n); int r = 0; while (n--) r += __builtin_va_arg(ap, int); double d = __builtin_va_arg(ap, double); __builtin_va_end(ap); return r + d; }\n",
    "floats": "double d = 1.5; float f[2] = { 2.5f }; double h(float a, double b) { return a * b + 3.25 - (b < 1.5); } unsigned long cv(double x) { return x; } float cf(unsigned long u) { return u; }\n",
    "control": "int c(int n) { int r = 0; again: for (int i = 0; i < n; i++) { switch (i) { case 1: r++; break; default: r += 2; case 5 ... 7: continue; } if (r > 100) goto out; } if (r < 3) { n++; goto again; } out: return r ? r : n; }\n".replace("case 5 ... 7: ", "case 5: "),
    "structs": "struct s { int a[5]; double d; }; struct s mk(int n) { struct s r = { { n, 2 }, n }; return r; } int call(void) { return mk(4).a[1] + mk(2).d; }\n",
    "inline": "static inline int sq(int x) { return x * x; } inline int ex(int x) { return sq(x); } extern inline int ex2(int x) { return x; } int ext(int); int u(void) { return sq(3) + ex(2) + ex2(1) + ext(3); }\n",
    "literals": "int *p = (int[]) { 1, 2, 3 }; struct q { int *p; } q = { &(int) { 4 } }; int *l(void) { return (int[2]) { 5, 6 } + 1; }\n",
    "empty": "", "comment": "/* nothing */ // at all", "semis": "int z;\n\n\n",
    "aligned": "_Alignas(64) char a1 = 1; char a2 = 2; _Alignas(16) static int a3[3]; int al(void) { _Alignas(32) char b[3]; return (long)b % 32 + a3[0]; }\n",
    "longnames": "int " + "n" * 200 + " = 3; int " + "m" * 90 + "(void) { static int " + "l" * 120 + " = 2; return " + "l" * 120 + "; }\n",
}
PPONLY = {
    "endstring2": "#define Q \"q\"\na b \"last string\"",
    "endmacro": "#define F(x) [x]\nF(1) F",
    "endident": "x y z",
    "endfunclike": "#define G(x) x\n#define H G\nH",
    "endhash": "#define I(x) #x\nI(a  b) #",
    "counts": "__LINE__ __FILE__\n__LINE__",
    "usesF": "F (2) G(3) H(4) I(5)",
}
HEADERS = {
    "once.h": "#pragma once\n#define ONCE 3\nstruct oo { int a; };\n",
    "guard.h": "#ifndef GUARD_H\n#define GUARD_H\n#define GUARD 4\nstruct og { int a; };\n#endif\n",
    "plain.h": "typedef struct og og_t;\n#define ONCE2 ONCE\n",
}


def outputs(chk, d, names, mode, extra=()):
    """Run one invocation in a fresh directory; -> (rc, stdout, {file: bytes})."""
    w = os.path.join(d, "o")
    os.makedirs(w)
    rc, out = sh([chk.cc, *mode, *extra, *["../s/%s.c" % n for n in names]], 20, cwd=w)
    fs = {f: open(os.path.join(w, f), "rb").read() for f in sorted(os.listdir(w))}
    shutil.rmtree(w)
    return rc, out, fs


def sequences(chk):
    src = os.path.join(chk.work, "seq", "s")
    os.makedirs(src)
    for n, t in list(FILES.items()) + list(PPONLY.items()):
        open(os.path.join(src, n + ".c"), "w").write(t)
    for n, t in HEADERS.items():
        open(os.path.join(src, n), "w").write(t)
    modes = {"-c": ["-c"], "-S": ["-S"], "-E": ["-E"], "-c -MD": ["-c", "-MD"], "-S -fcmodel=large": ["-S", "-fcmodel=large"], "-c -fabi=ms": ["-c", "-fabi=ms"], "-E -DV=9": ["-E", "-DV=9"]}
    alone = {}
    for m in modes:
        for n in list(FILES) + (list(PPONLY) if "-E" in m else []):
            d = os.path.join(chk.work, "seq", "w%d" % len(alone))
            os.makedirs(d)
            os.symlink(src, os.path.join(d, "s"))
            alone[m, n] = r = outputs(chk, d, [n], modes[m])
            if r[0] != 0:
                chk.violation("alone %s %s" % (m, n), "not compiled: %r" % (r[:2],), {"input.c": dict(FILES, **PPONLY)[n]})
    triples = ["statics", "strings", "tentative", "anon", "pack", "macros", "types", "pushmac", "line", "once", "endstring", "empty"]
    work = []
    for m in modes:
        names = list(FILES) + (list(PPONLY) if "-E" in m else [])
        work += [(m, p) for p in itertools.product(names, repeat=2) if p[0] != p[1] or "-E" in m]
        if THOROUGH or m in ("-S", "-E"):
            work += [(m, p) for p in itertools.permutations(triples, 3)]
        # the whole corpus at once, forwards, backwards and rotated
        for k in range(0, len(names), 1 if THOROUGH else 5):
            work.append((m, tuple(names[k:] + names[:k])))
            work.append((m, tuple(reversed(names[k:] + names[:k]))))
    cnt = itertools.count()

    def one(w):
        m, p = w
        if chk.too_many():
            return
        d = os.path.join(chk.work, "seq", "p%d" % next(cnt))
        os.makedirs(d)
        os.symlink(src, os.path.join(d, "s"))
        rc, out, fs = outputs(chk, d, p, modes[m])
        shutil.rmtree(d)
        files = {"%s.c" % n: dict(FILES, **PPONLY)[n] for n in p}
        files.update(HEADERS)
        files["run.sh"] = "#!/bin/sh\ncd $(mktemp -d)\n${CC:-/repo/bin/cc} %s %s; md5sum *\n" % (" ".join(modes[m]), " ".join("$(dirname \"$0\")/%s.c" % n for n in p))
        key = "%s %s" % (m, " ".join(p) if len(p) < 5 else "all %s..%s" % (p[0], p[-1]))
        if rc != 0:
            chk.violation(key, "exit status %s: %s" % (rc, out[-300:].decode("latin1")), files)
            return
        eo = b"".join(alone[m, n][1] for n in p)
        if out != eo:
            chk.violation(key, "standard output differs from that of separate runs:\n%s\ninstead of\n%s" % (out.decode("latin1")[-400:], eo.decode("latin1")[-400:]), files)
        ef = {}
        for n in p:
            ef.update(alone[m, n][2])
        if set(ef) != set(fs):
            chk.violation(key, "files written: %s instead of %s" % (sorted(fs), sorted(ef)), files)
            return
        for f in ef:
            if ef[f] != fs[f]:
                a, b = ef[f].split(b"\n"), fs[f].split(b"\n")
                diff = [(x, y) for x, y in itertools.zip_longest(a, b) if x != y][:3] if not f.endswith(".o") else [(len(ef[f]), len(fs[f]))]
                chk.violation(key, "%s differs from that of a separate run: %r" % (f, diff), files)
                break
    pmap(one, work)
    chk.count(len(work), len(work), sample="%s %s" % (work[7][0], " ".join(work[7][1])))
    chk.extra["sequences"] = len(work)

    # a sequence containing an invalid file fails
    bad = {"syntax": "int f( { }\n", "undeclared": "int g(void) { return nope; }\n", "unbal": "#if 1\n", "err": "#error no\n", "init": "int x = { {1}, 2 } }\n", "noinc": "#include \"not there.h\"\n"}
    for n, t in bad.items():
        open(os.path.join(src, "bad_%s.c" % n), "w").write(t)
    work2 = [(m, n, pos) for m in ("-c", "-S", "-E") for n in bad for pos in range(3) if m != "-E" or n in ("unbal", "err", "noinc")]

    def two(w):
        m, n, pos = w
        d = os.path.join(chk.work, "seq", "q%d" % next(cnt))
        os.makedirs(d)
        os.symlink(src, os.path.join(d, "s"))
        p = ["statics", "macros"]
        p.insert(pos, "bad_" + n)
        rc, out, fs = outputs(chk, d, p, modes[m])
        shutil.rmtree(d)
        if rc != 1:
            chk.violation("invalid file among valid ones: %s %s" % (m, " ".join(p)), "exit status %s" % rc, {"bad.c": bad[n]})
    pmap(two, work2)
    chk.count(len(work2), len(work2))


def determinism(chk):
    corpus = []
    for root, _, fs in os.walk(REPO + "/tests"):
        corpus += [os.path.join(root, f) for f in fs if f.endswith(".c")]
    corpus.sort()
    corpus += sorted(os.path.join(REPO, "src", f) for f in os.listdir(REPO + "/src") if f.endswith(".c"))
    envs = [{}, {"A": "x" * 777}, {"LC_ALL": "tr_TR.UTF-8", "B": "y" * 5000, "MALLOC_PERTURB_": "165"}]
    cnt = itertools.count()

    def one(f):
        if chk.too_many():
            return
        for m in (["-S"], ["-c"], ["-E"]):
            ref = None
            for k, e in enumerate(envs):
                d = os.path.join(chk.work, "det%d" % next(cnt), "x" * (1 + 60 * k))
                os.makedirs(d)
                o = os.path.join(d, "out")
                cmd = [chk.cc, f, *m] + (["-o", o] if m != ["-E"] else []) + ["-I" + REPO + "/src", "-I" + REPO, "-I" + REPO + "/include/linux", "-D__DATE__=0", "-D__TIME__=0", '-DCONFIG_PATH="config.h"']
                rc, out = sh(cmd, 30, env=dict(os.environ, **e), cwd=d)
                r = (rc, out if m == ["-E"] else b"", open(o, "rb").read() if os.path.exists(o) else None)
                shutil.rmtree(d)
                if ref is None:
                    ref = r
                elif ref != r:
                    chk.violation("%s %s varies between runs" % (m[0], os.path.relpath(f, REPO)), "exit status %s and %s; output sizes %s, %s" % (ref[0], r[0], len(ref[2] or ref[1]), len(r[2] or r[1])))
                    break
    pmap(one, corpus)
    chk.count(len(corpus) * 9, len(corpus))
    chk.extra["reproduced_files"] = len(corpus)


# ------------------------------------------------------------------------------------ includes
class Loop(Exception):
    pass


def model(files, guards, path, st, depth=0):
    """Tokens that a file contributes. files: name -> list of included names; guards: name -> kind."""
    if depth > 12:
        raise Loop
    g = guards.get(path, "none")
    out = []
    if g in ("ifndef", "once") and path in st:
        return out
    st = st if g == "none" else st.add(path) or st
    base = 3 if g == "ifndef" else 2 if g == "once" else 1
    out += [path[0], str(base), '"%s"' % path]
    ln = base + 1
    for inc in files[path]:
        out += model(files, guards, inc, st, depth + 1)
        out += ["b", str(ln + 1), '"%s"' % path]
        ln += 2
    return out


def render(path, incs, g):
    s = {"ifndef": "#ifndef H_%s\n#define H_%s\n" % (path[0], path[0]), "once": "#pragma once\n", "none": ""}[g]
    s += path[0] + " __LINE__ __FILE__\n" + "".join('#include "%s"\nb __LINE__ __FILE__\n' % i for i in incs)
    return s + ("#endif\n" if g == "ifndef" else "")


def includes(chk):
    from mc import cpp
    work = []
    H = ["a.h", "b.h"]
    lists = [()] + [(x,) for x in H] + list(itertools.product(H, repeat=2))
    for ga, gb in itertools.product(("none", "ifndef", "once"), repeat=2):
        for la, lb in itertools.product(lists, repeat=2):
            for lm in [("a.h",), ("b.h",), ("a.h", "b.h"), ("b.h", "a.h"), ("a.h", "a.h"), ("a.h", "b.h", "a.h")]:
                work.append(({"m.c": lm, "a.h": la, "b.h": lb}, {"a.h": ga, "b.h": gb}))
    H3 = ["a.h", "b.h", "c.h"]
    subs = [()] + [(x,) for x in H3] + (list(itertools.permutations(H3, 2)) if THOROUGH else [("b.h", "c.h"), ("a.h", "c.h"), ("c.h", "a.h")])
    for g in itertools.product(("none", "ifndef", "once"), repeat=3):
        for la, lb, lc in itertools.product(subs, repeat=3):
            work.append(({"m.c": ("a.h", "b.h", "c.h"), "a.h": la, "b.h": lb, "c.h": lc}, dict(zip(H3, g))))
    if not THOROUGH:
        work = work[:4000:2] + work[4000::4]
    cnt = itertools.count()
    seen = [0, 0]

    def one(w):
        files, guards = w
        try:
            exp = model(files, guards, "m.c", set())
        except Loop:
            return
        if chk.too_many():
            return
        d = os.path.join(chk.work, "inc%d" % next(cnt))
        os.makedirs(d)
        for f, incs in files.items():
            open(os.path.join(d, f), "w").write(render(f, incs, guards.get(f, "none")))
        deps = set()

        def reach(f):
            if f not in deps:
                deps.add(f)
                for i in files[f]:
                    reach(i)
        reach("m.c")
        rc, out = sh([chk.cc, "-E", "m.c"], 10, cwd=d)
        got = [t.s for t in cpp.tokenize(out.decode("latin1"))]
        n = seen[0] = seen[0] + 1
        key = "includes %s guards %s" % ({k: v for k, v in files.items()}, guards)
        rep = dict({f: open(os.path.join(d, f)).read() for f in files}, **{"run.sh": "#!/bin/sh\ncd $(dirname \"$0\") && ${CC:-/repo/bin/cc} -E m.c\n"})
        if n % 11 == 0 or THOROUGH:
            g = subprocess.run(["gcc", "-E", "-P", "-w", "m.c"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
            if [t.s for t in cpp.tokenize(g)] != exp:
                raise CheckError("include model and gcc differ: %s\n%s\n%s" % (key, exp, g))
            seen[1] += 1
        if rc != 0 or got != exp:
            chk.violation(key, "expected %s\ngot (exit status %s) %s" % (" ".join(exp), rc, " ".join(got)), rep)
        # dependencies: the same graph with empty contents compiles
        if n % 3 == 0 or THOROUGH:
            for f, incs in files.items():
                t = render(f, incs, guards.get(f, "none"))
                open(os.path.join(d, f), "w").write("".join(l + "\n" for l in t.split("\n") if l.startswith("#")))
            rc, out = sh([chk.cc, "-c", "-MD", "m.c"], 10, cwd=d)
            try:
                t, _, l = open(os.path.join(d, "m.d")).read().partition(":")
            except OSError:
                t, l = "", ""
            if rc != 0 or t != "m.o" or set(l.split()) != deps:
                chk.violation("-MD " + key, "exit status %s, target %r, files %s, expected m.o: %s" % (rc, t, l, sorted(deps)), rep)
        shutil.rmtree(d)
    pmap(one, work)
    chk.count(seen[0], seen[0], sample="includes %s guards %s" % work[len(work) // 3])
    chk.extra.update(include_graphs=seen[0], include_graphs_checked_with_gcc=seen[1])

    # search order
    dirs = ["", "inc1/", "inc2/", "sub/"]
    n = 0
    jobs = []
    for present in itertools.chain.from_iterable(itertools.combinations(dirs, k) for k in range(0, 5)):
        for form in ('"x.h"', "<x.h>", '"sub/x.h"', '"../x.h"', "<sub/../inc1/x.h>", '"./x.h"'):
            for inclist in ((), ("inc1",), ("inc2",), ("inc1", "inc2"), ("inc2", "inc1"), ("inc1", "sub"), (".", "inc2"), ("sub",)):
                for includer in ("m.c", "sub/h.h", "inc1/y.h"):
                    jobs.append((present, form, inclist, includer))
    if not THOROUGH:
        jobs = jobs[::2]

    def search(j):
        present, form, inclist, includer = j
        if chk.too_many():
            return
        d = os.path.join(chk.work, "srch%d" % next(cnt))
        for s in dirs:
            os.makedirs(os.path.join(d, s), exist_ok=True)
        for s in present:
            open(os.path.join(d, s, "x.h"), "w").write("from %s __FILE__ __LINE__\n" % (s.strip("/") or "top"))
        inc = "#include %s\nafter __LINE__ __FILE__\n" % form
        if includer == "m.c":
            open(os.path.join(d, "m.c"), "w").write(inc)
        else:
            open(os.path.join(d, includer), "w").write(inc)
            open(os.path.join(d, "m.c"), "w").write('#include "%s"\n' % includer)
        flags = ["-I" + i for i in inclist]
        g = subprocess.run(["gcc", "-E", "-P", "-w", "m.c", *flags], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        rc, out = sh([chk.cc, "-E", "m.c", *flags], 10, cwd=d)
        norm = lambda b: [t.s for t in cpp.tokenize(re.sub(r'"(\./)+', '"', b.decode("latin1")))]
        if (g.returncode == 0) != (rc == 0) or rc not in (0, 1) or (rc == 0 and norm(out) != norm(g.stdout)):
            chk.violation("search: %s from %s, x.h in %s, -I %s" % (form, includer, present, inclist), "expected (%s) %s\ngot (%s) %s" % (g.returncode, g.stdout.decode(), rc, out.decode("latin1")[-300:]))
        shutil.rmtree(d)
    pmap(search, jobs)
    chk.count(len(jobs), len(jobs))
    chk.extra["search_orders"] = len(jobs)


# ------------------------------------------------------------------------------------ #line
LINES = {
    "#line 5": ("line", 5, None), '#line 900 "f.c"': ("line", 900, "f.c"), "# line NUM": ("line", 20, None), "#line BOTH": ("line", 30, "g.h"), "#line 07 STR": ("line", 7, "s t"),
    "#if 1\n#endif": ("dirs", 2), "#if 0\n#line 77 \"no\"\nt\n#else\n#endif": ("dirs", 5), "": ("dirs", 1), "#define Q(x) \\\n x": ("dirs", 2), "/* c\n c */": ("dirs", 2), "#undef NONE": ("dirs", 1),
    '#include "lineinc.h"': ("inc", None), "ID(__LINE__)": ("probe", None), "#pragma foo": ("skip", None),
}


def lines(chk):
    R = ppe.Runner(chk, [])
    inc = "h __LINE__\n#line 100 \"inner.h\"\nh __LINE__ __FILE__\n"
    open(os.path.join(chk.work, "lineinc.h"), "w").write(inc)
    incpath = os.path.join(chk.work, "lineinc.h")
    pre = "#line 1 \"start.c\"\n"
    alpha = [a for a in LINES if LINES[a][0] != "skip"]
    items = []
    for n in range(0, 5 if THOROUGH else 4):
        for seq in itertools.product(alpha, repeat=n):
            line, name, out, text = 1, "start.c", [], pre
            for a in seq:
                k = LINES[a]
                text += a + "\n"
                if k[0] == "line":
                    line, name = k[1], k[2] or name
                elif k[0] == "dirs":
                    line += k[1]
                elif k[0] == "inc":
                    out += ["h", "1", "h", "100", '"inner.h"']
                    line += 1
                else:
                    out += [str(line)]
                    line += 1
                text += "p __LINE__ __FILE__\n"
                out += ["p", str(line), '"%s"' % name]
                line += 1
            if n:
                items.append(("line " + " | ".join(a.replace("\n", "\\n") for a in seq), text, out))
    defs = "#define NUM 20\n#define BOTH 30 \"g.h\"\n#define STR \"s t\"\n#define ID(x) x\n"
    items = [(k, defs + t, o) for k, t, o in items]

    def cross(group):
        ref = R.gcc([c[1] for c in group])
        for i, c in enumerate(group):
            if ppe.canon(ref.get(i)) != ppe.canon(c[2]):
                raise CheckError("#line model and gcc differ: %r\n%s" % (c, ref.get(i)))
    pmap(cross, chunks(items[:: 1 if THOROUGH else 3], 200))
    R.run(items, 200)
    chk.extra["line_histories"] = len(items)
    # refused
    for t in ("#line", "#line x", "#line \"f\"", "#line 5 f", "#line 5 \"f\" 3", "#line 5 6", "#line NOT"):
        p = os.path.join(chk.work, "badline.c")
        open(p, "w").write(t + "\nx\n")
        rc, out = sh([chk.cc, "-E", p])
        if rc != 1:
            chk.violation("accepted: " + t, "exit status %s" % rc, {"input.c": t + "\n"})
        chk.count(1, 1)


# ------------------------------------------------------------------------------------ options
def options(chk):
    from mc import cpp
    d = os.path.join(chk.work, "opt")
    os.makedirs(d)
    open(os.path.join(d, "m.c"), "w").write("#ifdef A\nA_defined (A) [A+0]\n#else\nno_A\n#endif\n#if defined(A) && defined B\nboth\n#endif\nB NULLX __x86_64__ __STDC__ __STDC_HOSTED__\n#include \"q.h\"\n")
    for i in ("i1", "i2", "i 3"):
        os.makedirs(os.path.join(d, i))
        open(os.path.join(d, i, "q.h"), "w").write("from %s A\n" % i.replace(" ", ""))
    opts = [["-DA"], ["-DA=2"], ["-DA="], ["-D", "A=x y"], ["-UA"], ["-U", "A"], ["-DB=A"], ["-UB"], ["-DB=A B"], ["-Ii1"], ["-I", "i2"], ["-Ii 3"], ["-DA=B=2"], ["-U__x86_64__"], ["-D__STDC__=7"], ["-D__x86_64__=5"], ["-DNULLX=\"a b\""]]
    seqs = [s for n in range(0, 4 if THOROUGH else 3) for s in itertools.product(opts, repeat=n)]
    if not THOROUGH:
        seqs += [s for s in itertools.product(opts[:12], repeat=3)]

    def one(s):
        if chk.too_many():
            return
        env, incs, un = {"__x86_64__": "1", "__STDC__": "1", "__STDC_HOSTED__": "0"}, [], []
        for o in s:
            f, v = o[0][:2], o[0][2:] or o[1]
            if f == "-D":
                n, _, b = v.partition("=")
                env[n] = b if "=" in v else "1"
            elif f == "-U":
                un.append(v)
            else:
                incs.append(v)
        for v in un:                      # POSIX c99: -U wins whatever the order
            env.pop(v, None)
        # reference text through the model's own definitions, expanded by gcc's preprocessor
        probe = "#undef __x86_64__\n#undef __STDC__\n#undef __STDC_HOSTED__\n" + "".join("#define %s %s\n" % kv for kv in env.items())
        inc = "from %s A" % incs[0].replace(" ", "") if incs else None
        ok = inc is not None
        for where in ("before", "after"):
            args = [x for o in s for x in o]
            cmd = [chk.cc, "-E", *args, "m.c"] if where == "before" else [chk.cc, "m.c", *args, "-E"]
            rc, out = sh(cmd, 10, cwd=d)
            if rc != (0 if ok else 1):
                chk.violation("options %s (%s)" % (args, where), "exit status %s: %s" % (rc, out[-200:].decode("latin1")), {"m.c": open(os.path.join(d, "m.c")).read()})
                return
            if ok:
                g = expand(probe, inc)
                if [t.s for t in cpp.tokenize(out.decode("latin1"))] != g:
                    chk.violation("options %s (%s)" % (args, where), "expected %s\ngot %s" % (" ".join(g), out.decode("latin1")), {"m.c": open(os.path.join(d, "m.c")).read()})
                    return
    cache = {}

    def expand(probe, inc):
        k = (probe, inc)
        if k not in cache:
            t = open(os.path.join(d, "m.c")).read().replace("#include \"q.h\"", inc)
            p = subprocess.run(["gcc", "-E", "-P", "-w", "-"], input=(probe + t).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if p.returncode:
                raise CheckError("gcc refuses " + probe)
            cache[k] = [x.s for x in cpp.tokenize(p.stdout.decode())]
        return cache[k]
    pmap(one, seqs)
    chk.count(len(seqs), len(seqs), sample="options %s" % (seqs[-7],))
    chk.extra["option_sequences"] = len(seqs)
    # names of outputs and dependency files
    for cmd, files in [("-c m.c -Ii1", ["m.o"]), ("-S m.c -Ii1", ["m.s"]), ("-c m.c -Ii1 -o z.o", ["z.o"]), ("-c -MD m.c -Ii1", ["m.o", "m.d"]), ("-S -MD m.c -Ii1", ["m.s", "m.d"]), ("-c -MD m.c -Ii1 -o z.o", ["z.o", "z.d"]),
                       ("-c -MD -MF dep m.c -Ii1 -o z.o", ["z.o", "dep"]), ("-c -MD -MFdep m.c -MT tgt -Ii1", ["m.o", "dep"]), ("-c -MD -MTtgt m.c -Ii1 -o out.x.o", ["out.x.o", "out.x.d"]), ("-c ../w/m.c -Ii1", ["m.o"]), ("-c ../w/m.c -Ii1 -MD", ["m.o", "m.d"])]:
        w = os.path.join(d, "w")
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(os.path.join(w, "i1"))
        open(os.path.join(w, "m.c"), "w").write("#include <q.h>\nint x = Q;\n")
        open(os.path.join(w, "i1", "q.h"), "w").write("#define Q 3\n")
        rc, out = sh([chk.cc, *cmd.split()], cwd=w)
        got = sorted(set(os.listdir(w)) - {"m.c", "i1"})
        if rc != 0 or got != sorted(files):
            chk.violation("outputs of " + cmd, "exit status %s, files %s, expected %s" % (rc, got, files))
        else:
            dep = [f for f in files if f.endswith(".d") or f == "dep"]
            if dep:
                t = open(os.path.join(w, dep[0])).read()
                tgt = "tgt" if "tgt" in cmd else files[0]
                mc = "../w/m.c" if "../w" in cmd else "m.c"
                if t.split(":")[0] != tgt or set(t.split(":")[1].split()) != {mc, "i1/q.h"}:
                    chk.violation("dependencies of " + cmd, "%r, expected %s: %s i1/q.h" % (t, tgt, mc))
        chk.count(1, 1)


def main(chk):
    sequences(chk)
    determinism(chk)
    includes(chk)
    lines(chk)
    options(chk)
    chk.extra["exhaustive"] = True


if __name__ == "__main__":
    vlib.main(main, "C19", "exploration",
              "all ordered pairs (and triples of a subset, and rotations of the whole set) of state-carrying files in one invocation x output modes, against one process per file; repeated runs under different environments; all include graphs over 2 and 3 headers x guards, #line histories up to a length, search orders and option sequences",
              ["the reference preprocessor finds headers in the order the options say", "of -D and -U of the same name -U wins (POSIX c99), whatever their order"])
