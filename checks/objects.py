#!/usr/bin/env python3
"""C13: linkage of objects and functions, symbols, relocations. An explicit-state model of C's
linkage and (tentative) definition rules enumerates every sequence of declarations of one entity
up to a depth; every sequence is compiled and linked with a second translation unit, in both
directions and through both assemblers, and what each use denotes is compared with the model."""
import itertools, os, re, sys, tempfile, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import vlib, elf
from mc.vlib import THOROUGH, sh, GCCFLAGS, CheckError, pmap, chunks

DRV = """int printf(const char *, ...); int fflush(void *); int strcmp(const char *, const char *); int memcmp(const void *, const void *, unsigned long);
static int cur; static int nbad;
static void bad(const char *what, int i) { if (nbad++ < 4) printf("BAD %d %s %d\\n", cur, what, i); }
"""


class LCase:
    """a, b: the two translation units' parts (@@ = case number); chk: body of the driver's test;
    defs: names a must define globally; undef: names it may refer to."""
    __slots__ = ("key", "a", "b", "chk", "defs", "undef", "pre")

    def __init__(self, key, a, b, chk, defs=(), undef=(), pre=""):
        self.key, self.a, self.b, self.chk, self.defs, self.undef, self.pre = key, a, b, chk, tuple(defs), tuple(undef), pre


MODES = ("A=gcc B=gcc", "A=cc B=gcc", "A=cc-S B=gcc", "A=gcc B=cc", "A=cc B=cc")


class Linker:
    def __init__(self, chk, modes=MODES):
        self.chk, self.modes = chk, modes
        self.dir = tempfile.mkdtemp(dir=chk.work)
        self.n = 0

    def srcs(self, group):
        a = "".join(c.a.replace("@@", str(i)) + "\n" for i, c in enumerate(group))
        b = [DRV]
        for i, c in enumerate(group):
            b.append("%s\nstatic void t_%d(void) { %s }\n" % (c.b.replace("@@", str(i)), i, c.chk.replace("@@", str(i))))
        b.append("int main(void) {")
        for i in range(len(group)):
            b.append("cur = %d; nbad = 0; printf(\"@%d\\n\"); fflush(0); t_%d();\n" % (i, i, i))
        b.append("printf(\"END\\n\"); return 0; }\n")
        return a, "".join(b)

    def one(self, src, who, base):
        """compile one unit -> error or None"""
        if who == "gcc":
            rc, out = sh(["gcc", *GCCFLAGS, "-c", src, "-o", base + ".o"], 120)
            if rc:
                raise CheckError("reference rejects generated unit: %s\n%s" % (out[-1500:].decode("latin1"), open(src).read()[:3000]))
        elif who == "cc":
            rc, out = sh([self.chk.cc, "-c", src, "-o", base + ".o"], 60)
            if rc != 0:
                return "compiler exit %s: %s" % (rc, out[-300:].decode("latin1"))
        else:
            rc, out = sh([self.chk.cc, "-S", src, "-o", base + ".s"], 60)
            if rc == 0:
                rc, out = sh(["as", base + ".s", "-o", base + ".o"], 60)
            if rc != 0:
                return "compiler -S/as exit %s: %s" % (rc, out[-300:].decode("latin1"))

    def link(self, b):
        return sh(["gcc", "-no-pie", "-z", "noexecstack", b + "a.o", b + "b.o", "-o", b + ".x"], 60)

    def exe(self, x):
        return sh([x], 20)

    def run1(self, group, mode):
        """-> (error, {idx: text}, last marker)"""
        with self.chk.lock:
            self.n += 1
            b = os.path.join(self.dir, "l%d" % self.n)
        A, B = re.match(r"A=(\S+) B=(\S+)", mode).groups()
        a, d = self.srcs(group)
        open(b + "a.c", "w").write(a)
        open(b + "b.c", "w").write(d)
        bad = {}
        try:
            e = self.one(b + "a.c", A, b + "a") or self.one(b + "b.c", B, b + "b")
            if e:
                return e, bad, -1
            if A != "gcc":
                self.symbols(group, b + "a.o", bad)
            rc, out = self.link(b)
            if rc:
                return "link: " + out[-400:].decode("latin1"), bad, -1
            rc, out = self.exe(b + ".x")
            last, end = -1, False
            for l in out.decode("latin1").splitlines():
                if l.startswith("@"):
                    last = int(l[1:])
                elif l.startswith("BAD"):
                    _, i, w = l.split(None, 2)
                    bad.setdefault(int(i), w)
                elif l == "END":
                    end = True
            if rc or not end:
                return "run: exit %s" % rc, bad, last
            return None, bad, last
        finally:
            for e in ("a.c", "b.c", "a.o", "b.o", "a.s", ".x"):
                try:
                    os.unlink(b + e)
                except OSError:
                    pass

    def symbols(self, group, path, bad):
        o = elf.Obj(path)
        defd = {s[0] for s in o.syms if s[1] and s[3]}
        undef = {s[0] for s in o.syms if s[1] and not s[3] and s[0]}
        allow_d, allow_u = set(), set()
        for i, c in enumerate(group):
            for n in c.defs:
                n = n.replace("@@", str(i))
                allow_d.add(n)
                if n not in defd:
                    bad.setdefault(i, "symbol %s should be defined and visible" % n)
            allow_u |= {n.replace("@@", str(i)) for n in c.undef}
        owner = {n: i for i, c in enumerate(group) for n in re.findall(r"\b[A-Za-z_]\w*\b", c.a.replace("@@", str(i))) if n.endswith(str(i))}
        for n in sorted(defd - allow_d):
            if n in owner:
                bad.setdefault(owner[n], "symbol %s should not be visible to other units" % n)
        for n in sorted(undef - allow_u):
            if n in owner:
                bad.setdefault(owner[n], "symbol %s should not be undefined" % n)

    def check(self, group, mode):
        if self.chk.too_many():
            return
        err, bad, last = self.run1(group, mode)
        if mode == MODES[0]:
            if err and len(group) > 1 and os.environ.get("VERIF_DEBUG"):
                for c in group:
                    e2 = self.run1([c], mode)
                    if e2[0]:
                        print("DISAGREE", c.key, e2[0][-100:])
            if err or bad:
                raise CheckError("reference disagrees with the model: %s %s" % (err, [(group[i].key, t) for i, t in bad.items()][:5]))
            return
        for i, t in sorted(bad.items()):
            self.report(group[i], mode, t)
        if not err:
            return
        if len(group) == 1:
            self.report(group[0], mode, err)
            return
        nv = len(self.chk.violations) + len(self.chk.known_hit)
        if err.startswith("run") and last >= 0:
            self.check([group[last]], mode)
            if last + 1 < len(group):
                self.check(group[last + 1:], mode)
        else:
            h = len(group) // 2
            self.check(group[:h], mode)
            self.check(group[h:], mode)
        if len(self.chk.violations) + len(self.chk.known_hit) == nv:
            self.report(group[0], mode, err + " [only combined with others]", group)

    def report(self, c, mode, text, group=None):
        a, b = self.srcs(group or [c])
        self.chk.violation("%s [%s]" % (c.key, mode), text, {"a.c": a, "b.c": b, "run.sh":
            "#!/bin/sh\nD=$(dirname \"$0\")\nCC=${CC:-/repo/bin/cc}\n# %s\n$CC -c $D/a.c -o /tmp/a.o && gcc -w -O0 -c $D/b.c -o /tmp/b.o && gcc -no-pie /tmp/a.o /tmp/b.o -o /tmp/ab.x && /tmp/ab.x\n" % mode})

    def run(self, cases, per=150):
        jobs = [(g, m) for m in self.modes for g in chunks(cases, per)]
        pmap(lambda j: self.check(*j), jobs)
        self.chk.count(len(cases) * (len(self.modes) - 1), len(cases))


# ---------------------------------------------------------------- the model of linkage
class Invalid(Exception):
    pass


class St:
    """link: None, 'ext', 'int'; d: '', 'tent', 'def'; decl: visible at file scope;
    complete: the type is complete; val: list of initial values"""
    __slots__ = ("link", "d", "decl", "complete", "val", "uses", "ext_inline")

    def __init__(self):
        self.link, self.d, self.decl, self.complete, self.val, self.uses, self.ext_inline = None, "", False, False, None, (), None

    def copy(self):
        s = St()
        for k in St.__slots__:
            setattr(s, k, getattr(self, k))
        return s

    def key(self):
        return (self.link, self.d, self.decl, self.complete, self.val is not None, self.ext_inline)


def obj_step(s, ev, n):
    """ev = (storage, kind): storage '', extern, static; kind: decl, init, and the block forms"""
    sto, kind, complete = ev
    s = s.copy()
    if kind == "local":      # an unrelated static object of the same name in a function
        return s
    if kind in ("block", "shadow", "param"):
        # a declaration with extern in a block: the linkage of the visible declaration, if it has one
        if kind == "block" and s.decl:
            pass
        else:
            if s.link == "int":
                raise Invalid
            s.link = "ext"
        return s
    if sto == "static":
        if s.link == "ext":
            raise Invalid
        s.link = "int"
    elif sto == "extern":
        if s.link is None:
            s.link = "ext"
    else:
        if s.link == "int":
            raise Invalid
        s.link = "ext"
    s.decl = True
    s.complete = s.complete or complete
    if kind == "init":
        if s.d == "def":
            raise Invalid
        s.d, s.val, s.complete = "def", n, True
    elif sto != "extern":
        if s.d == "":
            s.d = "tent"
        if s.link == "int" and not s.complete:
            raise Invalid       # 6.9.2p3
    return s


def objects(family, depth, stats):
    """All declaration sequences of a family -> cases. family: dict of type texts."""
    T = family
    evs = [(s, "decl", c) for s in ("", "extern", "static") for c in T["decls"]] + \
          [(s, "init", c) for s in ("", "extern", "static") for c in T["inits"]] + \
          [("", "block", c) for c in T["decls"][:1]] + [("", "shadow", T["decls"][0]), ("", "local", T["decls"][-1])]
    out, seen = [], set()

    def walk(s, seq):
        if seq:
            finish(s, seq)
        if len(seq) == depth:
            return
        for ev in evs:
            stats["transitions"] += 1
            try:
                t = obj_step(s, (ev[0], ev[1], "[]" not in ev[2]), len(seq))
            except Invalid:
                continue
            seen.add(t.key())
            walk(t, seq + [ev])

    def finish(s, seq):
        a, b, c = [T.get("glob", "")], [], []
        vis, comp = False, False
        nl = 0
        for i, (sto, kind, decl) in enumerate(seq):
            D = decl.replace("X", "x@@")
            pre = T["spec"]
            if kind == "decl":
                a.append("%s %s %s;" % (sto, pre, D))
                vis, comp = True, comp or "[]" not in decl
            elif kind == "init":
                a.append("%s %s %s = %s;" % (sto, pre, D, T["val"] % ((i + 1,) * T["val"].count("%d"))))
                vis = comp = True
            if kind in ("decl", "init"):
                a.append("void *u@@_%d(void) { return (void *)&x@@; }" % i)
                if comp:
                    a.append("unsigned long s@@_%d(void) { return sizeof x@@; }" % i)
            elif kind == "block":
                a.append("void *u@@_%d(void) { extern %s %s; return (void *)&x@@; }" % (i, pre, D))
            elif kind == "shadow":
                a.append("void *u@@_%d(void) { long x@@ = 5; { extern %s %s; return (void *)&x@@; } }" % (i, pre, D))
            elif kind == "local":
                a.append("void *u@@_%d(void) { static %s %s = %s; return (void *)&x@@; }" % (i, pre, D, T["val"] % ((50 + i,) * T["val"].count("%d"))))
            b.append("void *u@@_%d(void);" % i)
            if kind in ("decl", "init") and comp:
                b.append("unsigned long s@@_%d(void);" % i)
                c.append("if (s@@_%d() != %d) bad(\"sizeof\", %d);" % (i, T["size"], i))
        # the other unit
        want = T["val"] % ((s.val + 1,) * T["val"].count("%d")) if s.val is not None else T["zero"]
        size = T["size"]
        if s.d == "tent" and not s.complete:
            size = T["size1"]
        full = T["full"]
        defs = ["u@@_%d" % i for i in range(len(seq))] + ["s@@_%d" % i for i in range(len(seq)) if "s@@_%d(" % i in " ".join(a)]
        undef = []
        b.insert(0, T.get("bglob", T.get("glob", "")))
        if s.link == "ext" and s.d:
            b.append("extern %s %s;" % (T["spec"], full.replace("X", "x@@")))
            defs.append("x@@")
        else:
            if s.link == "ext":
                undef.append("x@@")
                want = T["val"] % ((90,) * T["val"].count("%d"))
            b.append("%s %s = %s;" % (T["spec"].replace("_Alignas(64)", "_Alignas(64)"), full.replace("X", "x@@"), T["val"] % ((90,) * T["val"].count("%d"))))
        first = None
        for i, (sto, kind, decl) in enumerate(seq):
            if kind == "local":
                c.append("{ static %s %s = %s; if (memcmp(u@@_%d(), &y, sizeof y)) bad(\"contents of the local static object\", %d); if (u@@_%d() == (void *)&x@@) bad(\"local static object is the global\", %d); }" % (
                    T["spec"].replace("extern", ""), full.replace("X", "y"), T["val"] % ((50 + i,) * T["val"].count("%d")), i, i, i, i))
                for j, e in enumerate(seq):
                    if j != i:
                        c.append("if (u@@_%d() == u@@_%d()) bad(\"local static object is another\", %d);" % (i, j, i))
                continue
            if s.link == "ext":
                c.append("if (u@@_%d() != (void *)&x@@) bad(\"wrong object\", %d);" % (i, i))
            else:
                c.append("if (u@@_%d() == (void *)&x@@) bad(\"internal linkage lost\", %d);" % (i, i))
                if first is not None:
                    c.append("if (u@@_%d() != u@@_%d()) bad(\"not the same object\", %d);" % (i, first, i))
            if first is None:
                first = i
        if first is not None:
            c.append("{ static %s %s = %s; if (memcmp(u@@_%d(), &y, %d)) bad(\"contents\", 0); }" % (T["spec"], full.replace("X", "y"), want, first, size))
            c.append("if ((unsigned long)u@@_%d() %% %d) bad(\"alignment\", 0);" % (first, T["align"]))
            # overlap with the objects next to it shows when it is filled
            c.append("{ unsigned char *p = u@@_%d(); int k; %s for (k = 0; k < %d; k++) p[k] = 0x5a; }" % (first, "" if "const" not in T["spec"] else "return;", size))
        key = T["name"] + ": " + " ".join({"": "%s", "extern": "extern %s", "static": "static %s"}[sto] % {"decl": d, "init": d + "=v", "block": "{extern %s}" % d, "shadow": "{auto{extern %s}}" % d, "local": "{static %s=v}" % d}[kind] + ";" for sto, kind, d in seq)
        out.append(LCase(key, "\n".join(a), "\n".join(b), "\n".join(c), defs, undef))

    walk(St(), [])
    stats["states"] += len(seen) + 1
    return out


FAMS = [
    dict(name="int", spec="int", decls=["X"], inits=["X"], full="X", val="%d", zero="0", size=4, size1=4, align=4, depth=(4, 5)),
    dict(name="array", spec="int", decls=["X[]", "X[3]"], inits=["X[]", "X[3]"], full="X[3]", val="{%d,%d,7}", zero="{0}", size=12, size1=4, align=4, depth=(3, 4)),
    dict(name="char array", spec="char", decls=["X[5]"], inits=["X[5]"], full="X[5]", val="{%d}", zero="{0}", size=5, size1=5, align=1, depth=(3, 4)),
    dict(name="struct", spec="struct s@@", glob="struct s@@ { char c; long l; short h; };", decls=["X"], inits=["X"], full="X", val="{%d,%d,%d}", zero="{0}", size=24, size1=24, align=8, depth=(3, 4)),
    dict(name="aligned", spec="_Alignas(64) int", decls=["X"], inits=["X"], full="X", val="%d", zero="0", size=4, size1=4, align=64, depth=(3, 4)),
    dict(name="const", spec="const int", decls=["X"], inits=["X"], full="X", val="%d", zero="0", size=4, size1=4, align=4, depth=(3, 4)),
    dict(name="pointer", spec="int *", glob="", decls=["X"], inits=["X"], full="X", val="(int *)%d", zero="0", size=8, size1=8, align=8, depth=(3, 4)),
    dict(name="double", spec="volatile double", decls=["X"], inits=["X"], full="X", val="%d.5", zero="0", size=8, size1=8, align=8, depth=(2, 3)),
    dict(name="union array", spec="union v@@", glob="union v@@ { char c[3]; short s; };", decls=["X[]", "X[2]"], inits=["X[2]"], full="X[2]", val="{{{%d}},{{%d}}}", zero="{0}", size=8, size1=4, align=2, depth=(3, 3)),
    dict(name="2d array", spec="short", decls=["X[][2]", "X[2][2]"], inits=["X[][2]"], full="X[2][2]", val="{{%d,2},{3,%d}}", zero="{0}", size=8, size1=4, align=2, depth=(3, 3)),
]


# ---------------------------------------------------------------- functions
def fun_step(s, ev, n):
    spec, kind = ev
    s = s.copy()
    if kind == "local":
        return s
    if kind in ("block", "blockx", "shadow"):
        if kind != "shadow" and s.decl:
            pass
        else:
            if s.link == "int":
                raise Invalid
            s.link = "ext"
        return s
    sto = "static" if "static" in spec else "extern" if "extern" in spec else ""
    if sto == "static":
        if s.link == "ext":
            raise Invalid
        s.link = "int"
    elif s.link is None:
        s.link = "ext"
    s.decl = True
    # an inline definition: every file scope declaration has inline and none has extern
    inl = "inline" in spec and sto != "extern"
    s.ext_inline = inl and s.ext_inline in (None, True)
    if "inline" in spec:
        s.complete = True        # "declared inline somewhere"
    if kind == "def":
        if s.d == "def":
            raise Invalid
        s.d, s.val = "def", n
    return s


def functions(depth, stats):
    specs = ["", "extern", "static", "inline", "extern inline", "static inline"]
    evs = [(s, k) for k in ("decl", "def") for s in specs] + [("static", "old"), ("", "old"), ("", "block"), ("", "blockx"), ("", "shadow")]
    out, seen = [], set()

    def walk(s, seq):
        if seq:
            finish(s, seq)
        if len(seq) == depth:
            return
        for ev in evs:
            stats["transitions"] += 1
            try:
                t = fun_step(s, ev, len(seq))
            except Invalid:
                continue
            seen.add(t.key())
            walk(t, seq + [ev])

    def finish(s, seq):
        if s.link == "int" and s.d != "def":
            return               # used, so it must be defined
        if s.complete and s.d != "def" and s.link == "ext":
            return               # 6.7.4p7
        inline_def = s.link == "ext" and s.d == "def" and s.ext_inline
        kinds = [k for _, k in seq]
        if any(e[1] == "def" and "inline" in e[0] and "static" not in e[0] and {"block", "blockx", "shadow"} & set(kinds[:i]) for i, e in enumerate(seq)):
            return               # gcc takes the block scope declaration into account, C does not: not judged
        a, b, c = [], [], []
        for i, (spec, kind) in enumerate(seq):
            use = "int (*u@@_%d(void))(void) { %%s return f@@; }\nint c@@_%d(void) { %%s return f@@(); }" % (i, i)
            if kind == "decl":
                a.append("%s int f@@(void);" % spec)
            elif kind == "old":
                a.append("%s int f@@();" % spec)
            elif kind == "def":
                a.append("%s int f@@(void) { return %d; }" % (spec, i + 1))
            d = {"block": "int f@@(void);", "blockx": "extern int f@@(void);", "shadow": "long f@@ = 3; { extern int f@@(void);"}.get(kind, "")
            if inline_def and kind in ("block", "blockx", "shadow") and False:
                d = ""
            a.append(use % (d, d) if kind != "shadow" else "int (*u@@_%d(void))(void) { %s return f@@; } }\nint c@@_%d(void) { %s return f@@(); } }" % (i, d, i, d))
            b.append("int (*u@@_%d(void))(void); int c@@_%d(void);" % (i, i))
        defs = [x % i for i in range(len(seq)) for x in ("u@@_%d", "c@@_%d")]
        undef = []
        if s.link == "ext" and s.d == "def" and not inline_def:
            b.append("int f@@(void);")
            defs.append("f@@")
            want, alt = s.val + 1, None
        else:
            b.append("int f@@(void) { return 90; }")
            if s.link == "ext":
                undef.append("f@@")
            want, alt = (90, None) if s.link == "ext" and s.d != "def" else (s.val + 1, 90 if inline_def else None)
        for i in range(len(seq)):
            if s.link == "ext":
                c.append("if (u@@_%d() != f@@) bad(\"wrong function\", %d);" % (i, i))
            else:
                c.append("if (u@@_%d() == f@@) bad(\"internal linkage lost\", %d);" % (i, i))
                c.append("if (u@@_%d() != u@@_0()) bad(\"not the same function\", %d);" % (i, i))
            c.append("{ int r = c@@_%d(); if (r != %d%s) bad(\"call\", r); }" % (i, want, " && r != %d" % alt if alt else ""))
        key = "function: " + " ".join({"decl": "%s f;", "old": "%s f();", "def": "%s f{}", "block": "{f;}", "blockx": "{extern f;}", "shadow": "{auto f{extern f;}}"}[k] % (sp,) if "%s" in {"decl": "%s", "old": "%s", "def": "%s"}.get(k, "") else {"block": "{f;}", "blockx": "{extern f;}", "shadow": "{auto f{extern f;}}"}[k] for sp, k in seq)
        out.append(LCase(key, "\n".join(a), "\n".join(b), "\n".join(c), defs, undef))

    walk(St(), [])
    stats["states"] += len(seen) + 1
    return out


# ---------------------------------------------------------------- relocations and addends
def relocations():
    """Every kind of referent x linkage x addend, referred to from data and from code."""
    out = []
    offs = [0, 1, 3, 4, 7, 8, 15, 16, 127, 128, 129, 255, 256, 4095, 4096, 65535, 65536, 99999]
    offs += [-o for o in offs if o] + [1 << 20, -(1 << 20)]
    kinds = {
        "ext": ("extern char x@@[];", "char x@@[100000];"),
        "own": ("char x@@[100000];", "extern char x@@[];"),
        "owni": ("char x@@[100000] = { 1 };", "extern char x@@[];"),
        "static": ("static char x@@[100000];\nchar *base@@(void) { return x@@; }", "char *base@@(void);\n#define x@@ base@@()"),
        "statici": ("static char x@@[100000] = { 1 };\nchar *base@@(void) { return x@@; }", "char *base@@(void);\n#define x@@ base@@()"),
        "later": ("extern char x@@[100000];", "extern char x@@[];"),
    }
    for kn, (a, b) in kinds.items():
        for o in offs:
            tail = "\nchar x@@[100000];" if kn == "later" else ""
            base = " + (%d)" % o
            A = a + "\nchar *p@@ = x@@%s; char *q@@[3] = { 0, x@@%s, &x@@[%d] }; struct { char c; char *p; } s@@ = { 1, x@@%s };\n" % (base, base, o, base)
            A += "char *f@@(void) { return x@@%s; }\nchar *g@@(void) { static char *r = x@@%s; return r; }\n" % (base, base)
            if 0 <= o < 100000:
                A += "void w@@(void) { x@@[%d] = 0x77; }\nint r@@(void) { return x@@[%d]; }\n" % (o, o)
            A += tail
            B = b + "\nextern char *p@@, *q@@[3]; extern struct { char c; char *p; } s@@; char *f@@(void), *g@@(void);"
            c = "char *e = (char *)((unsigned long)x@@ + (%d)); if (p@@ != e) bad(\"pointer\", %d); if (q@@[1] != e || q@@[2] != e || q@@[0]) bad(\"array of pointers\", %d); if (s@@.p != e || s@@.c != 1) bad(\"member\", %d); if (f@@() != e) bad(\"code\", %d); if (g@@() != e) bad(\"static local\", %d);" % ((o,) * 6)
            defs = ["p@@", "q@@", "s@@", "f@@", "g@@"]
            if 0 <= o < 100000:
                B += " void w@@(void); int r@@(void);"
                c += " w@@(); if (e[0] != 0x77) bad(\"store\", %d); e[0] = 5; if (r@@() != 5) bad(\"load\", %d);" % (o, o)
                defs += ["w@@", "r@@"]
            defs += ["x@@"] if kn in ("own", "owni", "later") else ["base@@"] if kn.startswith("static") else []
            out.append(LCase("address %s%+d" % (kn, o), A, B, c, defs, ["x@@"] if kn == "ext" else []))
    # typed addresses: members, elements, with scaling, of every referent
    exprs = ["&x@@.a", "&x@@.b[2]", "x@@.b", "x@@.b + 3", "&x@@.n.q", "&x@@.n.r[1][2]", "x@@.n.r[2]", "&x@@.n", "&(&x@@)->z", "&x@@ + 1", "&x@@ - 1", "&1[x@@.b]",
             "(char *)&x@@.z - 3", "&((struct t@@ *)&x@@)[2].z", "(short *)((char *)x@@.b + 5)", "&*&x@@.b[3]", "1 ? &x@@.a : 0", "(void *)(char *)&x@@.z", "&(x@@.n.r[1])[-1]", "-2 + x@@.b", "&(*(&x@@)).n.q"]
    ty = "struct t@@ { char a; short b[5]; struct { long q; int r[3][4]; } n; double z; };"
    for kn, a, b in (("ext", "extern struct t@@ x@@;", "struct t@@ x@@;"), ("own", "struct t@@ x@@;", "extern struct t@@ x@@;"),
                     ("static", "static struct t@@ x@@;\nvoid *base@@(void) { return &x@@; }", "void *base@@(void);\n#define x@@ (*(struct t@@ *)base@@())")):
        for e in exprs:
            out.append(LCase("typed %s %s" % (kn, e), "%s\n%s\nvoid *p@@ = (void *)(%s); void *f@@(void) { return (void *)(%s); }\nvoid *g@@(void) { static void *s[2] = { 0, (void *)(%s) }; return s[1]; }" % (ty, a, e, e, e),
                             "%s\n%s\nextern void *p@@; void *f@@(void), *g@@(void);" % (ty, b),
                             "void *e = (void *)(%s); if (p@@ != e) bad(\"data\", 0); if (f@@() != e) bad(\"code\", 0); if (g@@() != e) bad(\"static local\", 0);" % e,
                             ["p@@", "f@@", "g@@"] + (["x@@"] if kn == "own" else ["base@@"] if kn == "static" else []), ["x@@"] if kn == "ext" else []))
    # functions as data
    for kn, a, b, u in (("ext", "int k@@(int);", "int k@@(int v) { return v + 7; }", ["k@@"]), ("own", "int k@@(int v) { return v + 7; }", "int k@@(int);", []),
                        ("later", "int k@@(int);", "int k@@(int);", []), ("static", "static int k@@(int v) { return v + 7; }\nint (*base@@(void))(int) { return k@@; }", "int (*base@@(void))(int);\n#define k@@ base@@()", []),
                        ("static later", "static int k@@(int);\nint (*base@@(void))(int) { return k@@; }", "int (*base@@(void))(int);\n#define k@@ base@@()", [])):
        A = a + """
int (*p@@)(int) = k@@, (*q@@[3])(int) = { &k@@, 0, *k@@ };
struct { int n; int (*f)(int); } s@@ = { 2, k@@ };
int c@@(int v) { return k@@(v) + p@@(v) + (*q@@[2])(v) + s@@.f(v) + (***k@@)(v); }
int (*r@@(void))(int) { return &k@@; }
"""
        if "later" in kn:
            A += "int k@@(int v) { return v + 7; }\n"
        out.append(LCase("function pointers " + kn, A, b + "\nextern int (*p@@)(int), (*q@@[3])(int); extern struct { int n; int (*f)(int); } s@@; int c@@(int); int (*r@@(void))(int);",
                         "if (p@@ != k@@ || q@@[0] != k@@ || q@@[2] != k@@ || q@@[1] || s@@.f != k@@ || s@@.n != 2 || r@@() != k@@) bad(\"address\", 0); if (c@@(3) != 50) bad(\"call\", c@@(3));",
                         ["p@@", "q@@", "s@@", "c@@", "r@@"] + (["k@@"] if kn in ("own", "later") else []) + (["base@@"] if "static" in kn else []), u))
    # mutual references between data of both units, and strings
    out.append(LCase("mutual data", "struct n@@ { struct n@@ *o; const char *s; }; extern struct n@@ b@@[2]; struct n@@ a@@[2] = { { &b@@[1], \"one\" }, { b@@, \"two\" + 1 } };",
                     "struct n@@ { struct n@@ *o; const char *s; }; extern struct n@@ a@@[2]; struct n@@ b@@[2] = { { &a@@[1], \"three\" }, { a@@, \"four\" + 2 } };",
                     "if (a@@[0].o != b@@ + 1 || a@@[1].o != b@@ || b@@[0].o != a@@ + 1 || strcmp(a@@[0].s, \"one\") || strcmp(a@@[1].s, \"wo\") || strcmp(b@@[1].s, \"ur\")) bad(\"contents\", 0);", ["a@@"], ["b@@"]))
    for k, s in enumerate(["", "a", "%%", "\\n\\0x", "\\377\\1", "0123456789" * 30, "\\\"", "\\\\0", "\\0001", "q\\0", "?\\?/", "\\t\\v\\a"]):
        for w, wt in (("", "char"), ("L", "int"), ("u", "unsigned short"), ("U", "unsigned")):
            out.append(LCase("string %s\"%s\"" % (w, s[:20]), "const %s *p@@ = %s\"%s\"; %s q@@[] = %s\"%s\"; const %s *f@@(void) { return %s\"%s\"; } unsigned long n@@ = sizeof %s\"%s\";" % (wt, w, s, wt, w, s, wt, w, s, w, s),
                             "extern const %s *p@@; extern %s q@@[]; const %s *f@@(void); extern unsigned long n@@;" % (wt, wt, wt),
                             "static const %s e[] = %s\"%s\"; if (n@@ != sizeof e || memcmp(p@@, e, sizeof e) || memcmp(q@@, e, sizeof e) || memcmp(f@@(), e, sizeof e)) bad(\"string\", 0); if ((unsigned long)p@@ %% sizeof(%s)) bad(\"alignment\", 0);" % (wt, w, s, wt),
                             ["p@@", "q@@", "f@@", "n@@"]))
    return out


def names():
    """Identifiers of every length near buffer sizes, and with every character class."""
    out = []
    ls = sorted(set(list(range(1, 40)) + [k + d for k in (48, 56, 60, 64, 72, 100, 127, 128, 200, 255, 256, 511, 512, 1000, 1023, 1024, 4095, 4096) for d in (-2, -1, 0, 1, 2)]))
    for n in ls:
        nm = ("nm@@_" + "abcdefghijklmnopqrstuvwxyz_" * 200)[:max(n, 7)] + "_@@"
        lo = nm + "L"
        out.append(LCase("identifiers of length %d" % n, "int v%s = 3; static int s%s = 4; int f%s(void) { static int %s = 5; { static int %s = 6; s%s++; %s++; return %s + s%s; } }" % (nm, nm, nm, lo, lo, nm, lo, lo, nm),
                         "extern int v%s; int f%s(void);" % (nm, nm), "if (v%s != 3 || f%s() != 12 || f%s() != 14) bad(\"value\", 0);" % (nm, nm, nm), ["v" + nm, "f" + nm]))
    # names only the last character of which differs
    for n in (30, 31, 32, 62, 63, 64, 65, 127, 128, 254, 255, 256):
        p = ("pre@@" + "x" * 300)[:n]
        out.append(LCase("last character at %d" % n, "int %sa_@@ = 1, %sb_@@ = 2; int f%sa_@@(void) { return %sb_@@; } int f%sb_@@(void) { return %sa_@@; }" % ((p,) * 6),
                         "extern int %sa_@@, %sb_@@; int f%sa_@@(void), f%sb_@@(void);" % ((p,) * 4),
                         "if (%sa_@@ != 1 || %sb_@@ != 2 || f%sa_@@() != 2 || f%sb_@@() != 1) bad(\"value\", 0);" % ((p,) * 4), [p + "a_@@", p + "b_@@", "f" + p + "a_@@", "f" + p + "b_@@"]))
    for nm in ("Ls0_", "L1_", "LVAR0x_", "_L", "__x", "_start_", "rax_", "text_", "dot", "A0", "rip_", "main_", "printf_"):
        out.append(LCase("identifier " + nm, "int %s@@ = 3; static const char *s%s@@ = \"abc\"; int f%s@@(void) { return %s@@ + s%s@@[1]; }" % ((nm,) * 5), "extern int %s@@; int f%s@@(void);" % (nm, nm),
                         "if (%s@@ != 3 || f%s@@() != 101) bad(\"value\", 0);" % (nm, nm), [nm + "@@", "f" + nm + "@@"]))
    return out


def exact_names():
    """Identifiers that mean something to assemblers; whole programs of their own."""
    return ["rax", "eax", "al", "xmm0", "rip", "st", "byte", "ptr", "offset", "text", "data", "bss", "Ls0", "L2", "LVAR0x", "ret", "mov", "movq", "call", "jmp", "global", "section", "quad", "string", "_", "__", "a1", "b2f", "f", "b", "dup", "eq", "ne", "lt", "gt", "le", "ge", "and", "or", "xor", "not", "mod", "shl", "shr", "flat", "near", "far", "short_", "dword", "qword", "rel", "abs", "seg", "_GLOBAL_OFFSET_TABLE", "end", "x64", "size", "type", "cs", "ds", "es", "fs", "gs", "ss", "cr0", "r8", "r8d", "xmmword", "tbyte"]


def scaled(chk, lk):
    """Many symbols, relocations, strings and static objects in one unit."""
    n = 0
    for count in (1, 2, 3, 100, 255, 256, 257, 1000) + ((4000, 20000) if THOROUGH else (3000,)):
        for kind, A, B, C in (
                ("functions", "int f_%d(void) { return %d; }", "int f_%d(void);", "if (f_%d() != %d) bad(\"function\", %d);"),
                ("static functions", "static int g_%d(void) { return %d; }\nint f_%d(void) { return g_%d(); }", "int f_%d(void);", "if (f_%d() != %d) bad(\"function\", %d);"),
                ("objects", "int v_%d = %d; ", "extern int v_%d;", "if (v_%d != %d) bad(\"object\", %d);"),
                ("tentative", "char v_%d[%d %% 7 + 1];", "extern char v_%d[];", "if (v_%d[%d %% 7]++ || v_%d[0] != 1 - (v_%d[0] == 0)) bad(\"object\", %d);"),
                ("external", "extern int v_%d; int *p_%d = &v_%d; int r_%d(void) { return v_%d; }", "int v_%d = %d, r_%d(void); extern int *p_%d;", "if (p_%d != &v_%d || r_%d() != %d) bad(\"reference\", %d);"),
                ("static locals", "int f_%d(void) { static int x = %d; return x++; }", "int f_%d(void);", "if (f_%d() != %d || f_%d() != %d + 1) bad(\"static local\", %d);"),
                ("strings", "const char *s_%d = \"str%d\";", "extern const char *s_%d;", "{ char b[20]; extern int sprintf(char *, const char *, ...); sprintf(b, \"str%%d\", %d); if (strcmp(s_%d, b)) bad(\"string\", %d); }")):
            fill = lambda t, i: t.replace("%%", "\0").replace("%d", str(i)).replace("\0", "%")
            a = "\n".join(fill(A, i) for i in range(count))
            b = "\n".join(fill(B, i) for i in range(count))
            c = "\n".join(fill(C.replace("%%d", "%%D"), i).replace("%D", "%d") for i in range(count))
            lc = LCase("%d %s" % (count, kind), a, b, c)
            lc.defs = ()
            yield lc


def main(chk):
    stats = {"states": 0, "transitions": 0}
    lk = Linker(chk)
    cases = []
    for f in FAMS:
        cases += objects(f, f["depth"][1 if THOROUGH else 0], stats)
    nobj = len(cases)
    fc = functions(4 if THOROUGH else 3, stats)
    cases += fc
    chk.traces = len(cases)
    lk.run(cases, 250)
    for c in cases[::len(cases) // 4]:
        chk.count(0, sample={"case": c.key, "unit": c.a})
    r = relocations() + names()
    lk.run(r, 100)
    # every count is a program of its own
    big = list(scaled(chk, lk))
    class Big(Linker):
        def symbols(self, group, path, bad):
            pass
    bl = Big(chk, ("A=gcc B=gcc", "A=cc B=gcc", "A=cc B=cc") if not THOROUGH else MODES)
    bl.run(big, 1)
    ex = [LCase("exact name " + nm, "int %s = 3; int get(void) { return %s + *&%s; } int *adr = &%s;" % ((nm,) * 4), "extern int %s, *adr; int get(void);" % nm, "if (%s != 3 || get() != 6 || adr != &%s) bad(\"value\", 0);" % (nm, nm)) for nm in exact_names()]
    ex += [LCase("exact function name " + nm, "int %s(void) { return 3; } int get(void) { return %s(); }" % (nm, nm), "int %s(void), get(void);" % nm, "if (%s() + get() != 6) bad(\"value\", 0);" % nm) for nm in exact_names()]
    bl = Big(chk, ("A=cc B=gcc",))
    bl.run(ex, 1)
    chk.states, chk.transitions = stats["states"], stats["transitions"]
    chk.extra.update(declaration_sequences=nobj + len(fc), relocation_and_name_cases=len(r), scaled_units=len(big), modes=list(MODES[1:]))


if __name__ == "__main__":
    vlib.main(main, "C13", "model_checking",
              rule="every declaration sequence of an object or function up to the stated depth that the linkage model accepts, each compiled by either "
                   "compiler, with -c and -S, and linked with a second unit compiled by either; what every use denotes, the contents, size, alignment "
                   "and symbol visibility are compared with the model; all referents x addends x reference kinds; all identifier lengths near powers of two; many symbols",
              assumptions=["the linkage model agrees with gcc on every sequence (checked in every run: gcc + gcc must satisfy the model)"])
