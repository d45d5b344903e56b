#!/usr/bin/env python3
"""C16: conditional inclusion. An explicit-state model of the conditional stack; every directive
sequence up to the stated length is explored and every path replayed through the real
preprocessor, and #if expressions are evaluated by a 64-bit model."""
import itertools, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import vlib, cpp, ppe
from mc.vlib import THOROUGH


class Reject(Exception):
    pass


class State:
    """stack entries: [kind of current position] 0 no group taken yet, 1 in the taken group,
    -1 a group was taken / the whole section is skipped; plus whether #else was seen."""
    __slots__ = ("stack", "A", "out")

    def __init__(self, stack=(), A=None, out=()):
        self.stack, self.A, self.out = stack, A, out

    def live(self):
        return all(s == 1 for s, _ in self.stack)

    def step(self, line, n):
        st, A, out = self.stack, self.A, self.out
        w = line.split(None, 1) if line.startswith("#") else [line]
        d = w[0]
        if d in ("#if", "#ifdef", "#ifndef"):
            if self.live():
                st = st + ((1 if self.ev(line) else 0, False),)
            else:
                st = st + ((-1, False),)
        elif d in ("#elif", "#elifdef", "#elifndef"):
            if not st or st[-1][1]:
                raise Reject
            s = st[-1][0]
            if s == 0 and all(x == 1 for x, _ in st[:-1]):
                s = 1 if self.ev(line) else 0
            else:
                s = -1
            st = st[:-1] + ((s, False),)
        elif d == "#else":
            if not st or st[-1][1]:
                raise Reject
            s = st[-1][0]
            st = st[:-1] + ((1 if s == 0 else -1, True),)
        elif d == "#endif":
            if not st:
                raise Reject
            st = st[:-1]
        elif not self.live():
            pass
        elif d == "#define":
            if len(w) == 1:
                raise Reject
            A = w[1].split()[1]
        elif d == "#undef":
            A = None
        elif d == "#":
            if len(w) > 1:
                raise Reject
        elif d == "t":
            out = out + ("t%d" % n,)
        elif d == "A":
            out = out + (A or "A",)
        else:
            raise Reject
        return State(st, A, out)

    def ev(self, line):
        """Conditions of the alphabets."""
        c = line.split(None, 1)
        if c[0] in ("#ifdef", "#elifdef", "#ifndef", "#elifndef"):
            if len(c) < 2:
                raise Reject
            return (self.A is not None) == (not c[0].endswith("ndef"))
        e = c[1] if len(c) > 1 else ""
        a = int(self.A or 0)
        try:
            return {"1": 1, "0": 0, "A": a, "A==2": a == 2, "defined A": self.A is not None,
                    "!defined(A)": self.A is None, "defined(A)&&A==1": self.A is not None and a == 1,
                    "defined A-1": (self.A is not None) - 1}[e]
        except KeyError:
            raise Reject


def explore(alpha, depth, valid, invalid, stats, min_text=True):
    """All paths; valid: complete sequences, invalid: minimal rejected ones (and unclosed ones)."""
    todo = [((), State())]
    while todo:
        path, st = todo.pop()
        stats["states"] += 1
        if path:
            if st.stack:
                invalid.append((path, "unterminated"))
            else:
                valid.append((path, st))
        if len(path) == depth:
            continue
        for l in alpha:
            # prune: two equal text lines in a row add nothing
            if path and l == "t" and path[-1] == "t":
                continue
            # a sequence that cannot be closed any more is explored only as an invalid one
            stats["transitions"] += 1
            try:
                n = st.step(l, len(path))
            except Reject:
                invalid.append((path + (l,), "rejected"))
                continue
            if len(n.stack) > depth - len(path) - 1:
                if len(path) < 3:
                    invalid.append((path + (l,), "unterminated"))
                continue
            todo.append((path + (l,), n))


def text(path):
    return "\n".join("t%d" % i if l == "t" else l for i, l in enumerate(path))


# ------------------------------------------------------------------------------- expressions
M64 = (1 << 64) - 1


class Val:
    __slots__ = ("v", "u")

    def __init__(self, v, u=False):
        self.u = u
        self.v = v & M64 if u else (((v & M64) ^ (1 << 63)) - (1 << 63))


class Undef(Exception):
    pass


def chk_s(v):
    if not -(1 << 63) <= v < (1 << 63):
        raise Undef
    return Val(v)


def binop(op, f, g, ev=True):
    """f, g: thunks."""
    if op in ("&&", "||"):
        a = f()
        if op == "&&":
            return Val(int(bool(a.v) and bool(g(ev and bool(a.v)).v if a.v else g(False).v or 0))) if a.v else (g(False), Val(0))[1]
        return (g(False), Val(1))[1] if a.v else Val(int(bool(g(ev).v)))
    a, b = f(), g(ev)
    if not ev:
        u = a.u or b.u
        return Val(0, u and op not in ("==", "!=", "<", ">", "<=", ">="))
    if op in ("<<", ">>"):
        n = b.v
        if n < 0 or n > 63:
            raise Undef
        if op == "<<":
            if a.u:
                return Val(a.v << n, True)
            if a.v < 0:
                raise Undef
            return chk_s(a.v << n)
        return Val(a.v >> n, a.u)
    u = a.u or b.u
    x, y = (a.v & M64, b.v & M64) if u else (a.v, b.v)
    if op in ("==", "!=", "<", ">", "<=", ">="):
        return Val(int({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]))
    if op in ("/", "%"):
        if not u and (x, y) == (-(1 << 63), -1):
            raise Undef
        if y == 0:
            raise Undef
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        r = q if op == "/" else x - q * y
    else:
        r = {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[op]
    return Val(r, True) if u else chk_s(r)


PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6,
        "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self):
        self.i += 1
        return self.t[self.i - 1]

    def unary(self, ev):
        t = self.take()
        if t in "+-!~" and len(t) == 1:
            a = self.unary(ev)
            if t == "!":
                return Val(int(not a.v))
            if t == "~":
                return Val(~a.v, a.u)
            if t == "-":
                return Val(-a.v, True) if a.u else (chk_s(-a.v) if ev else Val(0))
            return a
        if t == "(":
            a = self.cond(ev)
            assert self.take() == ")"
            return a
        if t[0] == "'":
            return Val(ppe.decode(t)[2][0])
        if t[0].isdigit():
            m = t.lower().rstrip("ul")
            u = "u" in t.lower()[len(m):] if not m.startswith("0x") else "u" in t.lower()[len(m):]
            v = int(m, 16) if m.startswith("0x") else int(m, 2) if m.startswith("0b") else int(m, 8) if m.startswith("0") and len(m) > 1 else int(m)
            if v >= 1 << 64:
                raise Undef
            if v >= 1 << 63:
                if not (m.startswith("0") or u):
                    raise Undef
                u = True
            return Val(v, u)
        return Val(0)

    def bin(self, p, ev):
        a = self.unary(ev)
        while self.peek() in PREC and PREC[self.peek()] >= p:
            op = self.take()
            q = PREC[op] + 1
            if op in ("&&", "||"):
                need = ev and (bool(a.v) == (op == "&&"))
                b = self.bin(q, need)
                r = (bool(a.v) and bool(b.v)) if op == "&&" else (bool(a.v) or bool(b.v))
                a = Val(int(r))
            else:
                b = self.bin(q, ev)
                a = binop(op, lambda: a, lambda e: b, ev)
        return a

    def cond(self, ev):
        c = self.bin(1, ev)
        if self.peek() == "?":
            self.take()
            x = self.cond(ev and bool(c.v))
            assert self.take() == ":"
            y = self.cond(ev and not c.v)
            r = x if c.v else y
            return Val(r.v, x.u or y.u)
        return c


def evaluate(s):
    p = Parser(cpp.spellings(s))
    v = p.cond(True)
    assert p.i == len(p.t), s
    return v


VALS = ["0", "1", "2", "3", "7", "63", "-1", "-2", "0x7fffffff", "0x80000000", "0xffffffff", "0x7fffffffffffffff", "-0x7fffffffffffffff",
        "(-0x7fffffffffffffff-1)", "0u", "1u", "3U", "0xffffffffffffffff", "0x8000000000000000", "9223372036854775807", "5ul", "'a'", "'\\0'", "010", "zzz"]
EXTRA = ["4294967296", "-4294967296", "0x100000000u", "1000000007", "32", "31", "0b101", "08l"[0:2] if False else "07LL", "1llu", "'\\377'", "'\\n'", "true_", "if"]


def exprs():
    ops = list(PREC)
    vals = VALS + (EXTRA if THOROUGH else EXTRA[:4])
    for v in VALS + EXTRA:
        yield v
        for u in ("-", "+", "!", "~", "- -", "!!", "~-", "-~", "!~", "-!"):
            yield u + " " + v
    for a in vals:
        for b in vals:
            for op in ops:
                yield "%s %s %s" % (a, op, b)
    few = ["0", "1", "-1", "2u", "0x8000000000000000"] if not THOROUGH else ["0", "1", "-1", "2u", "0x8000000000000000", "5", "-7"]
    for a, b, c in itertools.product(few, repeat=3):
        for p, q in itertools.product(ops, repeat=2):
            if not THOROUGH and (a, b, c) not in (("1", "2u", "-1"), ("0", "1", "-1"), ("2u", "1", "0"), ("-1", "1", "1"), ("1", "0", "0"), ("-1", "2u", "1"), ("1", "1", "1")):
                continue
            yield "%s %s %s %s %s" % (a, p, b, q, c)
        for q in ops:
            yield "%s ? %s : %s %s 1" % (a, b, c, q)
            yield "%s %s 1 ? %s : %s" % (a, q, b, c)
            yield "- %s %s (%s %s ~%s)" % (a, q, b, "+", c)
        for d in ("0", "1", "-1u"):
            yield "%s ? %s ? %s : 4 : %s" % (a, b, c, d)
            yield "%s ? %s : %s ? %s : 7" % (a, b, c, d)
    # unevaluated operands may divide by zero
    for z in ("1/0", "1%0", "(1/0)", "0x7fffffffffffffff+1", "(-0x7fffffffffffffff-1)/-1"):
        yield "0 && " + z
        yield "1 || " + z
        yield "1 ? 2 : " + z
        yield "0 ? %s : 2" % z
        yield "0 && (1 || %s) || 3" % z
        yield "1 ? 2u : %s + -1" % z
    for n in (2, 3, 10, 50, 200):
        yield "+".join(["1"] * n)
        yield "(" * n + "1" + ")" * n
        yield "!" * n + "1"
        yield "-".join(["1"] * n)
        yield "1?" * n + "5" + ":0" * n
        yield "0?1:" * n + "6"
        yield "&&".join(["1"] * n)


class Evaluated(Exception):
    pass


def trees():
    """Every expression of up to 2 (thorough: 3) operators out of && || ?: + - over the leaves 0, 1 and two
    that must not be evaluated; with the value, or None if a leaf of the latter kind is evaluated."""
    bad = ("(1/0)", "(1%0)")
    by = [["0", "1"] + list(bad)]

    def size(n):
        r = []
        for l in range(n):
            for a in by[l]:
                for b in by[n - 1 - l]:
                    r += [("&&", a, b), ("||", a, b)]
                    if n < 3:
                        r += [("+", a, b), ("!=", a, b)]
        for l in range(n):
            for m in range(n - l):
                for a in by[l]:
                    if a in bad:
                        continue
                    for b in by[m]:
                        for c in by[n - 1 - l - m]:
                            r.append(("?", a, b, c))
        return r
    for n in range(1, 4):
        if n == 3:
            by[0] = ["0", "1", "(1/0)"]
            if not THOROUGH:
                by[1] = [t for t in by[1] if t[0] in ("&&", "||", "?") and "(1%0)" not in t]
                by[2] = [t for t in by[2] if t[0] == "?" and "(1%0)" not in repr(t)][::3]
        by.append(size(n))

    def ev(t):
        if isinstance(t, str):
            if t in bad:
                raise Evaluated
            return int(t)
        if t[0] == "&&":
            return int(bool(ev(t[1]) and ev(t[2])))
        if t[0] == "||":
            return int(bool(ev(t[1]) or ev(t[2])))
        if t[0] == "?":
            return ev(t[2]) if ev(t[1]) else ev(t[3])
        a, b = ev(t[1]), ev(t[2])
        return a + b if t[0] == "+" else int(a != b)

    def show(t, top=True):
        if isinstance(t, str):
            return t
        if t[0] == "?":
            s = "%s ? %s : %s" % tuple(show(x, False) for x in t[1:])
        else:
            s = "%s %s %s" % (show(t[1], False), t[0], show(t[2], False))
        return s if top else "(" + s + ")"
    for n in range(1, 4):
        for t in by[n]:
            try:
                v = ev(t)
            except Evaluated:
                v = None
            yield n, show(t), v


def macro_exprs():
    """(definitions, expression, value) with macro replacement and defined."""
    D = ["#define ONE 1", "#define TWO ONE+ONE", "#define ID(x) x", "#define EMPTY", "#define NEG(x) -x", "#define P ID(2)*TWO", "#define SELF SELF",
         "#define F(x) x+1", "#define BIG 0xffffffffffffffff", "#define COND(a,b) (a)?(b):3"]
    names = ["ONE", "TWO", "EMPTY", "ID", "SELF", "NOPE", "__LINE__", "F"]
    forms = ["defined %s", "defined(%s)", "defined ( %s )", "!defined %s", "!defined(%s)+1", "defined %s && 1", "(defined %s)", "defined(%s)*3",
             "defined %s == 1 ? 4 : 5", "defined/**/%s", "0 || defined %s"]
    for n in names:
        for f in forms:
            d = n != "NOPE"
            yield D, f % n, None, f.replace("/**/", " ") % n, {n: d}
    for e, v in [("ONE", 1), ("TWO", 2), ("TWO*TWO", 3), ("ID(3)", 3), ("ID(TWO)*2", 3), ("EMPTY 1 EMPTY", 1), ("NEG(-1)", None), ("NEG(1)", -1),
                 ("P", 3), ("P*2", 4), ("SELF", 0), ("SELF+1", 1), ("F(F(1))", 3), ("F", 0), ("F+1", 1), ("BIG > 1", 1), ("BIG == -1", 1), ("COND(0,2)", 3),
                 ("COND(1,2) == 2", None), ("ID(defined_x)", 0), ("ID ( 1 )", 1), ("NOPE(1)", None),
                 ("ID(1,)", None), ("ID('b')", 98), ("__LINE__ > 0", 1), ("ONE EMPTY", 1), ("ID() 1", 1), ("~ONE", -2), ("__STDC__", 1)]:
        if v is not None:
            yield D, e, v, None, None


BAD_EXPR = ["", "(", "1 +", "(1", "1)", "1 2", "1 ? 2", "1 : 2", "1/0", "1%0", "defined", "defined(", "defined(A", "defined 1", "1.0", "1 = 1", "\"s\"", "1 ? : 2",
            "* 1", "!", "~", "()", "1 || ", "&& 1", "0 || 1/0", "1 && 1%0", "1 ? 1/0 : 1", "ZZZ(1)", "1 1", "zzz zzz", "1;", "{1}", "1 ++ 1" if False else "1--", "defined()",
            "1 ? 2 : ", "? 1 : 2", "1,2" if False else "[1]", "1 -> 2", "a.b", "0x", "1zz"]


def main(chk):
    R = ppe.Runner(chk, ["-std=c2x"])
    stats = {"states": 0, "transitions": 0}

    # 1. directive sequences
    fams = [
        ("structure", ["#if 1", "#if 0", "#elif 1", "#elif 0", "#else", "#endif", "t"], 8 if THOROUGH else 7, 5 if THOROUGH else 4),
        ("macros", ["#ifdef A", "#ifndef A", "#if A==2", "#elif defined A", "#elifdef A", "#elifndef A", "#else", "#endif", "#define A 1", "#define A 2", "#undef A", "A"], 6 if THOROUGH else 5, 3),
        ("defined", ["#if defined(A)&&A==1", "#elif !defined(A)", "#if A", "#if defined A-1", "#endif", "#else", "#define A 2", "#define A 1", "#undef A", "t"], 6 if THOROUGH else 5, 3),
        ("skipped", ["#if 0", "#if 1", "#else", "#endif", "#if (", "#elif (", "#elif", "#foo", "# 5 x", "#", "#define", "#include \"no/such\"", "#error x",
                     "#ifdef", "don't", "\"a", "@ ` \\ x", "#if 1.5 'x", "#elif 1", "t"], 5 if THOROUGH else 4, 3),
    ]
    for name, alpha, depth, bad_depth in fams:
        valid, invalid = [], []
        explore(alpha, depth, valid, invalid, stats)
        items = []
        for path, st in valid:
            ops = [l for l in path]
            defs = [l for l in ops if l.startswith("#define A")]
            if name in ("macros", "defined"):
                # redefinition without #undef is a constraint violation some compilers reject
                cur, ok, s = None, True, State()
                for i, l in enumerate(path):
                    if l.startswith("#define A") and s.live():
                        if s.A is not None and s.A != l.split()[2]:
                            ok = False
                    s = s.step(l, i)
                if not ok:
                    continue
            items.append(("%s: %s" % (name, " | ".join(path)), text(path) + "\n#undef A", list(st.out)))

        def cross(group):
            ref = R.gcc([c[1] for c in group])
            for i, c in enumerate(group):
                if ref.get(i) != c[2]:
                    raise vlib.CheckError("model and gcc differ: %s\n%s\n%s" % (c[0], c[2], ref.get(i)))
        vlib.pmap(cross, vlib.chunks(items, 1000))
        chk.count(0, 0, sample=items[len(items) // 2][0])
        R.run(items, 1000)
        chk.extra["valid_" + name] = len(items)

        # rejected sequences, each alone
        inv = sorted({p for p, _ in invalid if len(p) <= bad_depth})
        inv = [p for p in inv if not any(l in ("don't", "\"a", "@ ` \\ x") and False for l in p)]

        def reject(p):
            if chk.too_many():
                return
            f = R.write([])
            src = text(p) + "\n"
            open(f, "w").write(src)
            rc, out = vlib.sh([chk.cc, "-E", f], 10)
            g = subprocess.run(["gcc", "-E", "-w", "-std=c2x", f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
            os.unlink(f)
            # lone quotes and stray characters are only diagnosed by the compiler proper
            if g == 0:
                return 0
            if rc != 1:
                chk.violation("%s accepted: %s" % (name, " | ".join(p)), "must be rejected; exit status %s\n%s" % (rc, out[-300:].decode("latin1")),
                              {"input.c": src, "run.sh": "#!/bin/sh\n${CC:-/repo/bin/cc} -E $(dirname \"$0\")/input.c\n"})
            return 1
        n = sum(x or 0 for x in vlib.pmap(reject, inv))
        chk.extra["rejected_" + name] = n
        chk.count(n, n)

    # 2. nesting and chain scaling, layout of the directive line
    items = []
    for n in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 300):
        for k in {0, 1, n // 2, n - 1, n}:
            out, lines = [], []
            for i in range(n):
                lines += ["#if %d" % (i != k), "d%d" % i, "#else", "e%d" % i]
            lines += ["m"] + ["#endif", "z"] * n
            # if i != k taken -> d_i then #else skips the rest
            lines = ["#if %d" % (i != k) for i in range(n)] + ["m"] + ["#endif\nz%d" % i for i in range(n)]
            live = n if k >= n else k
            exp = (["m"] if k >= n else []) + ["z%d" % i for i in range(n) if n - 1 - i <= live]
            items.append(("nest %d %d" % (n, k), "\n".join(lines), exp))
            chain = ["#if 0"] + ["#elif %d\nc%d" % (i == k, i) for i in range(n)] + ["#else", "e", "#endif"]
            items.append(("chain %d %d" % (n, k), "\n".join(chain), ["c%d" % k] if k < n else ["e"]))
    forms = ["#%sif%s1%s\nyes\n#%selse%s\nno\n#%sendif%s"]
    for a in ("", " ", "\t", "/* c */", "\\\n"):
        for b in (" ", "\t", "/**/", " \\\n", "/*\n*/", "  "):
            for c in ("", " ", "//x", "/* \n */", " // x", "\\\n"):
                if a == "/* c */" and c == "":
                    c = "\t"
                items.append(("form %r %r %r" % (a, b, c), forms[0] % (a, b, c, a, c, a, c), ["yes"]))
                items.append(("form0 %r %r %r" % (a, b, c), (forms[0] % (a, b, c, a, c, a, c)).replace("1", "0", 1), ["no"]))
                items.append(("lead %r %r" % (a, c), "%s#if 0\nx\n %s # endif%s\ny" % (a if a != "\\\n" else "", a if a != "\\\n" else "", c), ["y"]))
    for w in ("#if 0\n/* #endif */ x\n#endif\ny", "#if 0\n\"#endif\"\n#endif\ny", "#if 0\n// #endif\n#endif\ny", "#if 0\n/*\n#endif\n*/\n#endif\ny",
              "#if 0\n\\\n#endif\ny", "#if 0\nx #endif\n#endif\ny", "#if 0\n#if 1\n#elif\n#else\n#endif\n#endif\ny", "#if 0\n#define Q\n#endif\nQ (y)"[:-5] + "y",
              "#if 1\n#define Q\n#endif\nQ y\n#undef Q", "#ifdef Q // c\nx\n#endif /* Q */\ny", "#if 0\n#else // x\ny\n#endif // Q", "#if 0\n#undef __LINE_\n#line 5\n#endif\ny",
              "#if 0\n#pragma once\n#include <nope>\n#endif\ny", "#if 0\n'\n#endif\ny", "#if 0\nit's \"\n#else\ny\n#endif", "#if 0\n0x1g 1e+ 08 ..\n#endif\ny",
              "#if 0\n$ @ `\n#endif\ny", "#if 0\n%:endif\n#endif\ny" if False else "#if 0\n#endif\ny", "#if 1\ny\n#elif (\n#endif", "#if 1\ny\n#elif 1/0\n#else\n#endif",
              "#ifdef __STDC__\ny\n#endif", "#if defined __FILE__ && defined __LINE__\ny\n#endif", "#ifdef __LINE__\ny\n#endif"):
        items.append(("text " + w.replace("\n", "|"), w, ["y"]))
    R.run(items, 200)
    chk.extra["layout"] = len(items)

    # 3. expressions
    items, undef, seen = [], 0, set()
    for e in exprs():
        if e in seen:
            continue
        seen.add(e)
        try:
            v = evaluate(e)
        except Undef:
            undef += 1
            continue
        val = "%#xu" % v.v if v.u else (("%d" % v.v) if v.v > -(1 << 63) else "(-9223372036854775807-1)")
        body = "#if (%s) == %s\nyes\n#else\nno\n#endif\n#if (%s)*0 - 1 < 0\nS\n#else\nU\n#endif\n#if %s\nT\n#elif !(%s)\nF\n#endif" % (e, val, e, e, e)
        items.append(("expr " + e[:200], body, ["yes", "U" if v.u else "S", "T" if v.v else "F"]))
    poison = []
    for n, e, v in trees():
        if e in seen:
            continue
        seen.add(e)
        if v is None:
            if n < 3:
                poison.append(e)
            continue
        items.append(("tree " + e, "#if %s\nT\n#else\nF\n#endif\n#if (%s) == %d\nyes\n#endif" % (e, e, v), ["T" if v else "F", "yes"]))
    chk.extra["short_circuit_trees"] = sum(1 for x in items if x[0].startswith("tree "))
    for D, e, v, model, env in macro_exprs():
        if v is None:
            for n, d in env.items():
                model = model.replace("defined ( %s )" % n, str(int(d))).replace("defined(%s)" % n, str(int(d))).replace("defined %s" % n, str(int(d)))
            v = evaluate(model).v
        names = [cpp.tokenize(d[8:])[0].s for d in D]
        items.append(("mexpr " + e, "\n".join(D) + "\n#if (%s) == (%d)\nyes\n#else\nno\n#endif\n#if %s\nT\n#else\nF\n#endif\n%s" % (
            e, v, e, "\n".join("#undef " + n for n in names)), ["yes", None]))
    for i, it in enumerate(items):
        if it[2][-1] is None:
            ref = R.gcc([it[1]])[0]
            if ref[0] != "yes":
                raise vlib.CheckError("model and gcc differ: %r %r" % (it, ref))
            items[i] = (it[0], it[1], ref)

    def cross(group):
        ref = R.gcc([c[1] for c in group])
        return [c for i, c in enumerate(group) if ref.get(i) == c[2]]
    kept = [c for g in vlib.pmap(cross, vlib.chunks(items, 500)) for c in g]
    if len(kept) < 0.995 * len(items):
        raise vlib.CheckError("model and gcc differ on %d expressions, e.g. %r" % (len(items) - len(kept), [c for c in items if c not in kept][:3]))
    R.run(kept, 300)
    chk.extra.update(expressions=len(kept), expressions_undefined=undef, gcc_differs=len(items) - len(kept))

    # 4. malformed conditions and files that do not balance
    d = os.path.join(chk.work, "inc")
    os.makedirs(d)
    for n, s in (("open.h", "#if 1\nx\n"), ("close.h", "#endif\n"), ("else.h", "#else\n"), ("ok.h", "#if 0\n#else\ninc\n#endif\n")):
        open(os.path.join(d, n), "w").write(s)
    bad = [("if " + e, "#if %s\nx\n#endif\n" % e) for e in BAD_EXPR] + [("elif " + e, "#if 0\n#elif %s\nx\n#endif\n" % e) for e in BAD_EXPR]
    bad += [("if " + e, "#if %s\nx\n#endif\n" % e) for e in (poison if THOROUGH else poison[::3] + poison[:60])]
    bad += [("include", "#include \"open.h\"\n"), ("include2", "#include \"open.h\"\n#endif\n"), ("include3", "#if 1\n#include \"close.h\"\n"),
            ("include4", "#if 1\n#include \"close.h\"\n#endif\n"), ("include5", "#if 0\n#else\n#include \"else.h\"\n#endif\n"), ("include6", "#if 1\n#include \"else.h\"\n#endif\n"),
            ("include7", "#if 1\n#include \"open.h\"\n#endif\n"), ("eof in if", "#if 1"), ("eof in else", "#if 1\n#else"), ("eof skipped", "#if 0\n#if 1\n#endif\n"),
            ("error", "#error\n"), ("error text", "#error don't do it\n"), ("error str", "#error \"x\"\n"), ("define", "#define\n"), ("define num", "#define 1\n"),
            ("define par", "#define F(x\nx)\n"), ("define par2", "#define F(x y) x\n"), ("define par3", "#define F(1) x\n"), ("define par4", "#define F(x,) x\n"), ("dup par", "#define F(x,x) x\n"),
            ("define dots", "#define F(...,x) x\n"), ("undef", "#undef\n"), ("undef num", "#undef 1\n"), ("hash", "#define F(x) #y\nF(1)\n"), ("paste", "#define F(x) ## x\n"),
            ("paste2", "#define F(x) x ##\nF(1)"), ("unterminated", "#define F(x) x\nF(1\n"), ("args", "#define F(x) x\nF(1,2)\n"), ("args0", "#define F() 1\nF(1)\n"), ("args2", "#define F(x,y) x\nF(1)\n"),
            ("defdefined", "#define defined 1\n"), ("unknown", "#foo\n"), ("include none", "#include\n"), ("include bad", "#include foo\n"), ("include missing", "#include \"nope.h\"\n"),
            ("line", "#line\n"), ("line x", "#line x\n"), ("line neg", "#line -1\n"), ("comment", "/* x\n"), ("comment2", "/* x *"), ("comment3", "/*/")]

    def reject2(c):
        f = os.path.join(d, "t%d.c" % hash_(c[0] + c[1]))
        open(f, "w").write(c[1])
        rc, out = vlib.sh([chk.cc, "-E", f], 10)
        g = subprocess.run(["gcc", "-E", "-w", "-std=c2x", "-Wno-error", f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        os.unlink(f)
        if g != 0 and rc != 1:
            chk.violation("accepted: " + c[0], "must be rejected; exit status %s\n%s" % (rc, out[-300:].decode("latin1")), {"input.c": c[1]})
        return g != 0
    n = sum(vlib.pmap(reject2, bad))
    for k in range(1, 4):
        for combo in itertools.product(["#include \"ok.h\"", "#if 1", "#else", "#endif"], repeat=k):
            st, exp, ok = [], [], True
            for l in combo:
                if l == "#if 1":
                    st.append([1, 0])
                elif l == "#else":
                    if not st or st[-1][1]:
                        ok = False
                        break
                    st[-1] = [0, 1]
                elif l == "#endif":
                    if not st:
                        ok = False
                        break
                    st.pop()
                elif all(x[0] for x in st):
                    exp.append("inc")
            f = os.path.join(d, "u%d.c" % hash_("".join(combo)))
            open(f, "w").write("\n".join(combo) + "\n")
            rc, out = vlib.sh([chk.cc, "-E", f], 10)
            os.unlink(f)
            ok = ok and not st
            if (rc == 0) != ok or (ok and cpp.spellings(out.decode()) != exp):
                chk.violation("include combo " + " | ".join(combo), "expected %s %s, got exit %s %r" % (ok, exp, rc, out[-200:]), {"input.c": "\n".join(combo), "ok.h": "#if 0\n#else\ninc\n#endif\n"})
            n += 1
    chk.count(n, n)
    chk.extra["malformed"] = n
    chk.states, chk.transitions, chk.traces = stats["states"], stats["transitions"], chk.evaluations


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


vlib.main(main, "C16", "model_checking",
          rule="explicit-state exploration of the conditional stack over directive alphabets to the stated depth, all paths replayed on "
               "cc -E; all #if operators x boundary values, precedence pairs, unevaluated operands; malformed inputs gcc rejects must be rejected",
          assumptions=["gcc -E agrees with the model on every case that is judged"])
