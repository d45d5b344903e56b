#!/usr/bin/env python3
"""C04: expressions are grouped and typed as in C. All operator sequences up to a length are parsed
by a reference grammar that is evaluated exactly; all typed expressions up to a depth are checked by
a reference type checker (itself compared with gcc)."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *

M32 = 0xffffffff


# --------------------------------------------------------------------- 1. grouping
class Undef(Exception):
    pass


class Bad(Exception):
    pass


LEVELS = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
BIN = [o for l in LEVELS for o in l]
ASG = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="]
PRE = ["-", "~", "!", "++", "--", "+", "(unsigned char)", "sizeof ", "(int)", "*&"]
POST = ["++", "--", "[z]", "<0>"]


class P:
    """The grammar of C11 6.5 on tokens; evaluates unsigned int variables exactly, left to right
    (every variable occurs once, so the order does not matter). Values are (value, signed?)."""
    def __init__(self, toks, env):
        self.t, self.i, self.env = toks, 0, env

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self):
        self.i += 1
        return self.t[self.i - 1]

    # nodes: ("v", name) ("b", op, a, b) ("a", op, a, b) ("?", a, b, c) (",", a, b) ("u", op, a) ("p", op, a)
    def comma(self):
        a = self.assign()
        while self.peek() == ",":
            self.take()
            a = (",", a, self.assign())
        return a

    def assign(self):
        i = self.i
        a = self.unary()
        if self.peek() in ASG:
            op = self.take()
            return ("a", op, a, self.assign())
        self.i = i
        return self.cond()

    def cond(self):
        c = self.bin(0)
        if self.peek() == "?":
            self.take()
            x = self.comma()
            if self.peek() != ":":
                raise Bad
            self.take()
            return ("?", c, x, self.cond())
        return c

    def bin(self, l):
        if l == len(LEVELS):
            return self.unary()
        a = self.bin(l + 1)
        while self.peek() in LEVELS[l]:
            op = self.take()
            a = ("b", op, a, self.bin(l + 1))
        return a

    def unary(self):
        if self.peek() in PRE:
            op = self.take()
            if op in ("++", "--", "sizeof ") and self.peek() in ("(unsigned char)", "(int)"):
                raise Bad  # the operand is a unary expression, not a cast
            return ("u", op, self.unary())
        a = ("v", self.take())
        while self.peek() in ("p++", "p--"):
            a = ("p", self.take(), a)
        return a


def lval(n):
    return n[0] == "v" or (n[0] == "u" and n[1] == "*&" and lval(n[2]))


def check(n):
    if n[0] == "a":
        if not lval(n[2]):
            raise Bad
    if n[0] == "p" or (n[0] == "u" and n[1] in ("++", "--", "*&")):
        if not lval(n[2]):
            raise Bad
    for x in n[1:]:
        if isinstance(x, tuple):
            check(x)


def width(n):
    """type: 'U' unsigned, 'I' int, 'L' unsigned long"""
    k = n[0]
    if k in ("v", "p", "a"):
        return "U"
    if k == "b":
        if n[1] in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
            return "I"
        if n[1] in ("<<", ">>"):
            return width(n[2])
        a, b = width(n[2]), width(n[3])
        return "L" if "L" in (a, b) else "U" if "U" in (a, b) else "I"
    if k == "?":
        a, b = width(n[2]), width(n[3])
        return "L" if "L" in (a, b) else "U" if "U" in (a, b) else "I"
    if k == ",":
        return width(n[2])
    op = n[1]
    if op in ("++", "--", "*&"):
        return "U"
    if op in ("!", "(int)", "(unsigned char)"):
        return "I"
    if op == "sizeof ":
        return "L"
    return width(n[2])


def cv(v, t):
    if t == "U":
        return v & M32
    if t == "L":
        return v & 0xffffffffffffffff
    v &= M32
    return v - (1 << 32) if v >> 31 else v


def fit(v, t):
    if t == "I" and not -(1 << 31) <= v < (1 << 31):
        raise Undef
    return cv(v, t)


def arith(op, a, ta, b, tb):
    if op in ("<<", ">>"):
        n = {"U": 32, "I": 32, "L": 64}[ta]
        if not 0 <= b < n or (ta == "I" and a < 0):
            raise Undef
        return fit(a << b, ta) if op == "<<" else a >> b
    t = "L" if "L" in (ta, tb) else "U" if "U" in (ta, tb) else "I"
    a, b = cv(a, t), cv(b, t)
    if op in ("==", "!=", "<", ">", "<=", ">="):
        return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])
    if op in ("/", "%"):
        if b == 0:
            raise Undef
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return fit(q, t) if op == "/" else fit(a - q * b, t)
    return fit({"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op], t)


def ev(n, env):
    k = n[0]
    if k == "v":
        return env[n[1]]
    if k == "b":
        op = n[1]
        a = ev(n[2], env)
        if op == "&&":
            return int(bool(a and ev(n[3], env)))
        if op == "||":
            return int(bool(a or ev(n[3], env)))
        return arith(op, a, width(n[2]), ev(n[3], env), width(n[3]))
    if k == "a":
        b = ev(n[3], env)
        x = n[2]
        while x[0] != "v":
            x = x[2]
        v = cv(b, "U") if n[1] == "=" else cv(arith(n[1][:-1], env[x[1]], "U", b, width(n[3])), "U")
        env[x[1]] = v
        return v
    if k == "?":
        c = ev(n[1], env)
        return cv(ev(n[2] if c else n[3], env), width(n))
    if k == ",":
        ev(n[1], env)
        return ev(n[2], env)
    if k == "p":
        v = env[lname(n[2])]
        env[lname(n[2])] = (v + (1 if n[1] == "p++" else -1)) & M32
        return v
    op = n[1]
    if op in ("++", "--"):
        v = (env[lname(n[2])] + (1 if op == "++" else -1)) & M32
        env[lname(n[2])] = v
        return v
    if op == "sizeof ":
        return {"U": 4, "I": 4, "L": 8}[width(n[2])] if not (n[2][0] == "u" and n[2][1] == "(unsigned char)") else 1
    v = ev(n[2], env)
    t = width(n[2])
    if op == "-":
        return fit(-v, t)
    if op == "~":
        return cv(~v, t)
    if op == "!":
        return int(not v)
    if op == "(unsigned char)":
        return v & 255
    if op == "(int)":
        return cv(v, "I")
    return v


def lname(n):
    while n[0] != "v":
        n = n[2]
    return n[1]


VALUES = [(5, 3, 2, 7), (1, 0, 1, 2), (0, 6, 9, 1), (12, 12, 3, 30), (2, 1, 0, 0), (0xfffffffb, 3, 1, 4)]


def sequences():
    """token strings; variables a, b, c, d once each"""
    ops = BIN + ASG + [",", "?"]
    V = "abcd"

    def build(opseq, pre, post):
        toks, v, colons, out = [], 0, 0, []

        def operand():
            nonlocal v
            x = list(pre.get(v, ())) + [V[v]] + list(post.get(v, ()))
            v += 1
            return x
        toks += operand()
        for o in opseq:
            toks.append(o)
            toks += operand()
        return toks
    OPS = BIN + ASG + [",", "?", ":"]

    def ok(s):
        d = 0
        for o in s:
            if o == "?":
                d += 1
            if o == ":":
                d -= 1
                if d < 0:
                    return False
        return d == 0
    for n in (1, 2, 3):
        for s in itertools.product(OPS, repeat=n):
            if not ok(s):
                continue
            if n == 3 and not THOROUGH and "?" not in s and sum(o in ASG for o in s) == 0 and len({lv(o) for o in s}) < 3 and hash3(s) % 3:
                continue
            yield build(s, {}, {})
    pres = [(p,) for p in PRE] + [("-", "~"), ("~", "-"), ("!", "-"), ("-", "!"), ("*&", "++")[::-1], ("sizeof ", "-"), ("-", "sizeof "), ("(unsigned char)", "-"), ("-", "(unsigned char)"), ("!", "!"), ("-", "--"), ("(int)", "~"), ("(int)", "sizeof ")]
    posts = [("p++",), ("p--",)]
    for n in (0, 1, 2):
        for s in itertools.product(OPS, repeat=n):
            if not ok(s):
                continue
            for pos in range(n + 1):
                if n == 2 and not THOROUGH and pos == 2 and hash3(s) % 2:
                    continue
                for p in pres if n < 2 or THOROUGH else pres[:10]:
                    yield build(s, {pos: p}, {})
                for q in posts:
                    yield build(s, {}, {pos: q})
                    if n < 2:
                        for p in pres:
                            yield build(s, {pos: p}, {pos: q})


def lv(o):
    for i, l in enumerate(LEVELS):
        if o in l:
            return i
    return -1


def hash3(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate("".join(s)))


def render(toks):
    s = ""
    for t in toks:
        t = t[1:] if t in ("p++", "p--") else t
        if s and (s[-1] + t[0] in ("--", "++", "&&", "-=") or s[-1] in "+-&" and t[0] in "+-&" or s[-1] == "*" and t[0] in "*&=" or s[-1] == "/" and t[0] in "*/"):
            s += " "
        s += t
    return s


def grouping(c):
    cs, bad = [], 0
    seen = set()
    for toks in sequences():
        k = render(toks)
        if k in seen:
            continue
        seen.add(k)
        try:
            p = P(toks, None)
            tree = p.comma()
            if p.i != len(toks):
                raise Bad
            check(tree)
        except Bad:
            bad += 1
            continue
        vs = []
        body = ""
        exp = []
        for val in VALUES:
            env = dict(zip("abcd", val))
            try:
                r = ev(tree, env)
            except Undef:
                continue
            body += "a=%du;b=%du;c=%du;d=%du;o(%s);o(a);o(b);o(c);o(d);" % (val + (("(" + k + ")") if "," in toks else k,))
            exp.append("%x %x %x %x %x" % (r & 0xffffffffffffffff, env["a"], env["b"], env["c"], env["d"]))
        if not exp:
            continue
        cs.append(PCase("group " + k, "unsigned a,b,c,d;" + body, "", " ".join(exp)))
    pr = Printer(c, "static int z;\n")
    share = cs if THOROUGH else cs[::5]

    def xc(group):
        ref = parse_marks(pr.run_gcc(tu(group, "static int z;\n")))
        for i, k in enumerate(group):
            if ref.get(i) != k.expect:
                raise CheckError("grammar model disagrees with gcc: %s\nmodel %s\ngcc   %s" % (k.key, k.expect, ref.get(i)))
    pmap(xc, chunks(share, 150))
    pr.run(cs, 120)
    c.extra.update(operator_sequences=len(cs), ill_formed=bad, model_cross_checked=len(share))
    for s in cs[:: max(1, len(cs) // 5)]:
        c.samples.append(s.key)


# --------------------------------------------------------------------- 2. types
# ("int",..) arithmetic: name; ("ptr", const?, T); ("arr", n, const?, T); ("fn", name); ("rec", name); ("void",)
CN = {"char": "char", "sc": "signed char", "uc": "unsigned char", "sh": "short", "us": "unsigned short", "int": "int", "ui": "unsigned", "long": "long", "ul": "unsigned long",
      "ll": "long long", "ull": "unsigned long long", "float": "float", "double": "double", "bool": "_Bool"}
SIZE = {"char": 1, "sc": 1, "uc": 1, "sh": 2, "us": 2, "int": 4, "ui": 4, "long": 8, "ul": 8, "ll": 8, "ull": 8, "float": 4, "double": 8, "bool": 1}
FN = {"fi": ("int", "int(%s)(int)"), "ft": (("rec", "T"), "struct T(%s)(void)"), "fp": (("ptr", 0, "int"), "int*(%s)(int)"), "fv": (("void",), "void(%s)(void)")}
RECS = {"S": [("x", "int", 0), ("y", "char", 1), ("a", ("arr", 4, 0, "int"), 0), ("in", ("rec", "T"), 0), ("nx", ("ptr", 0, ("rec", "S")), 0), ("f", ("ptr", 0, ("fn", "fi")), 0), ("ct", ("rec", "T"), 1)],
        "T": [("t", "sh", 0), ("q", ("ptr", 0, "int"), 0), ("ca", ("arr", 3, 1, "char"), 0)]}


def decl(t, d="", q=0):
    c = "const " if q else ""
    if isinstance(t, str):
        return (c + CN[t] + " " + d).strip()
    k = t[0]
    if k == "void":
        return (c + "void " + d).strip()
    if k == "rec":
        return (c + "struct " + t[1] + " " + d).strip()
    if k == "ptr":
        d = ("*const " if q else "*") + d
        if t[2][0] in ("arr", "fn") and not isinstance(t[2], str):
            d = "(" + d + ")"
        return decl(t[2], d, t[1])
    if k == "arr":
        return decl(t[3], "%s[%d]" % (d, t[1]), t[2] or q)
    r, f = FN[t[1]]
    return (f.replace("(%s)", d if d else "") if not d.startswith("(") and d else f.replace("(%s)", d)) if d else f.replace("(%s)", "")


def sizeof(t):
    if isinstance(t, str):
        return SIZE[t]
    return {"ptr": 8}.get(t[0]) or (t[1] * sizeof(t[3]) if t[0] == "arr" else {"S": 88, "T": 24}[t[1]] if t[0] == "rec" else None)


RANK = {"bool": 0, "char": 1, "sc": 1, "uc": 1, "sh": 2, "us": 2, "int": 3, "ui": 3, "long": 4, "ul": 4, "ll": 5, "ull": 5}
UNS = {"ui", "ul", "ull"}
TOU = {"int": "ui", "long": "ul", "ll": "ull"}


def isint(t):
    return isinstance(t, str) and t in RANK


def isar(t):
    return isinstance(t, str)


def promote(t):
    return "int" if isint(t) and RANK[t] < 3 else t


def usual(a, b):
    for f in ("double", "float"):
        if f in (a, b):
            return f
    a, b = promote(a), promote(b)
    if a == b:
        return a
    if (a in UNS) == (b in UNS):
        return a if RANK[a] > RANK[b] else b
    u, s = (a, b) if a in UNS else (b, a)
    if RANK[u] >= RANK[s]:
        return u
    return s if SIZE[s] > SIZE[u] else TOU[s]


class E:
    """text, precedence (17 primary, 16 postfix, 15 unary, 14 cast, 13.. binary), type, const, lvalue,
    rng: deref range of a pointer (lo, hi) or None, ok: may be evaluated, npc: null pointer constant,
    eff: has side effects, neg: floating value may be negative"""
    __slots__ = ("s", "p", "t", "q", "l", "rng", "ok", "npc", "eff", "neg")

    def __init__(self, s, p, t, q=0, l=0, rng=(-4, 4), ok=True, npc=False, eff=False, neg=False):
        self.s, self.p, self.t, self.q, self.l, self.rng, self.ok, self.npc, self.eff, self.neg = s, p, t, q, l, rng, ok, npc, eff, neg

    def par(self, p):
        return self.s if self.p >= p else "(" + self.s + ")"

    def rv(self):
        """after lvalue, array and function conversion: (type, range)"""
        t = self.t
        if not isar(t):
            if t[0] == "arr":
                return ("ptr", int(bool(t[2] or self.q)), t[3]), (0, t[1]) if self.rng != None else None
            if t[0] == "fn":
                return ("ptr", 0, t), (0, 1)
            if t[0] == "ptr":
                return t, self.rng
        return t, None


def sub_ok(e):
    return e.ok


ATOMS = [E("i", 17, "int", l=1), E("ci", 17, "int", 1, 1), E("c", 17, "char", l=1), E("uc", 17, "uc", l=1), E("sh", 17, "sh", l=1), E("l", 17, "long", l=1), E("u", 17, "ui", l=1), E("ul", 17, "ul", l=1),
         E("f", 17, "float", l=1), E("d", 17, "double", l=1), E("cd", 17, "double", 1, 1), E("b", 17, "bool", l=1), E("sc", 17, "sc", l=1), E("us", 17, "us", l=1), E("ll", 17, "ll", l=1), E("ull", 17, "ull", l=1),
         E("p", 17, ("ptr", 0, "int"), l=1), E("pc", 17, ("ptr", 1, "int"), l=1), E("cp", 17, ("ptr", 0, "int"), 1, 1), E("s", 17, ("ptr", 0, "char"), l=1), E("cs", 17, ("ptr", 1, "char"), l=1), E("pp", 17, ("ptr", 0, ("ptr", 0, "int")), l=1), E("v", 17, ("ptr", 0, ("void",)), l=1, rng=None),
         E("cv", 17, ("ptr", 1, ("void",)), l=1, rng=None), E("arr", 17, ("arr", 4, 0, "int"), l=1), E("m2", 17, ("arr", 2, 0, ("arr", 3, 0, "int")), l=1), E("ca", 17, ("arr", 5, 1, "char"), 0, 1), E("st", 17, ("rec", "S"), l=1), E("cst", 17, ("rec", "S"), 1, 1),
         E("ps", 17, ("ptr", 0, ("rec", "S")), l=1), E("pcs", 17, ("ptr", 1, ("rec", "S")), l=1), E("fi", 17, ("fn", "fi")), E("pf", 17, ("ptr", 0, ("fn", "fi")), l=1, rng=(0, 1)), E("ft()", 16, ("rec", "T"), eff=True), E("pa", 17, ("ptr", 0, ("arr", 3, 0, "int")), l=1),
         E("cpc", 17, ("ptr", 1, "int"), 1, 1), E("ppc", 17, ("ptr", 0, ("ptr", 1, "int")), l=1), E("apc", 17, ("arr", 3, 0, ("ptr", 0, "char")), l=1), E("pcp", 17, ("ptr", 1, ("ptr", 0, "int")), l=1),
         E("1", 17, "int"), E("0", 17, "int", npc=True), E("2u", 17, "ui"), E("3L", 17, "long"), E("'a'", 17, "int"), E("1.5", 17, "double"), E("2.5f", 17, "float"), E('"abc"', 17, ("arr", 4, 0, "char"), l=1), E('L"ab"', 17, ("arr", 3, 0, "int"), l=1), E("EN", 17, "int"),
         E("sizeof i", 15, "ul"), E("(int[3]){1,2}", 16, ("arr", 3, 0, "int"), l=1), E("(struct T){5,ia+4}", 16, ("rec", "T"), l=1), E("(const char[]){65,66}", 16, ("arr", 2, 1, "char"), l=1), E("7ull", 17, "ull"), E("L'x'", 17, "int"), E("u'x'", 17, "us"), E("U'x'", 17, "ui")]
COUNT = [0]


def pfx(op, x):
    return op + (" " if x[0] == op[0] else "") + x


def small(s):
    """a floating expression whose value certainly fits every integer type"""
    return re.fullmatch(r"(\(float\)|\(double\)|cd|f|[12]\.5f?|1|\+|\(|\))+", s) is not None


def unary_like(e):
    """all constructors applicable to e"""
    t, rng = e.rv()
    lit = not e.l and e.p == 17
    # postfix
    if not isar(t) and t[0] == "ptr":
        T = t[2]
        if not (T[0] == "void" and not isar(T)) and not (not isar(T) and T[0] == "fn"):
            arr = not isar(T) and T[0] == "arr"
            for k, txt in ((0, "[0]"), (1, "[1]"), (-1, "[-1]"), (1, "[z+1]")):
                ok = e.ok and rng is not None and rng[0] <= k < rng[1]
                yield E(e.par(16) + txt, 16, T, t[1], 1, (-4, 4) if not arr else (0, 0), ok, eff=e.eff)
            yield E("0[" + e.s + "]", 16, T, t[1], 1, (-4, 4), e.ok and rng is not None and rng[0] <= 0 < rng[1], eff=e.eff)
            yield E("*" + e.par(14), 15, T, t[1], 1, (-4, 4), e.ok and rng is not None and rng[0] <= 0 < rng[1], eff=e.eff)
            yield E(e.par(13) + "+1", 13, t, rng=(rng[0] - 1, rng[1] - 1) if rng else None, ok=e.ok and rng is not None and rng[1] >= 1, eff=e.eff)
            yield E("1+" + e.par(13.5), 13, t, rng=(rng[0] - 1, rng[1] - 1) if rng else None, ok=e.ok and rng is not None and rng[1] >= 1, eff=e.eff)
            yield E(e.par(13) + "-1L", 13, t, rng=(rng[0] + 1, rng[1] + 1) if rng else None, ok=e.ok and rng is not None and rng[0] <= -1, eff=e.eff)
            yield E(e.par(13) + "+sh", 13, t, rng=None, ok=False, eff=e.eff)
            yield E(e.par(13) + "- " + e.par(13.5), 13, "long", ok=e.ok and not e.eff and '"' not in e.s and "{" not in e.s, eff=e.eff)
            if e.l and not e.q and isinstance(e.t, tuple) and e.t[0] == "ptr" and "p++" not in e.s and not e.eff:
                yield E(e.par(16) + "++", 16, t, rng=rng, ok=e.ok and rng is not None, eff=True)
                yield E(pfx("--", e.par(14)), 15, t, rng=(rng[0] + 1, rng[1] + 1) if rng else None, ok=e.ok and rng is not None, eff=True)
                yield E(e.par(15) + "+=2", 2, t, rng=(rng[0] - 2, rng[1] - 2) if rng else None, ok=e.ok and rng is not None, eff=True)
                yield E(e.par(15) + "=0", 2, t, rng=None, ok=e.ok, eff=True)
        if not isar(T) and T[0] == "fn":
            r = FN[T[1]][0]
            yield E("*" + e.par(14), 15, T, ok=e.ok)
            if T[1] == "fi":
                yield E(e.par(16) + "(2)", 16, r, ok=e.ok and rng is not None, eff=True)
        if not isar(T) and T[0] == "rec" and rng is not None:
            for n, mt, mq in RECS[T[1]]:
                yield member(e, e.par(16) + "->" + n, mt, mq or t[1], 1, e.ok and rng[0] <= 0 < rng[1])
        yield E("!" + e.par(14), 15, "int", ok=e.ok, eff=e.eff)
        yield E(e.par(9) + "==0", 9, "int", ok=e.ok, eff=e.eff)
        yield E("(" + e.s + ")&&1", 4, "int", ok=e.ok, eff=e.eff)
        yield E("1?" + e.par(1.5) + ":0", 3, t, rng=rng, ok=e.ok, eff=e.eff)
        yield E("i?(void*)0:" + e.par(3), 3, t, rng=None, ok=e.ok, eff=e.eff)
        if T != ("void",) and not (not isar(T) and T[0] == "fn"):
            yield E("i?v:" + e.par(3), 3, ("ptr", t[1], ("void",)), rng=None, ok=e.ok, eff=e.eff)
            yield E("i?" + e.par(1.5) + ":cv", 3, ("ptr", 1, ("void",)), rng=None, ok=e.ok, eff=e.eff)
            yield E("(void*)" + e.par(14), 14, ("ptr", 0, ("void",)), rng=None, ok=e.ok, eff=e.eff)
            yield E("(const char*)" + e.par(14), 14, ("ptr", 1, "char"), rng=None, ok=e.ok, eff=e.eff)
            yield E("(char*)" + e.par(14), 14, ("ptr", 0, "char"), rng=None, ok=e.ok, eff=e.eff)
        if T == "int":
            yield E("i?pc:" + e.par(3), 3, ("ptr", 1, "int"), rng=None, ok=e.ok, eff=e.eff)
            yield E("i?" + e.par(1.5) + ":p", 3, ("ptr", t[1], "int"), rng=None, ok=e.ok, eff=e.eff)
            yield E(e.par(10) + "<p", 10, "int", ok=False, eff=e.eff)
            yield E(e.par(10) + ">=pc", 10, "int", ok=False, eff=e.eff)
        if not lit:
            yield E("(b)(long)" + e.par(14) if False else "(_Bool)" + e.par(14), 14, "bool", ok=e.ok, eff=e.eff)
        yield E("0," + e.par(2), 1, t, rng=rng, ok=e.ok, eff=e.eff)
    if not isar(e.t) and e.t[0] == "rec":
        for n, mt, mq in RECS[e.t[1]]:
            yield member(e, e.par(16) + "." + n, mt, mq or e.q, e.l, e.ok)
        yield E("0," + e.par(2), 1, e.t, eff=e.eff, ok=e.ok)
        yield E("1?" + e.par(1.5) + ":" + ("st" if e.t[1] == "S" else "ft()"), 3, e.t, eff=e.eff, ok=e.ok)
    if (e.l or (not isar(e.t) and e.t[0] == "fn")) and "++" not in e.s[-2:]:
        yield E(pfx("&", e.par(14)), 15, ("ptr", e.q if isar(e.t) or e.t[0] != "arr" else 0, e.t if not (not isar(e.t) and e.t[0] == "arr" and e.q) else ("arr", e.t[1], 1, e.t[3])), rng=(0, 1) if e.rng is not None or isar(e.t) or e.t[0] != "arr" else (0, 1), ok=e.ok, eff=e.eff)
    if isar(t):
        fl = t in ("float", "double")
        yield E(pfx("-", e.par(14)), 15, promote(t), ok=e.ok, eff=e.eff, neg=True)
        yield E(pfx("+", e.par(14)), 15, promote(t), ok=e.ok, eff=e.eff, neg=e.neg)
        yield E("!" + e.par(14), 15, "int", ok=e.ok, eff=e.eff)
        if not fl:
            yield E("~" + e.par(14), 15, promote(t), ok=e.ok, eff=e.eff, neg=True)
            yield E(e.par(11) + ">>1L", 11, promote(t), ok=e.ok, eff=e.eff, neg=e.neg)
            yield E(e.par(11) + "<<1ull", 11, promote(t), ok=e.ok and not e.neg and promote(t) in UNS, eff=e.eff)
            yield E("3L>>(" + e.s + ")*0", 11, "long", ok=e.ok, eff=e.eff)
            yield E(e.par(7.5) + "&1u", 7.5, usual(t, "ui"), ok=e.ok, eff=e.eff)
            yield E(e.par(7.5) + "%5", 7.5, usual(t, "int"), ok=e.ok, eff=e.eff, neg=True) if False else E(e.par(13.5) + "%5", 13.5, usual(t, "int"), ok=e.ok, eff=e.eff, neg=True)
        for o, x, xt in (("+", "1", "int"), ("-", "1u", "ui"), ("*", "1.5f", "float"), ("/", "2L", "long"), ("+", "c", "char")):
            pr = 13 if o in "+-" else 13.5
            yield E(e.par(pr) + o + x, pr, usual(t, xt), ok=e.ok, eff=e.eff, neg=e.neg or o == "-")
        yield E("sh<" + e.par(10.5), 10, "int", ok=e.ok and not e.eff, eff=e.eff)
        yield E(e.par(9) + "!=2", 9, "int", ok=e.ok, eff=e.eff)
        yield E("(" + e.s + ")||i", 3.5, "int", ok=e.ok, eff=e.eff)
        yield E("i?" + e.par(1.5) + ":1L", 3, usual(t, "long"), ok=e.ok, eff=e.eff, neg=e.neg)
        yield E("u?c:" + e.par(3), 3, usual("char", t), ok=e.ok, eff=e.eff, neg=e.neg)
        yield E("0," + e.par(2), 1, t, ok=e.ok, eff=e.eff, neg=e.neg)
        for ct in ("char", "ui", "long", "double", "float", "bool", "us"):
            yield E("(%s)%s" % (CN[ct], e.par(14)), 14, ct, ok=e.ok and (not fl or ct in ("bool", "double", "float") or small(e.s)), eff=e.eff, neg=e.neg and ct not in ("ui", "bool"))
        yield E("(const short)" + e.par(14), 14, "sh", ok=e.ok and (not fl or small(e.s)), eff=e.eff, neg=e.neg)
        if e.l and not e.q and not e.eff and '"' not in e.s:
            yield E(e.par(16) + "++", 16, t, ok=e.ok, eff=True)
            yield E(pfx("--", e.par(14)), 15, t, ok=e.ok, eff=True, neg=True)
            yield E(e.par(15) + "=2.5", 2, t, ok=e.ok, eff=True)
            yield E(e.par(15) + "*=1.5f", 2, t, ok=e.ok and not e.neg and t not in ("char", "uc", "us", "ui"), eff=True)
            if not fl:
                yield E(e.par(15) + "<<=1L", 2, t, ok=e.ok and not e.neg, eff=True)
                yield E(e.par(15) + "|=u", 2, t, ok=e.ok, eff=True)
    if not (not isar(e.t) and e.t[0] == "fn"):
        yield E("sizeof " + (e.par(15) if e.p != 14 else "(" + e.s + ")"), 15, "ul", ok=True)
    if e.s[0] != "(" or e.p != 17:
        if e.p != 17:
            yield E("(" + e.s + ")", 17, e.t, e.q, e.l, e.rng, e.ok, eff=e.eff, neg=e.neg)


def member(e, s, mt, mq, l, ok):
    return E(s, 16, mt, mq, l, (-4, 4), ok and (l or isar(mt) or mt[0] != "arr"), eff=e.eff)


def near(t, q=0):
    """types close to t, none compatible with it or with each other"""
    r = []
    if isar(t):
        r = [x for x in ("int", "ui", "long", "ul", "char", "sc", "double", "float", "ll", "sh", "bool") if x != t]
        return r
    if t[0] == "ptr":
        T = t[2]
        r.append(("ptr", 1 - t[1], T)) if not (not isar(T) and T[0] == "fn") and not (not isar(T) and T[0] == "arr") else None
        for T2 in ("int", "char", "long", ("void",), ("ptr", 0, "int"), ("rec", "S"), ("rec", "T"), ("ptr", 0, ("rec", "S")), ("ptr", 1, "int"), ("arr", 3, 0, "int"), ("arr", 4, 0, "int"), ("arr", 3, 1, "int"), ("fn", "fi"), ("fn", "fp")):
            if T2 != T:
                r.append(("ptr", 0, T2))
        r += ["long", "int"]
        return r
    return ["int", ("ptr", 0, t), ("rec", "S" if t[1] == "T" else "T")] if t[0] == "rec" else []


PRELUDE = r'''
void*memcpy(void*,const void*,unsigned long);
static int z;enum{EN=6};
struct T{short t;int*q;const char ca[3];};
struct S{int x;const char y;int a[4];struct T in;struct S*nx;int(*f)(int);const struct T ct;};
static int fi(int a){z=0;return a*3+1;}
#define AL _Alignas(256)
AL static int ia[9];static struct T ft(void){struct T r={9,ia+4};return r;}
AL static int i;AL static const int ci=4;AL static char c;AL static unsigned char uc;AL static short sh;AL static long l;AL static unsigned u;AL static unsigned long ul;AL static float f;AL static double d;AL static const double cd=2.25;AL static _Bool b;AL static signed char sc;
AL static unsigned short us;AL static long long ll;AL static unsigned long long ull;
AL static char sa[9];AL static struct S Sa[9];AL static int*pa_[9];AL static const int*pca[9];AL static int ma[9][3];
AL static int*p;AL static const int*pc;AL static int*const cp=ia+4;AL static char*s;AL static const char*cs;AL static int**pp;AL static void*v;AL static const void*cv;
AL static int arr[4];AL static int m2[2][3];AL static const char ca[5]={1,2,3,4,5};AL static struct S st;AL static const struct S cst={31,32,{33,34,35},{36,ia+4,{1,2}},Sa+4,fi,{37,ia+4,{4,5,6}}};
AL static struct S*ps;AL static const struct S*pcs;AL static int(*pf)(int);AL static int(*pa)[3];AL static const int*const cpc=ia+4;AL static const int**ppc;AL static char*apc[3];AL static int*const*pcp;
static void R(void){int k;z=0;i=3;c='x';uc=200;sh=-5;l=70000000000L;u=4000000000u;ul=9;f=2.5f;d=-3.25;b=1;sc=-7;us=65000;ll=-8;ull=10;
 for(k=0;k<9;k++){ia[k]=k*3-4;sa[k]=k+60;Sa[k].x=k;*(char*)&Sa[k].y=k+1;Sa[k].a[0]=k+10;Sa[k].a[1]=k+11;Sa[k].a[2]=k+12;Sa[k].a[3]=k+13;Sa[k].in.t=k-3;Sa[k].in.q=ia+4;Sa[k].nx=Sa+4;Sa[k].f=fi;*(short*)&Sa[k].ct.t=k-5;*(int**)&Sa[k].ct.q=ia+4;pa_[k]=ia+4;pca[k]=ia+4;ma[k][0]=k;ma[k][1]=k+20;ma[k][2]=k+40;
  ((char*)Sa[k].in.ca)[0]=k;((char*)Sa[k].in.ca)[1]=k+2;((char*)Sa[k].in.ca)[2]=k+4;((char*)Sa[k].ct.ca)[0]=k+6;((char*)Sa[k].ct.ca)[1]=k+8;((char*)Sa[k].ct.ca)[2]=k+9;}
 p=ia+4;pc=ia+4;s=sa+4;cs=sa+4;pp=pa_+4;v=sa;cv=ia;for(k=0;k<4;k++)arr[k]=k+50;for(k=0;k<6;k++)((int*)m2)[k]=k+60;memcpy(&st,Sa+2,sizeof st);ps=Sa+4;pcs=Sa+4;pf=fi;pa=ma+4;ppc=pca+4;apc[0]=apc[1]=apc[2]=sa+4;pcp=pa_+4;}
static const struct{const void*a;unsigned long n;}tab[]={
#define X(o) {&o,sizeof o},
X(i)X(ci)X(c)X(uc)X(sh)X(l)X(u)X(ul)X(f)X(d)X(cd)X(b)X(sc)X(us)X(ll)X(ull)X(ia)X(sa)X(Sa)X(pa_)X(pca)X(ma)X(p)X(pc)X(cp)X(s)X(cs)X(pp)X(v)X(cv)X(arr)X(m2)X(ca)X(st)X(cst)X(ps)X(pcs)X(pf)X(pa)X(cpc)X(ppc)X(apc)X(pcp)
};
static void op(const void*q){unsigned k;if(!q){o(0xffff);return;}if(q==(void*)fi){o(0xfffe);return;}for(k=0;k<sizeof tab/sizeof*tab;k++)if((const char*)q>=(const char*)tab[k].a&&(const char*)q<=(const char*)tab[k].a+tab[k].n){o(k);o((const char*)q-(const char*)tab[k].a);return;}os("tmp");}
static void fin(void){o(i);o(c);o(uc);o(sh);o(l);o(u);od(f);od(d);op(p);op(s);op(ps);op(pp);op(pa);o(arr[0]+arr[1]*3);o(m2[0][0]+m2[1][0]*7);o(st.x);o(st.in.t);o(Sa[4].x);o(Sa[4].a[0]);o(ia[4]);o(ia[5]);}
'''


def typed(c):
    seen = {}
    level = list(ATOMS)
    allE = list(ATOMS)
    depth = 3 if THOROUGH else 2
    for dpt in range(depth):
        nxt = []
        for e in level:
            for n in unary_like(e):
                if n.s in seen or len(n.s) > 60:
                    continue
                seen[n.s] = 1
                nxt.append(n)
        allE += nxt
        # the deepest level grows from a representative of every (type, form) pair
        if dpt == 1:
            rep, cnt = [], {}
            for n in nxt:
                k = (repr(n.t), n.q, n.l, n.p, n.ok)
                cnt[k] = cnt.get(k, 0) + 1
                if cnt[k] <= (40 if THOROUGH else 3):
                    rep.append(n)
            if not THOROUGH:
                for e in rep:
                    for n in unary_like(e):
                        if n.s not in seen and len(n.s) <= 60:
                            seen[n.s] = 1
                            allE.append(n)
            nxt = rep
        level = nxt
    cs = []
    for e in allE:
        t, rng = e.rv()
        if "(_Bool)(0," in e.s:
            continue  # gcc 13 fails with an internal error
        if t == ("void",) or "[" in e.s and e.s.startswith("0[0"):
            continue
        b, exp = "", None
        if not (not isar(e.t) and e.t[0] == "fn"):
            b += "o(sizeof(%s));" % e.s
            b += "o(_Generic((%s),%s:1,%s,default:0));" % (e.s, decl(t), ",".join("%s:%d" % (decl(x), k + 2) for k, x in enumerate(near(t)))) if t[0] != "rec" or isar(t) else "o(_Generic((%s),%s:1,int:2,%s*:3,default:0));" % (e.s, decl(t), decl(t))
            exp = "%x 1" % sizeof(e.t)
        else:
            b += "o(_Generic((%s),%s:1,%s,default:0));" % (e.s, decl(t), ",".join("%s:%d" % (decl(x), k + 2) for k, x in enumerate(near(t))))
            exp = "1"
        if e.l and not (not isar(e.t) and e.t[0] == "fn"):
            pt = ("ptr", 0 if not isar(e.t) and e.t[0] == "arr" else int(bool(e.q)), ("arr", e.t[1], int(bool(e.t[2] or e.q)), e.t[3]) if not isar(e.t) and e.t[0] == "arr" else e.t)
            alt = ",".join("%s:%d" % (decl(x), k + 2) for k, x in enumerate(near(pt)))
            b += "o(_Generic(&(%s),%s:1,%s,default:0));" % (e.s, decl(pt), alt)
            exp += " 1"
        if e.ok:
            if isar(t):
                b += "R();%s;fin();" % (("od(%s);" if t in ("float", "double") else "o(%s);") % ("(" + e.s + ")"))
            elif t[0] == "ptr":
                b += "R();op((const void*)(%s));fin();" % e.s if not (not isar(t[2]) and t[2][0] == "fn") else "R();op((void*)(%s));fin();" % e.s
        k = PCase("type " + e.s, b, "", None)
        k.steps = exp
        cs.append(k)
    pr = Printer(c, PRELUDE)
    c.extra["typed_expressions"] = len(cs)

    def xc(group):
        ref = parse_marks(pr.run_gcc(tu(group, PRELUDE)))
        for i, k in enumerate(group):
            r = ref.get(i, "")
            if not (r + " ").startswith(k.steps + " "):
                raise CheckError("type model disagrees with gcc: %s\nmodel %s\ngcc   %s" % (k.key, k.steps, r))
            k.expect = r
    pmap(xc, chunks(cs, 120))
    pr.run(cs, 60)
    for s in cs[:: max(1, len(cs) // 5)]:
        c.samples.append(s.key)


# --------------------------------------------------------------------- 3. pairs of arithmetic types
def matrix(c):
    ty = list(CN)
    cs = []
    val = {"char": "'p'", "sc": "-3", "uc": "250", "sh": "-300", "us": "65530", "int": "-70000", "ui": "4000000000u", "long": "-5000000000L", "ul": "10000000000000000000u", "ll": "-6LL", "ull": "7ull", "float": "2.5f", "double": "-1.25", "bool": "1"}
    pre = "".join("static %s x_%s=%s,y_%s=%s;\n" % (CN[t], t, val[t], t, val[t]) for t in ty)
    alltypes = ["int", "ui", "long", "ul", "ll", "ull", "float", "double", "char", "sc", "uc", "sh", "us", "bool"]
    g = "_Generic((%s)," + ",".join("%s:%d" % (CN[t], i + 1) for i, t in enumerate(alltypes)) + ")"
    idx = {t: i + 1 for i, t in enumerate(alltypes)}
    for a in ty:
        for b in ty:
            fl = "float" in (a, b) or "double" in (a, b)
            ops = ["+", "-", "*", "/", "<", "==", "!=", ">=", "&&", "||", "=", "+=", "-=", "*=", "/=", ",", "?"] + ([] if fl else ["%", "&", "|", "^", "<<", ">>", "%=", "&=", "|=", "^=", "<<=", ">>="])
            bd, exp = "", []
            for o in ops:
                x, y = "x_" + a, "y_" + b
                e = "%s?%s:%s" % ("y_int", x, y) if o == "?" else "%s%s%s" % (x, o, y)
                if o in ("<", "==", "!=", ">=", "&&", "||"):
                    r = "int"
                elif o.endswith("="):
                    r = a
                elif o == ",":
                    r = b
                elif o in ("<<", ">>"):
                    r = promote(a)
                else:
                    r = usual(a, b)
                bd += "o(%s);o(sizeof(%s));" % (g % e, e)
                exp += [idx[r], SIZE[r]]
            cs.append(PCase("types %s x %s" % (CN[a], CN[b]), bd, "", " ".join("%x" % v for v in exp)))
    lits = ["0", "1u", "1U", "1l", "1L", "1ul", "1lu", "1LU", "1ll", "1LL", "1ull", "1llu", "1ULL", "1LLu", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "0x7fffffff", "0x80000000", "0xffffffff", "0x100000000", "0x7fffffffffffffff", "0x8000000000000000",
            "0xffffffffffffffff", "017777777777", "020000000000", "037777777777", "040000000000", "0777777777777777777777", "01777777777777777777777", "4294967295u", "4294967296u", "0xffffffffu", "0x1ffffffffu", "0x80000000l", "0xffffffffffffffffl", "0x8000000000000000ll", "18446744073709551615u", "2147483648u", "0b101", "0B11u",
            "1.", ".5", "1e3", "1e-3f", "1.5F", "0x1p3", "0x1.8p-1f", "1.0", "'a'", "'\\377'", "'ab'", "L'a'", "u'a'", "U'a'", "sizeof(int)", "_Alignof(double)", "EN1", "EN2", "(char)1", "-1", "- 2147483648", "-2147483647-1", "1 == 1", "!1.5", "~'a'", "+(char)1", "'a'+'b'", "1?1:2u", "0?1:2L", "1.5f+1", "1.5f+1L", "1.5f*1.0"]
    g2 = "_Generic((%s)," + ",".join("%s:%d" % (CN[t], i + 1) for i, t in enumerate(alltypes)) + ")"
    for l in lits:
        cs.append(PCase("literal " + l, "o(%s);o(sizeof(%s));%s(%s);" % (g2 % l, l, "od" if ("." in l or "e" in l and "0x" not in l and "sizeof" not in l or "p" in l) and "!" not in l and "Align" not in l and "sizeof" not in l else "o", l), "enum{EN1=5@@*0,EN2=-1};".replace("5@@*0", "5") if l.startswith("EN") else ""))
    pr = Printer(c, pre, gccflags=["-Wno-overflow", "-std=gnu2x" if False else "-std=gnu17"])
    # enumerators cannot be repeated in one file
    for k in cs:
        if k.glob:
            k.body = k.body.replace("EN1", "EN1_@@").replace("EN2", "EN2_@@")
            k.glob = k.glob.replace("EN1", "EN1_@@").replace("EN2", "EN2_@@")
    share = [k for k in cs if k.expect]

    def xc(group):
        ref = parse_marks(pr.run_gcc(tu(group, pre)))
        for i, k in enumerate(group):
            if ref.get(i) != k.expect:
                raise CheckError("type model disagrees with gcc: %s\nmodel %s\ngcc   %s" % (k.key, k.expect, ref.get(i)))
    pmap(xc, chunks(share, 40))
    pr.run(cs, 30)
    c.extra["type_pairs"] = len(share)
    c.extra["literals"] = len(lits)


SPECIAL = [
    # grouping of casts, sizeof, compound literals, generic selections
    "sizeof(int)*2", "sizeof(int)*y", "sizeof (q)[0]", "sizeof(int[]){1,2,3}", "sizeof (x)-1", "sizeof x-1", "sizeof -x", "sizeof(x)+1", "(x)-1", "(x)+(y)", "(int)-1", "(int)+x*2", "-(int)x", "(int)(x)", "(char)x+300", "(char)(x+300)", "(x)*y", "(int)*q", "(x)&y", "(long)&x==(long)&x", "!(x)", "~(int)x",
    "(int[]){1,2,3}[1]", "&(int){3}!=0", "(struct K){4,5}.b", "-(struct K){4,5}.b", "(&(struct K){4,5})->b", "(struct K){4,5}.b++", "sizeof(struct K){1}.a", "sizeof (struct K){1}", "*(int[]){7,8}+1", "*&x*2", "x--- -y", "x++ + ++y", "x- -y", "x-(-y)", "- -x", "-(-x)", "!!x", "~~x", "!~x", "-!x",
    "*q+1", "*(q+1)", "q[1]*2", "(*q)++", "*q++", "++*q", "*++q", "&*q==q", "&q[2]-q", "&q[1]==q+1", "&*&x==&x", "**&q", "*&*q", "-*q", "!*q", "(*q)--", "*--q", "q++[0]", "(q)[1]", "1[q]", "(q+1)[-1]", "-q[1]", "++q[1]", "q[1]++", "q[x-x]", "q[x=0]", "q[x,1]", "q[x?1:0]",
    "k.a", "k.p->a", "(*k.p).a", "k.p->p->b", "*k.p->v", "k.v[1]", "&k.v[1]-k.v", "k.p->v[1]", "(&k)->v[1]", "-k.a", "k.a++", "++k.a", "--k.p->a", "(k).a", "(&k)[0].b", "sizeof k.v", "sizeof k.v[0]", "(*(&k)).v[0]", "fk().a", "fk().v[1]", "fk().p->b", "(x?k:fk()).b", "(k=fk()).a", "(0,k).a", "(k,fk()).b",
    "f(1)", "(f)(1)", "(*f)(1)", "(&f)(1)", "(**f)(1)", "(***&f)(1)", "ff(2)(3)", "(*ff(2))(3)", "fa[1](4)", "(*fa[1])(4)", "k.f(5)", "(*k.f)(5)", "k.p->f(6)", "f((1,2))", "f(x=2)", "f(x?1:2)", "f(f(f(1)))", "(x?f:g)(2)", "(0,f)(1)", "-f(1)", "f(1)+f(2)*f(3)", "*fp(1)", "fp(1)[1]", "&*fp(0)==q", "fp(0)==q", "!f", "f==g", "f!=0", "&f==f", "f&&g", "f?1:2",
    "x?y:1?2:3", "x?y?1:2:3", "0?1:0?2:3", "x?1,2:3", "x=y?1:2", "x=1?2:3", "1?x:y", "(1?x:y)+1", "1?x:y+1", "x?y=3:4", "x==2?y:y==1?5:6", "x||y?1:2", "x&&0?1:2", "!x?1:2", "x?0:0?1:2", "x?:y"[:0] or "x", "x<y?x:y", "x=y=3", "x=y+=2", "x+=y=2", "x-=y-=1", "x<<=y", "x=2,y=3", "(x=2,y=3)", "x=(2,3)", "x,y", "x=1,x+1", "(x,y),1",
    "1+2*3", "(1+2)*3", "1-2-3", "1-(2-3)", "100/10/2", "100/(10/2)", "7%4%2", "7%(4%2+1)", "1<<2<<3", "1<<(2<<1)", "256>>2>>1", "1<2<3", "3>2>1", "1==1==1", "2!=1!=1", "1|2^3&4", "(1|2)^3&4", "1&2==2", "(1&2)==2", "1+2<<3", "1+(2<<3)", "1<2==1", "1||0&&0", "(1||0)&&0", "0&&1||1", "!1+1", "!(1+1)", "~1+1", "-1-1", "2- -2", "2+ +2", "-2*-3", "1?2:3+4", "-5/2", "-5%3", "5%-3", "-1>>1", "-1u>>31", "1.5+1/2", "1/2*2.0", "1/2.0*2", "'a'+1", "\"abc\"[1]", "*\"abc\"", "\"abc\"+1==0", "sizeof\"abc\"", "sizeof\"abc\"[0]", "sizeof'a'", "sizeof(char)", "sizeof x+sizeof y", "sizeof sizeof x", "!sizeof x", "-sizeof(char)",
    "_Generic(x,int:1,default:2)+1", "_Generic(1.0,float:1,double:2,default:3)", "_Generic(\"a\",char*:1,const char*:2)", "_Generic(q,int*:1,void*:2)", "_Generic(f,int(*)(int):1,default:0)", "_Generic(k,struct K:1,default:0)", "_Generic(&k,struct K*:1,default:0)", "_Generic(x,default:1,int:2)", "_Generic(x,long:1,default:2,char:3)", "_Generic((char)1,char:f,default:g)(3)",
    "_Generic(x,int:k,default:x).b", "_Generic(1L,default:5,long:x++)", "_Generic(x++,int:1)", "_Generic(1,int:(1,2))", "_Generic('a',char:1,int:2)", "_Generic(x?1:1L,long:1,int:2)", "_Generic((const int)1,int:1,default:2)", "_Generic(0,default:1)", "_Generic(k.v,int*:1,default:2)", "_Generic(&k.v,int(*)[2]:1,default:2)", "_Generic(f(1),int:_Generic(1u,unsigned:4,default:5),default:6)", "_Generic(x,int:x=5,default:x=6)",
    "_Generic(1u,unsigned:1,int:2)", "_Generic(1ll,long:1,long long:2)", "_Generic((short)1,short:1,int:2)", "_Generic(+(short)1,short:1,int:2)", "_Generic((void*)0,void*:1,int:2)", "_Generic((float)1,double:1,float:2)", "_Generic((_Bool)1,_Bool:1,int:2)", "_Generic(x==1,_Bool:1,int:2)", "_Generic((struct K*)0,struct K*:1,void*:2)", "_Generic((int(*)[3])0,int(*)[2]:1,int(*)[3]:2)", "_Generic((int**)0,int*:1,int**:2)",
    "__func__[0]=='c'", "sizeof __func__>5", "_Alignof(int)+1", "_Alignof(struct K)", "_Alignof(char[3])", "(int){x}+(int){y}", "(char){300}", "((void)x,5)", "(x=3,(void)0,x)", "x&&(y=7)", "x||(y=7)", "0&&(y=7)", "(unsigned char)~0", "(signed char)128", "(_Bool)0.5", "(_Bool)&x", "(int)3.99", "(unsigned)-1==-1", "-1<1u", "-1L<1u", "(short)-1<1u", "(unsigned short)-1>-1",
]
SPRE = "struct K{int a,b;struct K*p;int v[2];int(*f)(int);};\nstatic int x,y,w[6],*q,z;static struct K k,k2;static int f(int a){return a*2+1;}static int g(int a){return a*5;}static struct K fk(void){struct K r={71,72,&k2,{73,74},g};return r;}\nstatic int(*ff(int a))(int){return a==2?f:g;}static int(*fa[2])(int)={f,g};static int*fp(int n){return q+n;}\n" \
       "static void R(void){x=2;y=3;w[0]=10;w[1]=11;w[2]=12;w[3]=13;w[4]=14;w[5]=15;q=w+2;k2.a=21;k2.b=22;k2.p=&k;k2.v[0]=23;k2.v[1]=24;k2.f=f;k.a=31;k.b=32;k.p=&k2;k.v[0]=33;k.v[1]=34;k.f=g;}\n"


def special(c):
    cs = []
    for e in dict.fromkeys(SPECIAL):
        cs.append(PCase("special " + e, "R();o((%s)%s);o(x);o(y);o(q-w);o(w[0]);o(w[1]);o(k.a);o(k2.a);R();o(%s);o(sizeof(%s));if(%s)o(1);else o(2);" % (e, "", "(" + e + ")" if "," in e else e, e, e) if not e.startswith("((void") or True else ""))
    Printer(c, SPRE).run(cs, 20)
    c.extra["special_forms"] = len(cs)


def main_(c):
    grouping(c)
    typed(c)
    matrix(c)
    special(c)
    c.extra["exhaustive"] = True


if __name__ == "__main__":
    main(main_, "C04", "exploration",
         "all operator sequences of up to 3 operators (prefix and postfix operators included) evaluated through a reference grammar; all expressions up to a depth of 2 (and 3 on representatives) over atoms of every type, sizes, types and values against a type model that is checked with gcc; all pairs of arithmetic types x operators",
         ["gcc confirms the type model on every typed expression and the grammar on a share of the operator sequences"])
