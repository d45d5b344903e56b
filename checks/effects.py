#!/usr/bin/env python3
"""C09: side effects, lvalues and pointers. Every sequence of statements up to a length over a small
aliased memory is executed by a model of the C memory and by compiled code; every expression tree up
to a size is compared with the set of evaluation orders C allows; every lvalue form x operator x type."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *


class Undef(Exception):
    pass


# --------------------------------------------------------------------- 1. statement sequences
# objects: name -> number of cells. A pointer is (object, index); int values wrap like T.
OBJ = {"x": 1, "y": 1, "g": 1, "a": 4, "sm": 1, "sv": 2, "tm": 1, "tv": 2}
INIT = {"x": [3], "y": [1], "g": [20], "a": [5, 6, 7, 8], "sm": [11], "sv": [12, 13], "tm": [14], "tv": [15, 16]}


class M:
    def __init__(self, bits, signed):
        self.m = {k: list(v) for k, v in INIT.items()}
        self.p, self.q, self.gp, self.ps = ("a", 1), ("x", 0), ("x", 0), "s"
        self.bits, self.signed = bits, signed

    def w(self, v):
        v &= (1 << self.bits) - 1
        return v - (1 << self.bits) if self.signed and v >> (self.bits - 1) else v

    def ld(self, p):
        if not 0 <= p[1] < OBJ[p[0]]:
            raise Undef
        return self.m[p[0]][p[1]]

    def st(self, p, v):
        if not 0 <= p[1] < OBJ[p[0]]:
            raise Undef
        self.m[p[0]][p[1]] = self.w(v)
        return self.w(v)

    def mv(self, p, d):
        if not 0 <= p[1] + d <= OBJ[p[0]]:
            raise Undef
        return (p[0], p[1] + d)

    def get(self, n):
        return self.m[n][0]

    def set(self, n, v):
        self.m[n][0] = self.w(v)


def s_pinc_q(m):
    v = m.ld(m.q)
    m.st(m.p, v)
    if m.p == m.q and False:
        raise Undef
    m.p = m.mv(m.p, 1)


def s_y_qinc(m):
    v = m.ld(m.q)
    m.q = m.mv(m.q, 1)
    m.set("y", v)


def s_decp(m):
    m.p = m.mv(m.p, -1)
    m.st(m.p, m.get("x"))


def s_f(m):
    m.set("g", m.get("g") + 1)
    m.st(m.gp, m.ld(m.gp) + 3)
    return m.get("g")


def s_swap(m):
    u, v = m.ld(m.p), m.ld(m.q)
    m.st(m.p, v)
    m.st(m.q, u)


def s_diff(m):
    if m.p[0] != m.q[0]:
        raise Undef
    m.set("y", m.p[1] - m.q[1])


def s_copy(d, s):
    def f(m):
        m.m[d + "m"] = list(m.m[s + "m"])
        m.m[d + "v"] = list(m.m[s + "v"])
    return f


def s_eq(m):
    # a one-past pointer may compare equal to another object
    for p in (m.p, m.q):
        if p[1] == OBJ[p[0]] and m.p[0] != m.q[0]:
            raise Undef
    m.set("y", int(m.p == m.q))


def s_cond(m):
    m.st(("x", 0) if m.ld(m.p) > m.get("y") else ("a", 3), 9)


def s_field(m):
    m.m[m.ps + "v"][m.get("y") & 1] = m.get("x")


def s_xchg(m):
    m.p, m.q = m.q, m.p


def s_bump2(m):
    # x = (y = *p) + y_old is undefined; this reads first, then writes in two statements
    t = m.ld(m.p)
    m.st(m.q, t + 1)
    m.set("y", t)


def s_loop(m):
    for i in range(3):
        m.m["a"][i + 1] = m.w(m.m["a"][i] + m.ld(m.q))


STMT = [
    ("*p=y;", lambda m: m.st(m.p, m.get("y"))), ("y=*q;", lambda m: m.set("y", m.ld(m.q))), ("p=q;", lambda m: setattr(m, "p", m.q)), ("q=p;", lambda m: setattr(m, "q", m.p)),
    ("p=&x;", lambda m: setattr(m, "p", ("x", 0))), ("q=a+2;", lambda m: setattr(m, "q", ("a", 2))), ("p++;", lambda m: setattr(m, "p", m.mv(m.p, 1))), ("*p++=*q;", s_pinc_q), ("y=*q++;", s_y_qinc), ("*--p=x;", s_decp),
    ("a[1]=x;", lambda m: m.st(("a", 1), m.get("x"))), ("a[y&3]=y;", lambda m: m.st(("a", m.get("y") & 3), m.get("y"))), ("x=a[y&3];", lambda m: m.set("x", m.ld(("a", m.get("y") & 3)))), ("y++;", lambda m: m.set("y", m.get("y") + 1)),
    ("x=f();", lambda m: m.set("x", s_f(m))), ("f();", lambda m: s_f(m)), ("s=t;", s_copy("s", "t")), ("t=*ps;", lambda m: s_copy("t", m.ps)(m)), ("*ps=s;", lambda m: s_copy(m.ps, "s")(m)), ("ps=&t;", lambda m: setattr(m, "ps", "t")), ("ps->m=x;", lambda m: m.set(m.ps + "m", m.get("x"))),
    ("ps->v[y&1]=x;", s_field), ("t.v[1]=y;", lambda m: m.st(("tv", 1), m.get("y"))), ("p=s.v;", lambda m: setattr(m, "p", ("sv", 0))), ("q=&ps->v[1];", lambda m: setattr(m, "q", (m.ps + "v", 1))), ("y=p-q;", s_diff), ("y=p==q;", s_eq), ("x+=*p;", lambda m: m.set("x", m.get("x") + m.ld(m.p))),
    ("*p+=*q;", lambda m: m.st(m.p, m.ld(m.p) + m.ld(m.q))), ("sw(p,q);", s_swap), ("gp=p;", lambda m: setattr(m, "gp", m.p)), ("g=x;", lambda m: m.set("g", m.get("x"))), ("y=g;", lambda m: m.set("y", m.get("g"))), ("y=(*p=x)+1;", lambda m: m.set("y", m.st(m.p, m.get("x")) + 1)),
    ("*(*p>y?&x:a+3)=9;", s_cond), ("{T*w=p;p=q;q=w;}", s_xchg), ("{T w=*p;*q=w+1;y=w;}", s_bump2), ("for(k=0;k<3;k++)a[k+1]=a[k]+*q;", s_loop), ("t.m=s.v[0]++;", lambda m: (m.set("tm", m.m["sv"][0]), m.st(("sv", 0), m.m["sv"][0] + 1))),
]
# the objects as locals, as static objects, and locals reached by a pointer held elsewhere
TY = {"int": (32, True), "signed char": (8, True), "unsigned short": (16, False), "long": (64, True)}
DECL = "T x=3,y=1,a[4]={5,6,7,8};struct S s={11,{12,13}},t={14,{15,16}};T*p=a+1,*q=&x;struct S*ps=&s;int k;g=20;gp=&x;"
SDECL = "static T x,y,a[4];static struct S s,t;T*p=a+1,*q=&x;struct S*ps=&s;int k;x=3;y=1;a[0]=5;a[1]=6;a[2]=7;a[3]=8;s.m=11;s.v[0]=12;s.v[1]=13;t.m=14;t.v[0]=15;t.v[1]=16;g=20;gp=&x;"
PRE1 = "typedef %s T;struct S{T m;T v[2];};static T g;static T*gp;static T f(void){g++;*gp+=3;return g;}static void sw(T*a,T*b){T t=*a;*a=*b;*b=t;}\n"
STATES = set()


def execute(prog, ty):
    """prog: list of (context, statement...) -> (C text, model) or None when undefined"""
    m = M(*TY[ty])
    n = 0
    for ctx, sts in prog:
        if ctx == "":
            for t, f in sts:
                f(m); n += 1
        elif ctx == "loop":
            for k in range(2):
                for t, f in sts:
                    f(m); n += 1
        elif ctx == "if":
            (sts[0] if m.get("y") & 1 else sts[1])[1](m); n += 1
        STATES.add(repr((m.m, m.p, m.q, m.gp, m.ps)))
    return m, n


def text(prog):
    s = ""
    for ctx, sts in prog:
        if ctx == "":
            s += "".join(t for t, f in sts)
        elif ctx == "loop":
            if any("(k=0" in t for t, f in sts):
                raise Undef
            s += "for(k=0;k<2;k++){" + "".join(t for t, f in sts) + "}"
        else:
            s += "if(y&1){" + sts[0][0] + "}else{" + sts[1][0] + "}"
    return s


def sequences(c):
    cs = {}

    def add(prog, ty, decl):
        try:
            m, n = execute(prog, ty)
            src = text(prog)
        except Undef:
            c.extra["undefined"] = c.extra.get("undefined", 0) + 1
            return
        c.transitions += n
        end = "o(x);o(y);o(g);o(a[0]);o(a[1]);o(a[2]);o(a[3]);o(s.m);o(s.v[0]);o(s.v[1]);o(t.m);o(t.v[0]);o(t.v[1]);"
        vals = [m.m["x"][0], m.m["y"][0], m.m["g"][0]] + m.m["a"] + m.m["sm"] + m.m["sv"] + m.m["tm"] + m.m["tv"]
        # where do the pointers point?
        for ptr, name, mark in ((m.p, "p", 101), (m.q, "q", 102), (m.gp, "gp", 103)):
            if 0 <= ptr[1] < OBJ[ptr[0]]:
                src += "*%s=%d;" % (name, mark) if False else ""
                end += "o(*%s);*%s=%d;" % (name, name, mark)
                vals.append(m.ld(ptr))
                m.st(ptr, mark)
        end += "ps->m=99;o(s.m);o(t.m);o(x);o(y);o(a[0]);o(a[1]);o(a[2]);o(a[3]);"
        m.set(m.ps + "m", 99)
        vals += [m.m["sm"][0], m.m["tm"][0], m.m["x"][0], m.m["y"][0]] + m.m["a"]
        exp = " ".join("%x" % (v & 0xffffffffffffffff) for v in vals)
        cs.setdefault(ty, []).append(PCase("seq %s %s %s" % (ty, "static" if decl is SDECL else "local", src), decl + src + end, "", exp))
    n = len(STMT)
    for L in (1, 2, 3):
        for p in itertools.product(STMT, repeat=L):
            add([("", p)], "int", DECL)
    for L in (1, 2) + ((3,) if THOROUGH else ()):
        for p in itertools.product(STMT, repeat=L):
            for ty in TY:
                for d in (DECL, SDECL):
                    if (ty, d) != ("int", DECL):
                        add([("", p)], ty, d)
            if L == 2:
                add([("loop", p)], "int", DECL)
                add([("if", p)], "int", DECL)
    third = STMT if THOROUGH else [STMT[i] for i in (0, 1, 7, 14, 16, 18, 28, 33)]
    for p in itertools.product(STMT, repeat=2):
        for t in third:
            add([("", p[:1]), ("if", (p[1], t)), ("", (STMT[1],))], "int", DECL)
            add([("if", p), ("", (t,))], "int", DECL)
            add([("loop", p), ("", (t,))], "signed char", DECL)
    tot = 0
    for ty, l in cs.items():
        tot += len(l)
        pre = PRE1 % ty
        pr = Printer(c, pre)
        # the model itself is compared with the reference implementation on a share
        share = l if THOROUGH else l[::23]

        def xc(group):
            ref = parse_marks(pr.run_gcc(tu(group, pre)))
            for i, k in enumerate(group):
                if ref.get(i) != k.expect:
                    raise CheckError("memory model disagrees with gcc: %s\nmodel %s\ngcc   %s" % (k.key, k.expect, ref.get(i)))
        pmap(xc, chunks(share, 150))
        pr.run(l, 120)
        c.samples += [k.key for k in l[:: max(1, len(l) // 3)]]
    c.states = len(STATES)
    c.traces = tot
    c.extra["statement_sequences"] = tot


# --------------------------------------------------------------------- 2. evaluation orders
def shapes(n, ops, memo={}):
    """all trees with n leaves"""
    if n == 1:
        return ["L"]
    if (n, ops) in memo:
        return memo[n, ops]
    r = []
    for i in range(1, n):
        for a in shapes(i, ops):
            for b in shapes(n - i, ops):
                r += [(o, a, b) for o in ops]
    for i in range(1, n - 1):
        for j in range(1, n - i):
            for a in shapes(i, ops):
                for b in shapes(j, ops):
                    for d in shapes(n - i - j, ops):
                        r.append(("?", a, b, d))
    memo[n, ops] = r
    return r


def number(t, ctr):
    if t == "L":
        ctr[0] += 1
        return ("L", ctr[0] - 1)
    return (t[0],) + tuple(number(x, ctr) for x in t[1:])


def show(t):
    k = t[0]
    if k == "L":
        return "L(%d)" % t[1]
    if k == "?":
        return "(%s?%s:%s)" % tuple(map(show, t[1:]))
    if k == "f":
        return "F(%s,%s)" % (show(t[1]), show(t[2]))
    if k == "[":
        return "(*W(%s)=%s)" % (show(t[1]), show(t[2]))
    if k == "p":
        return "(*P)(%s)(%s)" % (show(t[1]), show(t[2]))
    return "(%s%s%s)" % (show(t[1]), k, show(t[2]))


def shuffle(a, b):
    if not a:
        return {b}
    if not b:
        return {a}
    return {a[:1] + r for r in shuffle(a[1:], b)} | {b[:1] + r for r in shuffle(a, b[1:])}


def outcomes(t, mask, c):
    """set of (value, log): every order of evaluation C11 allows; function bodies do not interleave"""
    k = t[0]
    if k == "L":
        return {(mask >> t[1] & 1, "%d" % t[1])}
    if k == "?":
        r = set()
        for v, l in outcomes(t[1], mask, c):
            r |= {(v2, l + l2) for v2, l2 in outcomes(t[2] if v else t[3], mask, c)}
        return r
    A = outcomes(t[1], mask, c)
    if k in ("&&", "||"):
        r = set()
        for v, l in A:
            if bool(v) == (k == "||"):
                r.add((int(bool(v)), l))
            else:
                r |= {(int(bool(v2)), l + l2) for v2, l2 in outcomes(t[2], mask, c)}
        return r
    B = outcomes(t[2], mask, c)
    if k == ",":
        return {(v2, l + l2) for v, l in A for v2, l2 in B}
    r = set()
    for v, l in A:
        for v2, l2 in B:
            for s in shuffle(l, l2):
                if k == "+":
                    r.add((v + v2, s))
                elif k == "<":
                    r.add((int(v < v2), s))
                elif k == "f":
                    r.add((v * 2 + (v2 ^ 1), s + "f"))
            if k == "[":
                # W(i) is called after its argument, any time in between for the rest
                for s in shuffle(l + "w", l2):
                    r.add((v2, s))
            if k == "p":
                for s in shuffle(l + "q", l2):
                    r.add((v2 ^ v, s + "r"))
    c.transitions += len(r)
    return r


PRE2 = '''static int mask,n;static char lg[64];static int cell[4];static int L(int k){lg[n++]='0'+k;return mask>>k&1;}static int F(int a,int b){lg[n++]='f';return a*2+(b^1);}
static int*W(int a){lg[n++]='w';return cell+(a&3);}static int sv;static int R(int b){lg[n++]='r';return b^sv;}static int(*Q(int a))(int){lg[n++]='q';sv=a;return R;}static int(*(*P)(int))(int)=Q;
'''


def orders(c):
    ops = ("+", "&&", "||", ",", "f", "[", "<")
    cs = []
    trees = []
    for n in (1, 2, 3):
        trees += shapes(n, ops + ("p",))
    trees += shapes(4, ops)
    trees += shapes(5, ("+", "&&", "||", ",", "f") if THOROUGH else ("+", "&&", ","))
    for s in trees:
        ctr = [0]
        t = number(s, ctr)
        if repr(t).count("'p'") > 1 or repr(t).count("'['") > 1 and repr(t).count("'['") + 0 > 2:
            continue
        n = ctr[0]
        allowed = [outcomes(t, m, c) for m in range(1 << n)]
        sets = [{"%x %s" % (v & 0xffffffffffffffff, l) for v, l in a} for a in allowed]

        def ok(got, sets=sets):
            g = (got or "").split()
            return len(g) == 2 * len(sets) and all(g[2 * i] + " " + g[2 * i + 1] in sets[i] for i in range(len(sets)))
        ok.__doc__ = "per leaf mask one of " + " | ".join("{" + ",".join(sorted(s)[:6]) + "}" for s in sets)
        cs.append(PCase("order " + show(t), "int r;for(mask=0;mask<%d;mask++){n=0;r=%s;lg[n]=0;o(r);os(lg);}" % (1 << n, show(t)), "", ok))
        if repr(t).count("'&&'") + repr(t).count("'||'") + repr(t).count("'?'") and n < 4:
            # the value decides a branch instead
            sb = [{"%x %s" % (bool(v), l) for v, l in a} for a in allowed]

            def okb(got, sets=sb):
                g = (got or "").split()
                return len(g) == 2 * len(sets) and all(g[2 * i] + " " + g[2 * i + 1] in sets[i] for i in range(len(sets)))
            okb.__doc__ = "per leaf mask one of " + " | ".join("{" + ",".join(sorted(s)[:6]) + "}" for s in sb)
            cs.append(PCase("order if " + show(t), "int r;for(mask=0;mask<%d;mask++){n=0;if(%s)r=1;else r=0;lg[n]=0;o(r);os(lg);}" % (1 << n, show(t)), "", okb))
            cs.append(PCase("order while " + show(t), "int r;for(mask=0;mask<%d;mask++){n=0;r=0;while(%s){r=1;break;}lg[n]=0;o(r);os(lg);}" % (1 << n, show(t)), "", okb))
    pr = Printer(c, PRE2)
    share = cs[::7]

    def xc(group):
        ref = parse_marks(pr.run_gcc(tu(group, PRE2)))
        for i, k in enumerate(group):
            if not k.expect(ref.get(i)):
                raise CheckError("gcc's order is not allowed by the model: %s\nmodel %s\ngcc   %s" % (k.key, k.expect.__doc__, ref.get(i)))
    pmap(xc, chunks(share, 100))
    pr.run(cs, 80)
    c.extra["order_trees"] = len(cs)
    c.samples += [k.key for k in cs[:: max(1, len(cs) // 4)]]


# --------------------------------------------------------------------- 3. lvalue forms x operators x types
TYPES = {"signed char": "i", "unsigned char": "i", "short": "i", "unsigned short": "i", "int": "i", "unsigned": "i", "long": "i", "unsigned long": "i", "float": "f", "double": "f", "_Bool": "b", "long long": "i"}
FORMS = ["x", "(x)", "*&x", "lx", "a[i++]", "a[--i]", "i[a]", "*p++", "*--p", "*++p", "p[-1]", "(*pp)[1]", "*(*pp)++", "*f(1)", "f(0)[2]", "s.m", "ps->m", "(ps++)->m", "(*--ps).m", "sa[i++].m", "fs(1)->m", "fs(0)->in.m", "sa[k(2)].in.v[k(1)]", "a[k(3)]", "*(k(1)?&x:a)", "*(i++,&a[i])", "m2[i++][j--]", "u.m",
         "pv[0]", "*(T*)v", "la[i]", "ls.in.v[i&1]", "(*pa)[i++]", "ps->in.v[j++]", "*ap[i--]", "*&*&a[i++]", "(&s)->in.m", "prm", "*q"]
BFORMS = ["s.b", "ps->b", "(ps++)->b", "sa[i++].b", "fs(1)->b", "ls.b", "s.c", "sa[k(2)].c", "(*--ps).c"]
PRE3 = '''typedef %s T;struct I{T m;T v[2];};struct S{char pad;T m;struct I in;%sint tail;};
static T x,a[8],m2[3][4],*p,**pp,*pv;static struct S s,sa[5],*ps;static union{T m;unsigned long w;}u;static int i,j,cnt;static void*v;static T(*pa)[8],*ap[3];
static T*f(int n){cnt+=n+1;return a+n;}static struct S*fs(int n){cnt+=10+n;return sa+n;}static int k(int n){cnt+=100;return n;}
static void R(void){int n,w;cnt=0;i=2;j=1;x=5;for(n=0;n<8;n++)a[n]=n+2;for(n=0;n<3;n++)for(w=0;w<4;w++)m2[n][w]=n+w;p=a+3;pv=a+4;pp=&pv;ps=sa+2;v=a+5;pa=&a;u.w=0;u.m=1;
 for(n=0;n<5;n++){sa[n].pad=n;sa[n].m=n+3;sa[n].in.m=n+4;sa[n].in.v[0]=n+5;sa[n].in.v[1]=n+6;sa[n].tail=n;%s}s=sa[3];ap[0]=a;ap[1]=&x;ap[2]=a+7;}
static void DT(T t){%s(t);}
static void D(void){int n,w;o(i);o(j);o(cnt);DT(x);for(n=0;n<8;n++)DT(a[n]);for(n=0;n<3;n++)for(w=0;w<4;w++)DT(m2[n][w]);o(p-a);o(pv-a);o(ps-sa);o(u.w);for(n=0;n<6;n++){struct S*q=n==5?&s:sa+n;o(q->pad);DT(q->m);DT(q->in.m);DT(q->in.v[0]);DT(q->in.v[1]);o(q->tail);%s}}
'''


def lvalues(c):
    tot = 0
    for t, kind in TYPES.items():
        bits = kind in "ib"
        bw = 1 if t == "_Bool" else {"signed char": 5, "unsigned char": 7, "short": 11, "unsigned short": 9, "int": 17, "unsigned": 29, "long": 37, "unsigned long": 33, "long long": 41}.get(t)
        bt = {"long long": "long"}.get(t, t)
        pre = PRE3 % (t, ("%s b:%d;%s c:%d;" % (t, bw, t, max(1, bw - 3)) if bits else ""), "sa[n].b=1;sa[n].c=n&1;" if bits else "", "od" if kind == "f" else "o", "o(q->b);o(q->c);" if bits else "")
        ops = ["%s=%s", "%s+=%s", "%s-=%s", "%s*=%s", "%s/=%s"] + (["%s%%=%s", "%s<<=%s", "%s>>=%s", "%s&=%s", "%s^=%s", "%s|=%s"] if kind != "f" else [])
        rhs = ["3", "y", "(k(2)+1)"] if kind == "i" else ["1.5", "y", "k(2)"] if kind == "f" else ["1", "y"]
        if kind == "i":
            rhs.append("1.25")
        if THOROUGH:
            rhs += ["(char)-1", "2u", "1L", "2.5f"]
        cs = []
        for f in FORMS + (BFORMS if bits else []):
            es = []
            for o in ops:
                for r in rhs:
                    if "." in r and o[2:3] in "%<>&^|":
                        continue
                    if o[2:3] in "<>" and (r in ("(char)-1",) or kind == "b" and False):
                        continue
                    if r == "(char)-1" and o[2] in "+-*/%=" and kind == "b":
                        continue
                    es.append(o % (f, r))
            es += ["++" + f, "--" + f, f + "++" if f[0] not in "*" else "(" + f + ")++", f + "--" if f[0] not in "*" else "(" + f + ")--"]
            if kind == "b":
                es = [e for e in es if "/=" not in e or True]
            for e in es:
                body = "T prm_=6;T lx=4,y=2,la[4]={1,2,3,4};struct S ls;T*q=&lx;R();ls=sa[1];"
                # prm: a parameter
                if f == "prm":
                    cs.append(PCase("lv %s: %s" % (t, e), "R();pr_@@(6);D();", "static void pr_@@(T prm){T y=2;%s;DT(%s);DT(prm);}" % (e, e), None))
                    continue
                body += "DT(%s);D();DT(lx);DT(la[0]);DT(la[1]);DT(la[2]);DT(la[3]);DT(ls.in.v[0]);DT(ls.in.v[1]);DT(y);%s" % (e, "o(ls.b);o(ls.c);" if bits else "")
                body += "R();%s;D();DT(lx);" % e
                cs.append(PCase("lv %s: %s" % (t, e), body, "", None))
        Printer(c, pre, gccflags=["-Wno-all"]).run(cs, 40)
        tot += len(cs)
        c.samples.append(cs[len(cs) // 2].key)
    c.extra["lvalue_cases"] = tot


# --------------------------------------------------------------------- 4. pointer arithmetic
ELEMS = ["char", "short", "struct{char c[3];}", "int", "struct{char c[5];}", "struct{short c[3];}", "long", "struct{char c[7];}", "double", "struct{int c[3];}", "struct{long c[2];}", "struct{char c[17];}", "struct{long c[3];}", "struct{char c[100];}", "int*", "struct{char c[4096];}"]
INDEX = ["signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "_Bool"]


def pointers(c):
    cs = []
    for e in ELEMS:
        for it in INDEX:
            neg = "unsigned" not in it and it != "_Bool"
            vals = [0, 1] + ([2, 3, 5] if it != "_Bool" else []) + ([-1, -2, -4] if neg else [])
            g = "typedef %s E_@@;static E_@@ b_@@[12];" % e
            body = "E_@@*p,*q,*const m=b_@@+5;%s i;" % it
            for v in vals:
                body += "i=%d;p=m+i;o(p-b_@@);o((char*)p-(char*)m);p=i+m;o(p-m);p=m-i;o(p-m);o(m-p);o(&m[i]-m);o(&i[m]-m);p=m;p+=i;o(p-m);p-=i;p-=i;o(p-m);q=m+i;o(q<m);o(q<=m);o(q>m);o(q>=m);o(q==m);o(q!=m);o((char*)(m+i+1)-(char*)m);o((char*)(m-i-1)-(char*)m);o((m+i)-(m-i));" % v
            body += "p=m;q=p++;o(p-q);q=++p;o(q-m);q=p--;o(q-p);q=--p;o(q-m);o(sizeof*p);p=b_@@;while(p<b_@@+12)p++;o(p-b_@@);i=1;o(&p[-i]-b_@@);o(!(p-12-b_@@));o((unsigned long)p-(unsigned long)b_@@);q=0;o(q==0);o(!q);o(p&&!q);o((E_@@*)((unsigned long)p)==p);"
            cs.append(PCase("pointer to %s, index %s" % (e, it), body, g, None))
        # arrays of arrays
    for dims in itertools.product((1, 2, 3), repeat=3):
        for e in ("char", "int", "struct{char c[3];}"):
            g = "typedef %s E_@@;static E_@@ b_@@[3][%d][%d][%d];" % ((e,) + dims)
            body = "int i,j,k,l;E_@@(*p)[%d][%d][%d]=b_@@+1;E_@@(*q)[%d];char*z=(char*)b_@@;o(sizeof b_@@);o(sizeof*p);o(sizeof**p);o(sizeof***p);o(sizeof p[0][0][0][0]);" % (dims + dims[2:])
            body += "for(i=0;i<3;i++)for(j=0;j<%d;j++){q=b_@@[i][j];o((char*)q-z);for(k=0;k<%d;k++){for(l=0;l<%d;l++){o((char*)&b_@@[i][j][k][l]-z);o((char*)(*(*(*(b_@@+i)+j)+k)+l)-z);o(&q[k][l]-**b_@@[i]);o((char*)&p[i-1][j][k][l]-z);}o((char*)(&b_@@[i][j]+1)-z);o((char*)(b_@@[i][j]+1)-z);}}p++;o((char*)p-z);p-=2;o((char*)p-z);o(p-b_@@);o((p+2)-p);" % dims
            cs.append(PCase("array [3]%s of %s" % ("".join("[%d]" % d for d in dims), e), body, g, None))
    # comparisons and equality through every pair of pointer kinds
    for a, b in itertools.product(["ia+%d" % k for k in (0, 1, 4)], repeat=2):
        for op in ("<", "<=", ">", ">=", "==", "!="):
            cs.append(PCase("cmp %s %s %s" % (a, op, b), "static int ia[4];int*p=%s,*q=%s;void*v=q;char*cp=(char*)p;o(p%sq);o((void*)p%sv);o(cp%s(char*)q);if(p%sq)o(1);else o(2);o(!(p%sq));o((p%sq)+1);" % ((a, b) + (op,) * 6), "", None))
    Printer(c, "", gccflags=["-Wno-all"]).run(cs, 12)
    c.extra["pointer_cases"] = len(cs)


# --------------------------------------------------------------------- 5. structure copies
def copies(c):
    cs = []
    sizes = list(range(1, 41)) + [47, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000] + (list(range(41, 140)) if THOROUGH else [])
    for n in sorted(set(sizes)):
        for el, m in (("char", n), ("short", (n + 1) // 2), ("long", (n + 7) // 8)) if n <= 24 or THOROUGH else (("char", n), ("long", (n + 7) // 8)):
            g = "struct C_@@{%s c[%d];};struct W_@@{char a;struct C_@@ m;char b;};static struct C_@@ x_@@[3],*p_@@=x_@@,*q_@@=x_@@+1;static struct C_@@ f_@@(void){return x_@@[2];}static struct C_@@ h_@@(struct C_@@ v){v.c[0]++;return v;}static struct C_@@*k_@@(void){return p_@@++;}" % (el, m)
            g += "static void r_@@(void){unsigned k;for(k=0;k<sizeof x_@@;k++)((char*)x_@@)[k]=k*7+1;p_@@=x_@@;}"
            b = "struct C_@@ u;struct W_@@ w;struct{char a;union{struct C_@@ c;char z;}u;char b;}y;unsigned k;w.a=1;w.b=2;y.a=3;y.b=4;"
            dump = "ob(x_@@,sizeof x_@@);" if n <= 130 else "{unsigned long h=0;unsigned k;for(k=0;k<sizeof x_@@;k++)h=h*31+((unsigned char*)x_@@)[k];o(h);}"
            du = "ob(&u,sizeof u);" if n <= 130 else "{unsigned long h=0;for(k=0;k<sizeof u;k++)h=h*31+((unsigned char*)&u)[k];o(h);}"
            for s in ("x_@@[0]=x_@@[1];", "*p_@@=*q_@@;", "*q_@@=x_@@[2];u=*q_@@;" + du, "u=f_@@();x_@@[1]=u;", "*p_@@=f_@@();", "w.m=*q_@@;o(w.a);o(w.b);x_@@[2]=w.m;", "*p_@@=*p_@@;", "x_@@[1]=h_@@(x_@@[0]);", "*k_@@()=*k_@@();" if False else "*k_@@()=x_@@[2];o(p_@@-x_@@);", "u=x_@@[0]=x_@@[2];" + du,
                      "y.u.c=x_@@[1];o(y.a);o(y.b);x_@@[0]=y.u.c;", "x_@@[0]=p_@@==x_@@?x_@@[2]:x_@@[1];", "x_@@[1]=(0,x_@@[2]);", "u=h_@@(h_@@(*p_@@));" + du, "{struct C_@@ t=x_@@[0];x_@@[0]=x_@@[1];x_@@[1]=t;}", "{struct C_@@ t[2]={x_@@[1],x_@@[0]};x_@@[0]=t[0];x_@@[1]=t[1];}", "u=(struct C_@@){{9}};x_@@[0]=u;"):
                b += "r_@@();" + s + dump
            cs.append(PCase("copy %s[%d]" % (el, m), b, g, None))
    Printer(c, "", gccflags=["-Wno-all"]).run(cs, 8)
    c.extra["copy_sizes"] = len(cs)


# --------------------------------------------------------------------- 6. values live across calls and expressions
def live(c):
    cs = []
    sizes = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17, 20, 33] + ([64, 100] if THOROUGH else [])
    kinds = {"int": ("int", "o", "%d+z"), "long": ("long", "o", "%dL*0x123456789+z"), "char": ("signed char", "o", "%d+z"), "double": ("double", "od", "%d.5+z"), "float": ("float", "od", "%d.25f+z"), "ptr": ("char*", "o", "(char*)(%dL+z)"), "st": ("struct L", "", "mk(%d+z)"), "big": ("struct B", "", "mkb(%d+z)")}
    pre = "struct L{long a;int b;};struct B{long a[5];};static int z,n;static struct L mk(int k){struct L r;r.a=k*3;r.b=k;return r;}static struct B mkb(int k){struct B r;int i;for(i=0;i<5;i++)r.a[i]=k+i;return r;}\n" \
          "static double fd(double a,double b,double c,double d,double e,double f,double g,double h){n++;return a-b+c-d+e-f+g-h;}static long fi(long a,long b,long c,long d,long e,long f,long g,long h){n++;return a-b*2+c*3-d*4+e*5-f*6+g*7-h*8;}static int z1(int k){n++;return k+z;}\n"
    ks = list(kinds)

    def decl(i, k):
        t, out, init = kinds[k]
        return "%s v%d=%s;" % (t, i, init % (i + 1))

    def use(i, k):
        if k == "st":
            return "o(v%d.a);o(v%d.b);" % (i, i)
        if k == "big":
            return "o(v%d.a[0]);o(v%d.a[4]);" % (i, i)
        return "%s(%sv%d);" % (kinds[k][1], "(long)" if k == "ptr" else "", i)
    call = "o(fi(1,2,3,4,5,6,7,8+z));od(fd(1,2,3,4,5,6,7,8+z));mk(3);mkb(4);"
    for m in sizes:
        for k in ks:
            cs.append(PCase("live %d x %s" % (m, k), "".join(decl(i, k) for i in range(m)) + call + "".join(use(i, k) for i in range(m)) + "o(n);"))
        for a, b in itertools.combinations(ks, 2):
            f = lambda i: a if i % 2 else b
            cs.append(PCase("live %d x %s/%s" % (m, a, b), "".join(decl(i, f(i)) for i in range(m)) + call + "".join(use(i, f(i)) for i in range(m)) + "o(n);"))
    # deep expressions: values held while the rest is evaluated
    for m in (2, 5, 8, 15, 17, 30, 60):
        for op, o, lit in (("+", "o", "z1(%d)"), ("-", "o", "z1(%d)"), ("*", "od", "(double)z1(%d)"), ("^", "o", "z1(%d)"), ("-", "od", "(float)z1(%d)"), ("|", "o", "(long)z1(%d)<<3")):
            l = "z1(%d)"
            r = lit % m
            left = lit % 0
            for i in range(1, m):
                r = "(%s)%s(%s)" % (lit % (m - i), op, r)
                left = "(%s)%s(%s)" % (left, op, lit % i)
            bal = [lit % i for i in range(m)]
            while len(bal) > 1:
                bal = ["(%s)%s(%s)" % (bal[i], op, bal[i + 1]) if i + 1 < len(bal) else bal[i] for i in range(0, len(bal), 2)]
            for nm, e in (("right", r), ("left", left), ("balanced", bal[0])):
                cs.append(PCase("deep %s %s %d %s" % (nm, op, m, lit), "n=0;%s(%s);o(n);" % (o, e)))
        nest = "z"
        for i in range(m):
            nest = "fi(%d,z1(%d),%s,z,%d,z1(2),z,z1(%d))" % (i, i, nest, i, i)
        cs.append(PCase("nested calls %d" % m, "n=0;o(%s);o(n);" % nest))
        nest = "z1(1)"
        for i in range(m):
            nest = "(z1(%d)%s?%s:z1(%d))" % (i, "==0" if i % 3 == 0 else "", nest, i) if i % 2 else "(%s%sz1(%d))" % (nest, "&&" if i % 4 else "||", i)
        cs.append(PCase("nested conditionals %d" % m, "n=0;o(%s);o(n);" % nest))
    Printer(c, pre, gccflags=["-Wno-all"]).run(cs, 10)
    c.extra["live_cases"] = len(cs)


# --------------------------------------------------------------------- 7. the value of an assignment, and what others store meanwhile
def assigned(c):
    """E assigns or changes L; a call in the same expression, not sequenced against E, changes L or R. Every order C allows is allowed."""
    types = {"int": 0, "short": 0, "long": 0, "unsigned char": 0, "double": 1, "float": 1, "char*": 2, "_Bool": 3}
    LV = {"global": ("static T X;", "X"), "deref": ("static T m_@@,*p_@@=&m_@@;", "*p_@@"), "elem": ("static T v_@@[3];static int i_@@=1;", "v_@@[i_@@]"), "member": ("static struct{char c;T m;}s_@@;", "s_@@.m"), "arrow": ("static struct{char c;T m;}t_@@,*q_@@=&t_@@;", "q_@@->m"),
          "bits": ("static struct{unsigned c:3,m:7;}b_@@;", "b_@@.m"), "param": ("", "PRM")}
    cs = []
    for T, kind in types.items():
        num = (lambda n: "(char*)%d" % n) if kind == 2 else (lambda n: str(n))
        A0, B0, B1, A1 = (1, 2, 9, 50) if kind != 3 else (0, 1, 0, 1)
        for ln, (ld, l) in LV.items():
            for rn, (rd, r) in LV.items():
                if (ln == "bits" or rn == "bits") and T != "int" or ln == "param" and rn == "param":
                    continue
                ld2, l2 = ld.replace("X", "xl_@@").replace("_@@", "l_@@"), l.replace("X", "xl_@@").replace("_@@", "l_@@")
                rd2, r2 = rd.replace("X", "xr_@@").replace("_@@", "r_@@"), r.replace("X", "xr_@@").replace("_@@", "r_@@")
                ops = {"=": (lambda a, b: b, "%s=%s", 0), "chain": (lambda a, b: b, "%s=w_@@=%s", 0), "comma": (lambda a, b: b, "%s=(0,%s)", 0), "cast": (lambda a, b: b, "%s=(T)%s", 0)}
                if kind < 2:
                    ops.update({"=+": (lambda a, b: b + 1, "%s=%s+1", 0), "=-": (lambda a, b: b + 3, "%s=-(-%s-3)", 0), "+=": (lambda a, b: a + b, "%s+=%s", 0), "*=": (lambda a, b: a * b, "%s*=%s", 0)})
                    if rn == "global":
                        ops.update({"++x": (lambda a, b: a + 1, "++%s", 1), "x++": (lambda a, b: a + 1, "(%s)++", 2)})
                for on, (fn, txt, unary) in ops.items():
                    for mode in ("right", "left"):
                        if unary and mode == "right":
                            continue
                        tgt, nv = (r2, B1) if mode == "right" else (l2, A1)
                        if "PRM" in tgt:
                            tgt = "*pp_@@"
                        if mode == "right":
                            ok = {(fn(A0, b), fn(A0, b)) for b in (B0, B1)}
                        else:
                            a, n = fn(A0, B0), fn(A1, B0)
                            ok = {(a, a), (a, A1), (A1, A1), (n, n)} if unary != 2 else {(A0, a), (A0, A1), (A1, n)}
                            if on == "chain":
                                ok = {(a, a), (a, A1), (A1, A1), (n, n)}
                        e = (txt % (l2, r2) if not unary else txt % l2)
                        use = {"args": "two_@@(%s,g_@@());", "args2": "two2_@@(g_@@(),%s);", "init": "struct{T a;int b;}z={%s,g_@@()};V=z.a;", "plus": "V=(%s)+g_@@();", "plus2": "V=g_@@()+(%s);"}
                        if kind == 3:
                            use = {k: x for k, x in use.items() if "+g" not in x and "g_@@()+" not in x}
                        for un, ut in use.items():
                            if un in ("args2", "plus2") and on in ("comma", "cast"):
                                continue
                            glob = "#define T %s\n" % T + "static T V,w_@@,*pp_@@;" + ld2 + rd2
                            glob += "static int g_@@(void){%s=%s;return 0;}static void two_@@(T a,int b){V=a;}static void two2_@@(int b,T a){V=a;}" % (tgt, num(nv))
                            par = "PRM" in l2 + r2
                            pi = A0 if "PRM" in l2 else B0
                            glob += "static void f_@@(%s){%s%s;" % ("T PRM" if par else "void", "pp_@@=&PRM;" if par else "", ut % e)
                            glob += "o((long)V);o((long)%s);}" % l2
                            glob = glob.replace(" V", " V_@@").replace("V=", "V_@@=").replace("(long)V)", "(long)V_@@)").replace("T V,", "T V_@@,") + "\n#undef T\n"
                            body = ("" if "PRM" in l2 else "%s=%s;" % (l2, num_(T, A0))) + ("" if "PRM" in r2 else "%s=%s;" % (r2, num_(T, B0))) + "f_@@(%s);" % (num_(T, pi) if par else "")
                            sets = {"%x %x" % (int(v), int(w)) for v, w in ok}

                            def okf(got, sets=sets):
                                return (got or "").strip() in sets
                            okf.__doc__ = "value and object one of " + " | ".join(sorted(sets))
                            cs.append(PCase("assigned %s, %s %s %s, %s changed, in %s" % (T, ln, on, rn, mode, un), body, glob.replace("V_@@_@@", "V_@@"), okf))
    # structures: what is assigned is what the value is, whatever happens to the right operand
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 40):
        for un, ut in {"args": "two_@@(x_@@=y_@@,g_@@());", "args2": "two2_@@(g_@@(),x_@@=y_@@);", "init": "struct{struct S_@@ a;int b;}z={x_@@=y_@@,g_@@()};V_@@=z.a;", "member": "V_@@.m[0]=(x_@@=y_@@).m[0]+g_@@();V_@@.m[%d]=x_@@.m[%d];" % (n - 1, n - 1), "chain": "two_@@(x_@@=w_@@=y_@@,g_@@());", "cond": "two_@@(zero_@@?w_@@:(x_@@=y_@@),g_@@());"}.items():
            glob = "struct S_@@{char m[%d];};static struct S_@@ V_@@,x_@@,y_@@,w_@@;static int zero_@@;static int g_@@(void){int i;for(i=0;i<%d;i++)y_@@.m[i]=9;return 0;}static void two_@@(struct S_@@ a,int b){V_@@=a;}static void two2_@@(int b,struct S_@@ a){V_@@=a;}" % (n, n)

            def okf(got):
                return (got or "").strip() in ("2 2 2 2", "9 9 9 9")
            okf.__doc__ = "2 2 2 2 | 9 9 9 9"
            cs.append(PCase("assigned structure of %d, in %s" % (n, un), "int i;for(i=0;i<%d;i++)y_@@.m[i]=2;%so(V_@@.m[0]);o(V_@@.m[%d]);o(x_@@.m[0]);o(x_@@.m[%d]);" % (n, ut, n - 1, n - 1), glob, okf))
    pr = Printer(c)

    def xc(group):
        ref = parse_marks(pr.run_gcc(tu(group)))
        for i, k in enumerate(group):
            if not k.expect(ref.get(i)):
                raise CheckError("gcc's order is not allowed by the model: %s\nmodel %s\ngcc   %s" % (k.key, k.expect.__doc__, ref.get(i)))
    pmap(xc, chunks(cs[::5], 100))
    pr.run(cs, 100)
    c.extra["assigned_values"] = len(cs)


def num_(T, n):
    return "(char*)%d" % n if T == "char*" else str(n)


def main_(c):
    sequences(c)
    orders(c)
    lvalues(c)
    pointers(c)
    copies(c)
    live(c)
    assigned(c)
    c.extra["exhaustive"] = True


if __name__ == "__main__":
    main(main_, "C09", "model_checking",
         "all sequences of up to 3 statements (39 statements over aliased scalars, arrays, structures and pointers; straight, conditional and looping contexts) run by a memory model; all expression trees of up to 3 (4) leaves against the set of evaluation orders C allows; every lvalue form x assignment operator x type; pointer arithmetic per element size x index type; structure copies per size; values live across calls; values of assignments x what is stored meanwhile by a call",
         ["the memory model and the order model are compared with gcc on a share of the programs", "gcc -O0 is the reference for the lvalue, pointer, copy and live parts"])
