import re
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *
from cmodel import *
PRE = "typedef unsigned long UL; typedef unsigned char UC; typedef unsigned short US; typedef unsigned int UI; typedef signed char SC; typedef long long LL; typedef unsigned long long ULL; typedef unsigned long long RT;\n"
M64 = (1 << 64) - 1


def x64(v):
    return "%x" % (v & M64)


def block(key, exprs, cases):
    """exprs: [(C text, model type, model value)]: all as static initialisers, and all in a function."""
    for ch_i, ch in enumerate(chunks(exprs, 60)):
        k = "%s #%d" % (key, ch_i)
        arr = "static RT a@@[]={%s};" % ",".join("(RT)(%s)" % e for e, t, v in ch)
        cases.append(PCase("static: " + k, "for(int i=0;i<%d;i++)o(a@@[i]);" % len(ch), arr, " ".join(x64(v) for e, t, v in ch)))
        cases.append(PCase("runtime: " + k, "".join("o((RT)(%s));" % e for e, t, v in ch), "", " ".join(x64(v) for e, t, v in ch)))


def explore(c, win=None, ccflags=(), double_to=(("1e10", "long"), ("1e19", "UL"), ("9223372036854775808.0", "UL"))):
    cases = []
    n = 0
    ev = 0
    e0, n0 = c.evaluations, c.ndistinct
    for op in OPS:
        for ta in TYPES:
            for tb in TYPES:
                ex = []
                for a in BOUND[ta]:
                    for b in BOUND[tb]:
                        try:
                            t, v = binop(op, ta, a, tb, b)
                        except UB:
                            continue
                        ex.append(("(%s)%s %s (%s)%s" % (ta, lit(a), op, tb, lit(b)), t, v))
                ev += len(ex)
                block("%s %s %s" % (ta, op, tb), ex, cases)
    for ta in TYPES:
        ex = []
        for a in BOUND[ta]:
            for op in "+-~!":
                try:
                    t, v = unop(op, ta, a)
                except UB:
                    continue
                ex.append(("%s(%s)%s" % (op, ta, lit(a)), t, v))
        block("unary %s" % ta, ex, cases)
        ev += len(ex)
        for tb in TYPES:
            ex = []
            for a in BOUND[ta]:
                v = conv(a, tb)
                ex.append(("(%s)(%s)%s" % (tb, ta, lit(a)), tb, v))
                for tc in TYPES:
                    ex.append(("(%s)(%s)(%s)%s" % (tc, tb, ta, lit(a)), tc, conv(v, tc)))
                for b in BOUND[tb][:4]:
                    for cnd in (0, 1):
                        t = usual(ta, tb)
                        ex.append(("%d ? (%s)%s : (%s)%s" % (cnd, ta, lit(a), tb, lit(b)), t, conv(a if cnd else b, t)))
                        r = conv(a if cnd else b, t)
                        ex.append(("(%d ? (%s)%s : (%s)%s) < 0" % (cnd, ta, lit(a), tb, lit(b)), "int", int(r < 0)))
                # implicit conversion of an initialiser
            ev += len(ex)
            block("conv %s->%s" % (ta, tb), ex, cases)
            vals = [conv(a, tb) for a in BOUND[ta]]
            cases.append(PCase("static init %s from %s" % (tb, ta), "for(int i=0;i<%d;i++){o((RT)a@@[i]);o((RT)s@@[i].m);} o((RT)v@@);" % len(vals),
                               "static %s a@@[]={%s}; struct{char c;%s m;}s@@[]={%s}; %s v@@=(%s)%s;" % (
                                   tb, ",".join("(%s)%s" % (ta, lit(a)) for a in BOUND[ta]), tb, ",".join("{1,(%s)%s}" % (ta, lit(a)) for a in BOUND[ta]), tb, ta, lit(BOUND[ta][-1])),
                               " ".join("%s %s" % (x64(v), x64(v)) for v in vals) + " " + x64(vals[-1])))
            ev += len(vals)
    # two-operator constant trees
    TT = [("int", "int", "int"), ("UI", "int", "int"), ("UL", "int", "UI"), ("long", "UI", "SC"), ("US", "UC", "int")]
    for o1 in OPS:
        for o2 in OPS:
            ex = []
            for tr in TT:
                for a in BOUND[tr[0]][1:6]:
                    for b in BOUND[tr[1]][:4]:
                        for d in BOUND[tr[2]][:4]:
                            la, lb, ld = ["(%s)%s" % (t, lit(v)) for t, v in zip(tr, (a, b, d))]
                            try:
                                t, v = binop(o1, tr[0], a, tr[1], b)
                                t, v = binop(o2, t, v, tr[2], d)
                                ex.append(("(%s %s %s) %s %s" % (la, o1, lb, o2, ld), t, v))
                            except UB:
                                pass
                            try:
                                t, v = binop(o2, tr[1], b, tr[2], d)
                                t, v = binop(o1, tr[0], a, t, v)
                                ex.append(("%s %s (%s %s %s)" % (la, o1, lb, o2, ld), t, v))
                            except UB:
                                pass
            ev += len(ex)
            block("tree %s %s" % (o1, o2), ex, cases)
    pr = Printer(c, PRE, ccflags=ccflags, win=win)
    pr.run(cases, per=60)
    n += len(cases)
    # integer-constant-expression contexts
    cases = []
    ctx = []
    for op in OPS:
        for ta in ("int", "UI", "long", "UL", "UC", "SC"):
            for tb in ("int", "UI", "long", "UL"):
                for a in BOUND[ta][:8]:
                    for b in BOUND[tb][:6]:
                        try:
                            t, v = binop(op, ta, a, tb, b)
                        except UB:
                            continue
                        ctx.append(("((%s)%s %s (%s)%s)" % (ta, lit(a), op, tb, lit(b)), t, v))
    small = [(e, t, v) for e, t, v in ctx]
    for i, g in enumerate(chunks(small, 50)):
        glob = "".join("_Static_assert(%s == %s, \"x\");_Static_assert(!(%s != %s), \"x\");" % (e, "(%s)%s" % (t, lit(v)), e, "(%s)%s" % (t, lit(v))) for e, t, v in g)
        cases.append(PCase("_Static_assert group %d" % i, "o(1);", glob, "1"))
        gi = [x for x in g if -2**31 <= x[2] < 2**31]
        cases.append(PCase("enum group %d" % i, "".join("o((RT)E%d_@@);" % j for j in range(len(gi))), "enum{%s};" % ",".join("E%d_@@ = %s" % (j, e) for j, (e, t, v) in enumerate(gi)) if gi else "", " ".join(x64(v) for e, t, v in gi)))
        ga = [x for x in g if 0 < x[2] < 70000]
        cases.append(PCase("array size group %d" % i, "".join("o(sizeof(char[%s]));o(sizeof a%d_@@);" % (e, j) for j, (e, t, v) in enumerate(ga)), "".join("extern short a%d_@@[%s];" % (j, e) for j, (e, t, v) in enumerate(ga)), " ".join("%s %s" % (x64(v), x64(2 * v)) for e, t, v in ga)))
        gb = [x for x in g if 0 < x[2] <= 32]
        cases.append(PCase("bit-field width group %d" % i, "".join("{struct{unsigned m:%s;}s;s.m=-1;o(s.m);}" % e for e, t, v in gb), "", " ".join(x64((1 << v) - 1) for e, t, v in gb)))
        seen = {}
        for e, t, v in g:
            seen.setdefault(v if BITS[t] == 64 or True else v, (e, t, v))
        gc = [x for x in seen.values() if -2**31 <= x[2] < 2**31]
        cases.append(PCase("case group %d" % i, "".join("o(f@@(%s));" % lit(v) for e, t, v in gc), "static RT f@@(int x){switch(x){%s}return 0;}" % "".join("case %s: return %d;" % (e, j + 1) for j, (e, t, v) in enumerate(gc)), " ".join(x64(j + 1) for j in range(len(gc)))))
        gl = [x for x in {conv(x[2], "long"): x for x in g}.values()]
        cases.append(PCase("case long group %d" % i, "".join("o(f@@(%s));" % lit(conv(v, "long")) for e, t, v in gl), "static RT f@@(long x){switch(x){%s}return 0;}" % "".join("case %s: return %d;" % (e, j + 1) for j, (e, t, v) in enumerate(gl)), " ".join(x64(j + 1) for j in range(len(gl)))))
    pr.run(cases, per=40)
    n += len(cases)
    ev += len(small) * 6
    # literals: type and value
    cases = []
    L = []
    for v in (0, 1, 7, 8, 127, 255, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 1234567890, 0xdeadbeef, 0xcafebabe12345678):
        for base in "dxXob":
            for suf in ("", "u", "U", "l", "L", "ul", "UL", "lu", "LU", "uL", "Lu", "ll", "LL", "ull", "ULL", "llu", "LLU", "uLL", "LLu"):
                dec = base == "d"
                uns, ll, l = "u" in suf.lower(), "ll" in suf.lower(), "l" in suf.lower()
                cand = (["int", "UI", "long", "UL", "LL", "ULL"] if not l else ["long", "UL", "LL", "ULL"] if not ll else ["LL", "ULL"])
                cand = [t for t in cand if (not SIGNED[t] if uns else (SIGNED[t] or not dec))]
                cand = [t for t in cand if fits(v, t)]
                if not cand:
                    continue
                s = {"d": "%d" % v, "x": "0x%x" % v, "X": "0X%X" % v, "o": "0%o" % v, "b": "0b" + bin(v)[2:]}[base]
                if base == "d" and v == 0:
                    continue
                L.append((s + suf, cand[0], v))
    G = "_Generic(%s,int:1,unsigned:2,long:3,unsigned long:4,long long:5,unsigned long long:6,default:9)"
    TN = {"int": 1, "UI": 2, "long": 3, "UL": 4, "LL": 5, "ULL": 6}
    for i, g in enumerate(chunks(L, 10)):
        cases.append(PCase("literals %s" % " ".join(x[0] for x in g), "".join("o((RT)%s);o(%s);" % (s, G % s) for s, t, v in g), "", " ".join("%s %x" % (x64(v), TN[t]) for s, t, v in g)))
    ev += len(L)
    # floating constants: value bits and type, compared with the reference compiler
    F = []
    for m in ("0", "1", "3", "10", "123456789", "0.1", ".5", "5.", "00.25", "3.14159265358979", "1.7976931348623157", "9007199254740993", "4.9", "16777217", "0.1234567890123456789"):
        for e in ("", "e0", "e1", "E5", "e+3", "e-7", "e22", "e-30", "E37", "e-320"):
            for s in ("", "f", "F"):
                if "." in m or e:
                    if not (s and ("37" in e or "320" in e or "-30" in e)):
                        F.append(m + e + s)
    for m in ("0x1", "0x1.8", "0x.8", "0xA.", "0X1.fffffffffffff", "0x1.fffffe"):
        for e in ("p0", "p1", "P-3", "p+10", "p-1022"):
            for s in ("", "f"):
                if not (s and "1022" in e):
                    F.append(m + e + s)
    for i, g in enumerate(chunks(F, 6)):
        cases.append(PCase("float literals %s" % " ".join(g), "".join("od(%s);o(sizeof(%s));" % (s, s) for s in g) + "for(int i=0;i<%d;i++){od(d@@[i]);od(f@@[i]);}" % len(g),
                           "static double d@@[]={%s}; float f@@[]={%s};" % (",".join(g), ",".join(g))))
    ev += len(F) * 3
    # floating constant arithmetic against the reference
    FV = ["0.0", "(-0.0)", "1.0", "(-1.5)", "0.1", "3.0", "1e300", "1e-300", "0.0f", "0.1f", "3.0f", "(-2.5f)", "16777217.0f", "(1.0/0.0)", "(-1.0/0.0)", "(0.0/0.0)", "1", "(-7)", "4294967295u", "9007199254740993L", "0x8000000000000001UL", "0xffffffffffffffffUL", "(char)-3", "(_Bool)1"]
    for op in ["+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]:
        for x in FV:
            g = [(x, y) for y in FV if ("." in x or "e" in x or "." in y or "e" in y) and not (op == "/" and y in ("0",))]
            if not g:
                continue
            es = ["%s %s %s" % (x, op, y) for x, y in g]
            cases.append(PCase("float const %s %s *" % (x, op), "for(int i=0;i<%d;i++){od(a@@[i]);od(b@@[i]);}" % len(es) + "".join("od(%s);" % e for e in es), "static double a@@[]={%s}; static float b@@[]={%s};" % (",".join(es), ",".join(es))))
            ev += 3 * len(es)
    for x in FV:
        for t in ["float", "double", "_Bool"] + ([] if "/" in x or "1e" in x else ["long", "short", "SC"]):
            if t in ("short", "SC") and ("4294" in x or "9007" in x or "0x" in x or "1677" in x):
                continue
            if t == "long" and "0x" in x:
                continue
            cases.append(PCase("float conv %s -> %s" % (x, t), "od((double)a@@);od((double)(%s)%s);od((double)b@@);od(-%s);o(!%s);o(%s?1:2);" % (t, x, x, x, x), "static %s a@@=(%s)%s; static %s b@@=%s;" % (t, t, x, t, x)))
            ev += 4
    for x, t in (*double_to, ("1e19f", "ULL"), ("255.9", "UC"), ("-128.9", "SC"), ("65535.5f", "US"), ("4294967295.0", "UI"), ("-2147483648.5", "int"), ("0.3", "_Bool"), ("-0.0", "_Bool")):
        cases.append(PCase("float conv %s -> %s" % (x, t), "o((RT)a@@);o((RT)(%s)(%s));" % (t, x), "static %s a@@=%s;" % (t, x)))
        ev += 2
    # address constants
    pre = "extern int arr[10]; struct S{char c;int m[3];struct{short x,y;}n;union{long l;char b[8];}u;}; extern struct S s,sa[4]; int arr[10]; struct S s,sa[4]; int fn(void){return 77;} static char st[]=\"static\"; "
    A = ["&arr[%s]" % i for i in ("0", "1", "9", "10", "3L", "(char)2", "2u", "sizeof(int)", "1+2", "5-2")] + ["arr", "arr+3", "3+arr", "arr+10-2", "&arr[4]-1", "(int*)((char*)arr+4)", "(int*)&s.m", "&s.m[1]", "s.m", "s.m+2", "&s.m[2]-1",
        "(int*)&s.n.y", "(int*)&s.u.b[3]", "(int*)s.u.b+1", "&sa[2].m[1]", "(int*)&sa[3].n.x", "(int*)(sa+1)", "&(*(sa+1)).m[0]", "(sa+2)->m", "&(sa+2)->m[1]", "(int*)(void*)&arr[2]", "&*arr", "&*&arr[3]", "&0[arr]", "&5[arr]", "(int*)0", "0", "(void*)0",
        "1?arr:0", "(int*)(long*)&arr[1]", "&(&s)->m[1]", "&(*&s).m[2]", "(int*)&st[3]", "(int*)(st+2)", "(int*)&st", "(int*)&arr", "*&arr", "(int*)(&arr+1)", "(int*)(1+&arr)"]
    for e in A:
        base = "st" if "st" in e else "sa" if "sa" in e else "&s" if re.search(r"\bs\b", e) else "arr"
        cases.append(PCase("address constant %s" % e, "o((char*)p@@-(char*)%s); o(p@@==(%s));" % (base, e) if e not in ("0", "(void*)0", "(int*)0") else "o(p@@==0);",
                           "int *p@@=%s; struct{char z;int*q;}w@@={1,%s};" % (e, e)))
        cases.append(PCase("address constant member %s" % e, "o(w@@.q==(%s)); o(w@@.z); o(t@@[1]==(%s)); o(t@@[0]==arr);" % (e, e), "struct{char z;int*q;}w@@={1,%s}; static int*t@@[]={arr,%s,0};" % (e, e)))
    for e in ("fn", "&fn", "*fn", "(int(*)(void))fn"):
        cases.append(PCase("function address constant %s" % e, "o(p@@()); o(p@@==fn);o(t@@[1]());", "static int(*p@@)(void)=%s; int(*t@@[])(void)={0,%s};" % (e, e)))
    for e in ("\"hello\"", "\"hello\"+2", "&\"hello\"[1]", "(char*)\"x\"", "\"a\" \"b\"", "1?\"y\":\"n\""):
        cases.append(PCase("string address constant %s" % e, "os(p@@); os(t@@[0]); os(s@@.q);", "static char*p@@=%s; char*t@@[2]={%s}; struct{int i;char*q;}s@@={3,%s};" % (e, e, e)))
    OFF = ["__builtin_offsetof(struct S,m)", "__builtin_offsetof(struct S,n.y)", "__builtin_offsetof(struct S,m[2])", "__builtin_offsetof(struct S,u.b[3])", "sizeof(struct S)", "sizeof arr", "sizeof(arr)/sizeof(arr[0])", "_Alignof(struct S)", "sizeof s.m", "sizeof(sa[0].n)", "sizeof \"four\"", "sizeof 1", "sizeof 'a'", "sizeof(1L+1)", "sizeof(int(*)[3])", "sizeof(int[3][4])", "sizeof *arr", "sizeof(char)+sizeof(short)"]
    for e in OFF:
        cases.append(PCase("offset constant %s" % e, "o(a@@);o(%s);o(sizeof b@@);" % e, "static RT a@@=%s; char b@@[%s+1];" % (e, e) if "(RT)&" not in e else "static RT a@@=%s; char b@@[3];" % e))
    ev += 2 * len(A) + 40
    pr2 = Printer(c, PRE + pre, ccflags=ccflags, win=win)
    pr2.run(cases, per=20)
    n += len(cases)
    c.evaluations, c.ndistinct = e0 + ev, n0 + n
    c.extra["programs_fragments"] = n
    c.extra["exhaustive"] = True


if __name__ == "__main__":
    main(explore, "C03", "exploration",
         "constant expressions: every operator x type pair x boundary value pair (undefined ones removed by an exact model), as static initialisers and in functions; _Static_assert/enum/array size/bit-field/case contexts; every literal spelling; floating and address constants. evaluation = one constant expression; distinct = one block of them",
         ["expected integer values come from the Python model mc/cmodel.py, floating and address ones from gcc"])
