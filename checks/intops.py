import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *
from pair import *

T = ["_Bool", "char", "SC", "UC", "short", "US", "int", "UI", "long", "UL", "LL", "ULL"]
VALS = {
    "_Bool": ["0", "1"],
    "char": ["0", "1", "-1", "2", "7", "127", "-128", "100"],
    "SC": ["0", "1", "-1", "3", "127", "-128", "-7"],
    "UC": ["0", "1", "2", "7", "127", "128", "255"],
    "short": ["0", "1", "-1", "5", "32767", "-32768", "255", "-129"],
    "US": ["0", "1", "3", "31", "32768", "65535", "256"],
    "int": ["0", "1", "-1", "2", "-3", "31", "32", "63", "127", "-128", "128", "255", "65536", "2147483647", "(-2147483647-1)"],
    "UI": ["0", "1", "2", "3", "31", "33", "255", "65535", "2147483647", "2147483648u", "4294967295u"],
    "long": ["0", "1", "-1", "3", "-5", "31", "63", "64", "2147483647", "2147483648L", "-2147483648L", "-2147483649L", "4294967295L", "4294967296L", "0x7fffffffffffffffL", "(-0x7fffffffffffffffL-1)"],
    "UL": ["0", "1", "2", "5", "33", "63", "2147483648UL", "4294967295UL", "4294967296UL", "0x7fffffffffffffffUL", "0x8000000000000000UL", "0xffffffffffffffffUL"],
}
VALS["LL"] = ["0", "1", "-1", "7", "-2147483649LL", "4294967296LL", "0x7fffffffffffffffLL", "(-0x7fffffffffffffffLL-1)"]
VALS["ULL"] = ["0", "1", "7", "4294967296ULL", "0x8000000000000000ULL", "0xffffffffffffffffULL"]
SMALL = {"s_" + t: (t, v) for t, v in {
    "_Bool": ["0", "1"], "char": ["0", "3", "-2", "127", "-128"], "SC": ["0", "3", "-2", "127", "-128"], "UC": ["0", "5", "128", "255"],
    "short": ["0", "-7", "32767", "-32768"], "US": ["0", "9", "65535"], "int": ["0", "3", "-5", "1000", "-2147483647"],
    "UI": ["0", "6", "2147483648u", "4294967295u"], "long": ["0", "-9", "4294967297L", "-0x7fffffffffffffffL"],
    "UL": ["0", "11", "0x8000000000000001UL", "0xffffffffffffffffUL"], "LL": ["1", "-3"], "ULL": ["1", "0xfffffffffffffff0ULL"]}.items()}
BIN = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "<<": "shl", ">>": "shr", "&": 0, "|": 0, "^": 0,
       "<": 0, ">": 0, "<=": 0, ">=": 0, "==": 0, "!=": 0, "&&": 0, "||": 0}
values = {t: (t, v) for t, v in VALS.items()}
values.update(SMALL)


def g(op, a="a", b="b"):
    return "U_%s(%s,%s)" % (BIN[op], a, b) if BIN.get(op) else ""


def build_cases():
    cases = []
    # 1. every operator on every ordered pair of integer types, register operands
    for op in BIN:
        for t1 in T:
            for t2 in T:
                cases.append(FCase("%s %s %s" % (t1, op, t2), "return (RT)(a %s b);" % op, [(t1, t1), (t2, t2)], g(op)))
    # 2. compound assignment: stored value and value of the expression
    for op in list(BIN)[:10]:
        for t1 in T:
            for t2 in T:
                cases.append(FCase("%s %s= %s" % (t1, op, t2), "RT r=(RT)(a %s= b); return r*31+(RT)a;" % op, [(t1, "s_" + t1 if t1 not in ("int", "UI") else t1), (t2, t2)], g(op)))
    # 3. conversions: cast, assignment, through memory, return, argument
    for t1 in T:
        for t2 in T:
            cases.append(FCase("cast %s->%s" % (t1, t2), "return (RT)(%s)a;" % t2, [(t1, t1)]))
            cases.append(FCase("assign %s->%s" % (t1, t2), "%s x=a; %s y; y=a; return (RT)x*3+(RT)y;" % (t2, t2), [(t1, t1)]))
            cases.append(FCase("mem %s->%s" % (t1, t2), "m@@.x=a; m@@.y=-1; m@@.y=a; return (RT)m@@.x*3+(RT)m@@.y+(RT)m@@.z;", [(t1, t1)], glob="static struct{char p; %s x; %s y; %s z;} m@@={0,0,0,1};" % (t2, t2, t2)))
            cases.append(FCase("return %s->%s" % (t1, t2), "return (RT)h@@(a);", [(t1, t1)], glob="static %s h@@(%s v){return v;}" % (t2, t1)))
            cases.append(FCase("arg %s->%s" % (t1, t2), "return h@@(1,a,2);", [(t1, t1)], glob="static RT h@@(int p,%s v,int q){return (RT)v*p+q;}" % t2))
            for t3 in ("SC", "UC", "short", "US", "int", "UI"):
                if t1 != t2 and t2 != t3:
                    cases.append(FCase("cast %s->%s->%s" % (t1, t2, t3), "return (RT)(%s)(%s)a;" % (t3, t2), [(t1, t1)]))
            cases.append(FCase("cond ?%s:%s" % (t1, t2), "return (RT)(c?a:b);", [(t1, t1), (t2, t2), ("int", "s__Bool")]))
            cases.append(FCase("neg(cond ?%s:%s)<0" % (t1, t2), "return (RT)((c?a:b)<0)+2*((c?a:b)/2 < 0);", [(t1, t1), (t2, t2), ("int", "s__Bool")]))
    # 4. unary
    for t in T:
        for nm, e, gd in (("-", "-a", "U_neg(a)"), ("~", "~a", ""), ("!", "!a", ""), ("+", "+a", ""), ("!!", "!!a", ""), ("~~", "~~a", ""), ("-~", "-~a", "U_neg(~a)"),
                          ("preinc", "++a", "U_add(a,1)"), ("predec", "--a", "U_sub(a,1)"), ("postinc", "a++", "U_add(a,1)"), ("postdec", "a--", "U_sub(a,1)")):
            cases.append(FCase("%s %s" % (nm, t), "RT r=(RT)(%s); return r*7+(RT)a;" % e, [(t, t)], gd))
            if "inc" in nm or "dec" in nm:
                cases.append(FCase("%s mem %s" % (nm, t), "q@@[1]=a; %s*p=q@@+1; RT r=(RT)(%s); return r*7+(RT)q@@[1]+(RT)q@@[0]+(RT)q@@[2];" % (t, e.replace("a", "(*p)")), [(t, t)], gd, glob="%s q@@[3];" % t))
            cases.append(FCase("truth %s %s" % (nm, t), "if(a)return 1; return 2;", [(t, t)]) if nm == "!" else
                         FCase("while-truth %s %s" % (nm, t), "RT n=0; while(a){n++; a=0;} do n+=2; while(a); for(;a;)n+=9; return n;", [(t, t)]))
    # 5. constants as operands: every immediate width on either side
    K = ["0", "1", "-1", "2", "127", "128", "-128", "-129", "255", "32767", "65535", "2147483647", "(-2147483647-1)", "2147483648u", "4294967295u",
         "2147483648L", "-2147483649L", "4294967296L", "0x7fffffffffffffffL", "0x8000000000000000UL", "0xffffffffffffffffUL", "'a'", "(char)-1", "(UC)255", "(_Bool)1", "(short)-2"]
    for op in BIN:
        for t in ("SC", "UC", "short", "US", "int", "UI", "long", "UL"):
            for k in K:
                if op in ("<<", ">>"):
                    cases.append(FCase("%s %s %s" % (k, op, t), "return (RT)(%s %s a);" % (k, op), [(t, t)], g(op, k, "a")))
                    continue
                cases.append(FCase("%s %s %s" % (t, op, k), "return (RT)(a %s %s);" % (op, k), [(t, t)], g(op, "a", k)))
                cases.append(FCase("%s %s %s" % (k, op, t), "return (RT)(%s %s a);" % (k, op), [(t, t)], g(op, k, "a")))
    for op in ("<<", ">>"):
        for t in T:
            w = 64 if t in ("long", "UL", "LL", "ULL") else 32
            for k in (0, 1, 2, 3, 7, 8, 15, 16, 30, 31) + ((32, 33, 47, 62, 63) if w == 64 else ()):
                cases.append(FCase("%s %s %d" % (t, op, k), "return (RT)(a %s %d);" % (op, k), [(t, t)], g(op, "a", str(k))))
    # 6. where the operands live: local, global, array element, member, dereference
    LOC = {"global": ("%s v@@;", "v@@=a;", "v@@"), "static": ("static %s v@@;", "v@@=a;", "v@@"), "elem": ("%s v@@[5];", "int i=3; v@@[i]=a;", "v@@[i]"),
           "member": ("struct{char c; %s m; char d;}v@@;", "v@@.c=-1; v@@.d=-1; v@@.m=a;", "v@@.m"), "arrow": ("struct{char c[3]; %s m; char d[9];}v@@,*p@@=&v@@;", "p@@->m=a;", "p@@->m"),
           "addrlocal": ("", "%s l; %s *lp=&l; char pad[70]; pad[0]=1; l=a;", "(*lp)"), "localarr": ("", "long g0[20]; %s l[40]; for(int z=0;z<40;z++)l[z]=-1; g0[0]=3; l[39]=a;", "l[39]")}
    for t in T:
        for l, (gl, setup, e) in LOC.items():
            for op in ("+", "-", "*", "/", "%", "<<", ">>", "&", "<", "==", "&&"):
                sub = lambda s: s.replace("%s", t)
                cases.append(FCase("loc %s %s %s int" % (l, t, op), sub(setup) + "return (RT)(%s %s b);" % (e, op), [(t, t), ("int", "s_int")], g(op), glob=sub(gl)))
                cases.append(FCase("loc int %s %s %s" % (op, l, t), sub(setup) + "return (RT)(b %s %s);" % (op, e), [(t, t), ("int", "s_int")], g(op, "b", "a"), glob=sub(gl)))
    # 7. two-operator trees over mixed types, no undefined case by construction
    def safe(op, x, y):
        if op in ("/", "%"):
            return "(%s %s (%s | 1))" % (x, op, y)
        if op in ("<<", ">>"):
            return "(%s %s (%s & 15))" % (x, op, y)
        return "(%s %s %s)" % (x, op, y)
    trip = [("UI", "UI", "UI"), ("UL", "UI", "UC"), ("UC", "US", "UL"), ("UI", "UL", "US")]
    if THOROUGH:
        trip += [("ULL", "UL", "UL"), ("US", "UC", "UI"), ("UC", "UC", "UC"), ("UL", "UL", "UL"), ("US", "UI", "UL")]
    for o1 in BIN:
        for o2 in BIN:
            for tr in trip:
                ps = [(t, "s_" + t) for t in tr]
                # a narrow left operand of << promotes to int: keep within range by construction
                cases.append(FCase("(a%sb)%sc %s" % (o1, o2, "/".join(tr)), "return (RT)%s;" % safe(o2, "(RT)" * (o2 == "<<" or o2 == "*") + safe(o1, "(RT)" * (o1 in ("<<", "*")) + "a", "b"), "c"), ps))
                cases.append(FCase("a%s(b%sc) %s" % (o1, o2, "/".join(tr)), "return (RT)%s;" % safe(o1, "(RT)" * (o1 in ("<<", "*")) + "a", safe(o2, "(RT)" * (o2 in ("<<", "*")) + "b", "c")), ps))
    # 8. register pressure: balanced and left/right-deep trees over n live values
    for n in (4, 8, 12, 16, 24, 40, 64):
        for t in ("UC", "int", "UL"):
            decl = "".join("%s x%d=a*%d+b;" % (t, i, i + 1) for i in range(n))
            xs = ["x%d" % i for i in range(n)]
            left = "^".join("(%s+%d)*%s" % (x, i, xs[(i * 7 + 3) % n]) for i, x in enumerate(xs))
            right = "".join("(%s+(RT)%d-(" % (x, i) for i, x in enumerate(xs)) + "a" + "))" * n
            def bal(l, d=0):
                return l[0] if len(l) == 1 else "(%s%s%s)" % (bal(l[:len(l) // 2], d + 1), "+-^"[d % 3], bal(l[len(l) // 2:], d + 1))
            for nm, e in (("left", left), ("right", right), ("bal", bal(["(RT)" + x for x in xs]))):
                cases.append(FCase("pressure %s %s %d" % (nm, t, n), decl + "return (RT)(%s);" % e, [(t, "s_UC"), (t, "s_UC")]))
    return cases


def explore(c):
    cases = build_cases()
    p = Pair(c, values)
    p.run(cases)
    c.extra["exhaustive"] = True
    c.extra["functions"] = len(cases)


if __name__ == "__main__":
    main(explore, "C01", "exploration",
         "every operator x every ordered pair of the 12 integer types x every pair of boundary values; conversions, compound assignment, immediates, operand locations, 2-operator trees; undefined cases skipped by an exact __int128 predicate; a case = one function, an evaluation = one argument tuple",
         ["gcc -O0 -fwrapv is the oracle for the value of a defined C expression"])
