import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *
from pair import *

IT = ["_Bool", "char", "SC", "UC", "short", "US", "int", "UI", "long", "UL", "LL", "ULL"]
FT = ["float", "double"]
DV = ["0.0", "-0.0", "1.0", "-1.0", "0.5", "-0.75", "1.5", "3.0", "1e10", "-2147483649.0", "4294967295.0", "1e-310", "4.9e-324", "1.7976931348623157e308", "0.1", "16777217.0", "9007199254740993.0", "__builtin_inf()", "-__builtin_inf()", "__builtin_nan(\"\")"]
FV = ["0.0f", "-0.0f", "1.0f", "-1.0f", "0.5f", "-0.75f", "1.5f", "3.0f", "1e10f", "-2147483648.0f", "16777216.0f", "1e-40f", "1e-45f", "3.40282347e38f", "0.1f", "__builtin_inff()", "-__builtin_inff()", "__builtin_nanf(\"\")"]
# values every integer type conversion is defined for is type dependent: guard below
IV = {"_Bool": ["0", "1"], "char": ["0", "1", "-1", "127", "-128"], "SC": ["0", "5", "127", "-128"], "UC": ["0", "1", "128", "255"],
      "short": ["0", "-1", "32767", "-32768"], "US": ["0", "1", "32768", "65535"], "int": ["0", "1", "-1", "16777217", "2147483647", "(-2147483647-1)"],
      "UI": ["0", "1", "16777217", "2147483648u", "4294967295u"], "long": ["0", "1", "-1", "4294967296L", "9007199254740993L", "0x7fffffffffffffffL", "(-0x7fffffffffffffffL-1)", "0x7ffffffffffffbffL", "0x40000040000000L", "-16777219"],
      "UL": ["0", "1", "9007199254740993UL", "0x7fffffffffffffffUL", "0x8000000000000000UL", "0x8000000000000001UL", "0x8000000000000400UL", "0x8000000000000401UL", "0x8000000000000c00UL", "0xfffffffffffff800UL", "0xfffffffffffffbffUL", "0xfffffffffffffc00UL", "0xffffffffffffffffUL", "0x8000008000000000UL", "0x8000008000000001UL"]}
IV["LL"] = IV["long"]
IV["ULL"] = IV["UL"]
values = {t: (t, v) for t, v in IV.items()}
values["double"] = ("double", DV)
values["float"] = ("float", FV)
# conversion to T is defined iff trunc(v) fits
values["dconv"] = ("double", ["0.0", "-0.0", "0.5", "-0.5", "0.99", "-0.99", "1.0", "1.5", "-1.0", "2.9", "127.0", "127.9", "128.0", "-128.9", "-129.0", "200.0", "255.0", "255.9", "256.0", "32767.5", "40000.0", "65535.9", "-32768.9", "2147483647.0",
                              "2147483647.9", "-2147483648.9", "2147483648.0", "3e9", "4294967295.0", "4294967295.9", "4294967296.0", "1e15", "-1e15", "9007199254740993.0", "9223372036854774784.0", "-9223372036854775808.0", "9223372036854775808.0", "9223372036854777856.0", "1e19", "18446744073709549568.0"])
values["fconv"] = ("float", ["0.0f", "-0.0f", "0.5f", "-0.5f", "0.99f", "1.0f", "-1.0f", "2.9f", "127.9f", "-128.9f", "255.9f", "65535.9f", "-32768.5f", "2147483520.0f", "-2147483648.0f", "2147483648.0f", "4294967040.0f", "1e15f", "9223371487098961920.0f", "-9223372036854775808.0f", "9223372036854775808.0f", "1e19f", "18446742974197923840.0f"])
RNG = {"_Bool": ("-1e300", "1e300"), "char": ("-129", "128"), "SC": ("-129", "128"), "UC": ("-1", "256"), "short": ("-32769", "32768"), "US": ("-1", "65536"), "int": ("-2147483649.0", "2147483648.0"), "UI": ("-1", "4294967296.0"),
       "long": ("-9223372036854777856.0", "9223372036854775808.0"), "UL": ("-1", "18446744073709551616.0")}
RNG["LL"], RNG["ULL"] = RNG["long"], RNG["UL"]
CMP = ["<", ">", "<=", ">=", "==", "!="]


def build_cases(llp64=False):
    cases = []
    rng = dict(RNG)
    if llp64:
        rng["long"], rng["UL"] = RNG["int"], RNG["UI"]
    allt = IT + FT
    pairs = [(a, b) for a in allt for b in allt if a in FT or b in FT]
    for a, b in pairs:
        rt = "double" if "double" in (a, b) else "float"
        for op in "+-*/":
            cases.append(FCase("%s %s %s" % (a, op, b), "return a %s b;" % op, [(a, a), (b, b)], ret=rt))
            if a in FT:
                cases.append(FCase("%s %s= %s" % (a, op, b), "a %s= b; return a;" % op, [(a, a), (b, b)], ret=a))
                cases.append(FCase("value of %s %s= %s" % (a, op, b), "g@@=a; %s r = (g@@ %s= b); return r;" % (a, op), [(a, a), (b, b)], ret=a, glob="static %s g@@;" % a))
            elif a not in ("UL", "ULL", "long", "LL") or op in "+-":
                lo, hi = rng[a]
                e = "((%s)a %s (%s)b)" % (rt, op, rt)
                if a == "_Bool":
                    cases.append(FCase("%s %s= %s" % (a, op, b), "a %s= b; return (RT)a;" % op, [(a, a), (b, b)], guard="%s!=%s" % (e, e)))
                else:
                    cases.append(FCase("%s %s= %s" % (a, op, b), "a %s= b; return (RT)a;" % op, [(a, a), (b, b)], guard="!(%s > %s && %s < %s)" % (e, lo, e, hi)))
        for op in CMP:
            cases.append(FCase("%s %s %s" % (a, op, b), "return (RT)(a %s b);" % op, [(a, a), (b, b)]))
            cases.append(FCase("if(%s %s %s)" % (a, op, b), "if(a %s b) return 3; return 4;" % op, [(a, a), (b, b)]))
        for op in ("&&", "||"):
            cases.append(FCase("%s %s %s" % (a, op, b), "return (RT)(a %s b);" % op, [(a, a), (b, b)]))
        cases.append(FCase("?%s:%s" % (a, b), "return c?a:b;", [(a, a), (b, b), ("int", "_Bool")], ret=rt))
    for t in FT:
        cases.append(FCase("-%s" % t, "return -a;", [(t, t)], ret=t))
        cases.append(FCase("+%s" % t, "return +a;", [(t, t)], ret=t))
        cases.append(FCase("!%s" % t, "return (RT)!a;", [(t, t)]))
        cases.append(FCase("!!%s" % t, "return (RT)!!a;", [(t, t)]))
        for nm, e in (("++a", "++a"), ("a++", "a++"), ("--a", "--a"), ("a--", "a--")):
            cases.append(FCase("%s %s" % (nm, t), "%s r=%s; return r;" % (t, e), [(t, t)], ret=t))
            cases.append(FCase("%s %s stored" % (nm, t), "%s; return a;" % e, [(t, t)], ret=t))
        cases.append(FCase("if(%s)" % t, "if(a)return 1;return 2;", [(t, t)]))
        cases.append(FCase("while(%s)" % t, "RT n=0;while(a){n++;if(n>2)break;a=0;}return n;", [(t, t)]))
        cases.append(FCase("do while(%s)" % t, "RT n=0;do{n++;if(n>2)break;}while(a);return n;", [(t, t)]))
        cases.append(FCase("for(;%s;)" % t, "RT n=0;for(;a;a=0){n++;if(n>2)break;}return n;", [(t, t)]))
        cases.append(FCase("%s?:" % t, "return a?5:6;", [(t, t)]))
        for u in FT:
            cases.append(FCase("%s->%s" % (t, u), "return (%s)a;" % u, [(t, t)], ret=u))
            cases.append(FCase("%s->%s assign" % (t, u), "%s x; x=a; return x;" % u, [(t, t)], ret=u))
            cases.append(FCase("%s->%s arg" % (t, u), "return h@@(1,a,2.0);", [(t, t)], ret=u, glob="static %s h@@(int p,%s v,double q){return v+(%s)(p-q)+1;}" % (u, u, u)))
            cases.append(FCase("%s->%s member" % (t, u), "m@@.y=2; m@@.x=a; m@@.z=3; return m@@.x+m@@.y*0+m@@.z*0;", [(t, t)], ret=u, glob="static struct{%s y;%s x;%s z;}m@@;" % (u, u, u)))
        for i in IT:
            lo, hi = rng[i]
            cv = "dconv" if t == "double" else "fconv"
            gd = "!(a > %s && a < %s)" % (lo, hi)
            for form, body in (("cast", "return (RT)(%s)a;" % i), ("assign", "%s x; x=a; return (RT)x;" % i), ("init", "%s x=a; return (RT)x;" % i)):
                cases.append(FCase("%s->%s %s" % (t, i, form), body, [(t, cv)], gd))
            cases.append(FCase("%s->%s return" % (t, i), "return (RT)h@@(a);", [(t, cv)], gd, glob="static %s h@@(%s v){return v;}" % (i, t)))
            for form, body in (("cast", "return (%s)a;" % t), ("assign", "%s x; x=a; return x;" % t)):
                cases.append(FCase("%s->%s %s" % (i, t, form), body, [(i, i)], ret=t))
            cases.append(FCase("%s->%s return" % (i, t), "return h@@(a);", [(i, i)], ret=t, glob="static %s h@@(%s v){return v;}" % (t, i)))
            if t == "double":
                for f in FT:
                    cases.append(FCase("%s->%s->%s" % (i, f, t), "return (%s)(%s)a;" % (t, f), [(i, i)], ret=t))
        # constants on either side
        for k in ("0", "1", "-1", "3", "0.0", "-0.0", "1.5", "0.1", "0.1f", "1e300", "16777217", "4294967295u", "9007199254740993L", "'a'"):
            for op in "+-*/":
                if op == "/" and k == "0":
                    pass
                rt = "float" if t == "float" and ("." not in k or k.endswith("f")) else "double"
                cases.append(FCase("%s %s const %s" % (t, op, k), "return a %s %s;" % (op, k), [(t, t)], ret=rt))
                cases.append(FCase("const %s %s %s" % (k, op, t), "return %s %s a;" % (k, op), [(t, t)], ret=rt))
            for op in CMP:
                cases.append(FCase("%s %s const %s" % (t, op, k), "return (RT)(a %s %s);" % (op, k), [(t, t)]))
                cases.append(FCase("const %s %s %s" % (k, op, t), "return (RT)(%s %s a);" % (k, op), [(t, t)]))
        # two-operator trees
        for o1 in "+-*/":
            for o2 in "+-*/":
                for u in FT:
                    for v in FT + ["int", "UL"]:
                        r = "double" if "double" in (t, u, v) else "float"
                        cases.append(FCase("(%s%s%s)%s%s" % (t, o1, u, o2, v), "return (a%sb)%sc;" % (o1, o2), [(t, t), (u, u), (v, v)], ret=r))
                        cases.append(FCase("%s%s(%s%s%s)" % (t, o1, u, o2, v), "return a%s(b%sc);" % (o1, o2), [(t, t), (u, u), (v, v)], ret=r))
        for o1 in "+*":
            for o2 in CMP:
                cases.append(FCase("(a%sb)%sc %s" % (o1, o2, t), "return (RT)((a%sb)%sc);" % (o1, o2), [(t, t)] * 3))
    return cases


def explore(c):
    cases = build_cases()
    p = Pair(c, values, gccflags=["-frounding-math"])
    p.run(cases)
    c.extra["exhaustive"] = True
    c.extra["functions"] = len(cases)


if __name__ == "__main__":
    main(explore, "C02", "exploration",
         "every floating operator/comparison/conversion x every type pair with a floating operand x every pair of boundary values (zeros of both signs, subnormals, extremes, infinities, NaN); conversions to integers only where defined; a case = one function, an evaluation = one argument tuple",
         ["gcc -O0 on SSE2 is the oracle; long double is outside (the compiler maps it to double)", "NaN payload/sign is not compared"])
