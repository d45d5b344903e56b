import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *

# member kinds: name -> (declaration with @ for the member's name, paths to take offsets of, bit-field?)
K = {
    "c": ("char @;", [""]), "h": ("unsigned short @;", [""]), "i": ("int @;", [""]), "l": ("long @;", [""]),
    "f": ("float @;", [""]), "d": ("double @;", [""]), "p": ("void *@;", [""]), "b": ("_Bool @;", [""]), "q": ("unsigned long long @;", [""]),
    "fp": ("int (*@)(void);", [""]), "e": ("enum {E@_$ = 1} @;", [""]),
    "c3": ("char @[3];", ["[0]", "[2]"]), "h2": ("short @[2];", ["[1]"]), "l2": ("long @[2];", ["[1]"]), "i23": ("int @[2][3];", ["[1][2]"]),
    "sci": ("struct{char a;int b;} @;", [".a", ".b"]), "sc": ("struct{char a[5];} @;", [".a[4]"]), "sl": ("struct{long a;char b;} @;", [".b"]),
    "ul": ("union{char a;long b;} @;", [".a"]), "sa": ("struct{char a;short b;} @[3];", ["[2].b"]),
    "as": ("struct{char a@;int b@;};", None), "au": ("union{char a@;double b@;};", None), "asn": ("struct{char a@;union{short b@;struct{char c@;long d@;};};};", None),
    "mi": ("char @, *x@, y@[2];", ["", "!x", "!y"]),
    "a8": ("_Alignas(8) char @;", [""]), "a16": ("_Alignas(16) int @;", [""]), "ad": ("_Alignas(double) char @[3];", [""]), "a0": ("_Alignas(0) short @;", [""]),
}
ANON = {"as": ["a@", "b@"], "au": ["a@", "b@"], "asn": ["a@", "b@", "c@", "d@"]}
B = {}
for t, n in (("_Bool", 1), ("signed char", 8), ("unsigned char", 8), ("short", 16), ("unsigned short", 16), ("int", 32), ("unsigned", 32), ("long", 64), ("unsigned long", 64)):
    for w in sorted({1, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64}):
        if w <= n:
            B["%s:%d" % (t, w)] = ("%s @:%d;" % (t, w), t)
Z = {}
for t in ("char", "short", "int", "long"):
    Z["%s:0" % t] = "%s :0;" % t
    Z["%s:u3" % t] = "%s :3;" % t
Z["int:u17"] = "int :17;"


def member(k, j):
    """(declaration, probes, bit-field fill statements)"""
    n = "m%d" % j
    if k in B:
        return B[k][0].replace("@", n), [], ["x.%s=-1;ob(&x,sizeof x);memset(&x,0,sizeof x);" % n]
    if k in Z:
        return Z[k], [], []
    d, paths = K[k]
    d = d.replace("@", n).replace("$", "@@")
    if paths is None:
        return d, [a.replace("@", n) for a in ANON[k]], []
    return d, [(p[1:] + n if p.startswith("!") else n + p) for p in paths], []


def case(seq, kw="struct", pack=None, extra=""):
    decls, probes, fills = "", [], []
    for j, k in enumerate(seq):
        d, p, f = member(k, j)
        decls += d
        probes += p
        fills += f
    pre, post = "", ""
    attr = ""
    if pack == "attr":
        attr = "__attribute__((packed))"
    elif pack:
        pre, post = "\n#pragma pack(push,%d)\n" % pack, "\n#pragma pack(pop)\n"
    glob = "%s%s T@@{%s}%s;%sstruct W@@{char c;%s T@@ t;};static %s T@@ g@@[2];" % (pre, kw, decls, attr, post, kw, kw)
    body = "%s T@@ x;o(sizeof x);o(_Alignof(%s T@@));o((char*)&((struct W@@*)0)->t-(char*)0);o((char*)&g@@[1]-(char*)&g@@[0]);memset(&x,0,sizeof x);" % (kw, kw)
    body += "".join("o((char*)&x.%s-(char*)&x);o(sizeof x.%s);" % (p, p) for p in probes)
    body += "".join("o(__builtin_offsetof(%s T@@,%s));" % (kw, p) for p in probes if False)
    body += "".join(fills)
    return PCase("%s%s{%s}" % ("" if pack is None else "pack(%s) " % pack, kw, ",".join(seq)), body, glob)


def explore(c):
    cs = []
    KS, BS, ZS = list(K), list(B), list(Z)
    allk = KS + BS + ZS
    for pack in (None, 1, 2, 4, 8, "attr"):
        for kw in ("struct", "union"):
            for a in KS + BS:
                cs.append(case((a,), kw, pack))
            if kw == "union" and pack not in (None, 1):
                continue
            for a, b in itertools.product(allk, allk):
                if all(x in Z for x in (a, b)) or (kw == "union" and (a in Z or b in Z) and False):
                    continue
                cs.append(case((a, b), kw, pack))
    # triples over representatives
    R = ["c", "h", "i", "l", "d", "c3", "sci", "as", "int:5", "unsigned:17", "unsigned char:3", "long:33", "unsigned short:9", "_Bool:1", "int:0", "char:u3", "a8"]
    for pack in (None, 1, 2, 4):
        for t in itertools.product(R, repeat=3):
            if pack in (2, 4) and not THOROUGH and not any(":" in k for k in t[:2]):
                continue
            cs.append(case(t, "struct", pack))
    R4 = ["c", "i", "int:5", "unsigned:17", "unsigned char:7", "long:33", "short:9", "int:0"]
    for t in itertools.product(R4, repeat=4):
        cs.append(case(t))
    if THOROUGH:
        for t in itertools.product(["c", "i", "int:5", "unsigned:17", "unsigned char:7", "long:33"], repeat=5):
            cs.append(case(t))
        for pack in (1, 2):
            for t in itertools.product(R4, repeat=4):
                cs.append(case(t, "struct", pack))
        BR = [b for b in BS if int(b.split(":")[1]) in (1, 5, 7, 8, 9, 16, 17, 31, 33)]
        for t in itertools.product(BR, repeat=3):
            cs.append(case(t))
    # many members
    for n in (10, 40, 200):
        for k in ("c", "int:5", "unsigned char:3", "sci", "h"):
            cs.append(case((k,) * n)); cs.append(case((k, "l") * (n // 2))); cs.append(case((k, "int:7", "c") * (n // 3)))
    # flexible array member
    for k in allk:
        for t in ("char", "int", "long", "double"):
            if k in Z:
                continue
            d, p, f = member(k, 0)
            cs.append(PCase("flexible %s %s" % (k, t), "o(sizeof(struct T@@));o(_Alignof(struct T@@));o((char*)&((struct T@@*)0)->fl-(char*)0);", "struct T@@{%s%s fl[];};" % (d, t)))
    # pragma pack stack histories: all sequences of push/pop/set up to a length, a struct after each
    ops = ["push,1", "push,2", "push", "pop", "", "1", "4", "8"]
    for n in (1, 2, 3, 4) if not THOROUGH else (1, 2, 3, 4, 5):
        for h in itertools.product(ops, repeat=n):
            d = 0
            ok = True
            for o_ in h:
                if o_.startswith("push"):
                    d += 1
                if o_ == "pop":
                    d -= 1
                    ok = ok and d >= 0
            if not ok:
                continue
            if n == 4 and not THOROUGH and sum(o_.startswith("p") for o_ in h) < 3:
                continue
            g, body = "", ""
            for j, o_ in enumerate(h):
                g += "\n#pragma pack(%s)\nstruct P@@_%d{char a;int b;short c;long d;};\n" % (o_, j)
                body += "o(sizeof(struct P@@_%d));" % j
            g += "\n" + "#pragma pack(pop)\n" * d + "struct Q@@{char a;long d;};\n#pragma pack()\n"
            cs.append(PCase("#pragma pack history " + "; ".join(h), body + "o(sizeof(struct Q@@));", g))
    # nesting: every kind inside a struct, union or packed struct, inside each of them again, next to other members
    for k in KS + BS:
        for ik, ipack in (("struct", ""), ("union", ""), ("struct", "__attribute__((packed))")):
            for ok_, opack in (("struct", ""), ("union", ""), ("struct", "__attribute__((packed))")):
                for shape in ("char a;%s s;char b;", "%s s[2];int:3;", "short a:5;%s;char b;", "int a:3;%s s;int b:4;"):
                    d, p, f = member(k, 0)
                    inner = "%s{char i;%s}%s" % (ik, d, ipack)
                    if shape.count("%s;"):
                        pr = ["i"] + p
                    else:
                        pr = [("s[1]." if "s[2]" in shape else "s.") + x for x in ["i"] + p]
                    if "char b" in shape:
                        pr.append("b")
                    if " b:" in shape:
                        f = ["x.b=-1;ob(&x,sizeof x);"]
                    else:
                        f = []
                    body = "%s T@@ x;memset(&x,0,sizeof x);o(sizeof x);o(_Alignof(%s T@@));" % (ok_, ok_)
                    body += "".join("o((char*)&x.%s-(char*)&x);" % q for q in pr) + "".join(f)
                    cs.append(PCase("%s%s{%s} around %s%s{%s}" % (ok_, opack, shape, ik, ipack, k), body, "%s T@@{%s}%s;" % (ok_, shape % inner, opack)))
    c.extra["layouts"] = len(cs)
    Printer(c, "void*memset(void*,int,unsigned long);\n").run(cs, 150)
    for s in cs[::max(1, len(cs) // 10)]:
        c.samples.append(s.key)
    c.extra["exhaustive"] = True


if __name__ == "__main__":
    main(explore, "C05", "exploration",
         "member sequences (all single members and pairs over the whole alphabet, triples and quadruples over representatives) x packing; #pragma pack histories up to length 4; each evaluation compares sizes, alignments, all offsets and the bytes touched by every bit-field with the system compiler; distinct = layouts",
         ["gcc implements the platform ABI's layout"])
