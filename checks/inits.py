import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *
from initmodel import *

I, CH, SH, UC, D, LL, BO = Scalar("int"), Scalar("char"), Scalar("short"), Scalar("unsigned char"), Scalar("double", "double"), Scalar("long"), Scalar("_Bool", "bool")
B5 = Scalar("unsigned %s:5", "bf")
P = Scalar("int *", "ptr")
IC = Rec("struct", "IC", [("a", I), ("b", CH)])
IN = Rec("struct", "IN", [("x", SH), ("y", Arr(CH, 3)), ("z", I)])
OU = Rec("struct", "OU", [("p", I), ("in", IC), ("q", SH)])
UN = Rec("union", "UN", [("a", I), ("c", Arr(CH, 4)), ("s", SH)])
US = Rec("struct", "US", [("k", CH), ("u", UN), ("e", I)])
AN = Rec("struct", "AN", [("a", CH), (None, Rec("struct", "", [("b", I), ("c", CH)])), ("d", SH)])
AU = Rec("struct", "AU", [("a", CH), (None, Rec("union", "", [("b", I), ("c", SH)])), ("d", SH)])
BF = Rec("struct", "BF", [("a", B5), ("b", Scalar("int %s:9", "bf")), ("c", CH)])
DE = Rec("struct", "DE", [("o", Arr(IC, 2)), ("m", Rec("struct", "DEm", [("n", IC), ("v", Arr(SH, 2))]))])
ST = Rec("struct", "ST", [("s", Arr(CH, 4)), ("n", I)])
S2 = Rec("struct", "S2", [("s", Arr(Arr(CH, 3), 2)), ("n", I)])
UD = Rec("union", "UD", [("in", IC), ("l", Arr(I, 4)), ("d", D)])
MX = Rec("struct", "MX", [("f", Scalar("float", "double")), ("d", D), ("b", BO), ("l", LL)])
UA = Rec("struct", "UA", [("v", Arr(UN, 2)), ("t", CH)])
RECS = [IC, IN, OU, UN, US, AN, AU, BF, Rec("struct", "DEm", [("n", IC), ("v", Arr(SH, 2))]), ST, S2, UD, MX, UA]


def rec_def(t):
    s = ""
    for n, m in t.members:
        if n is None:
            s += "%s{%s};" % (m.kw, "".join(x[1].decl(x[0]) + ";" for x in m.members))
        else:
            s += m.decl(n) + ";"
    return "%s %s{%s};\n" % (t.kw, t.tag, s)


PRE = "void*memset(void*,int,unsigned long);static int calls;static long f(long v){calls++;return v;}static int zero;\n" + "".join(rec_def(r) for r in RECS) + rec_def(DE) + \
    "static void dirt(void){char b[3000];memset(b,0xa5,sizeof b);}\n"

TYPES = [("int[3]", Arr(I, 3)), ("int[]", Arr(I, None)), ("int[2][2]", Arr(Arr(I, 2), 2)), ("int[][2]", Arr(Arr(I, 2), None)), ("char[4]", Arr(CH, 4)), ("IC", IC), ("IN", IN), ("OU", OU), ("UN", UN), ("US", US), ("AN", AN), ("AU", AU),
         ("BF", BF), ("DE", DE), ("ST", ST), ("S2", S2), ("UD", UD), ("MX", MX), ("IC[2]", Arr(IC, 2)), ("IC[]", Arr(IC, None)), ("UA", UA), ("UN[2]", Arr(UN, 2)), ("ST[]", Arr(ST, None)), ("char[]", Arr(CH, None)), ("char[2][3]", Arr(Arr(CH, 3), 2)),
         ("char[][3]", Arr(Arr(CH, 3), None)), ("int[2][2][2]", Arr(Arr(Arr(I, 2), 2), 2))]


def desig_choices(t, depth=3):
    """designator lists usable on an aggregate of type t"""
    r = []
    if isinstance(t, Arr):
        n = t.n if t.n is not None else 3
        idx = sorted({0, n - 1, 1 if n > 1 else 0})
        for i in idx:
            r.append(((i,), t.el))
            if depth > 1:
                r += [((i,) + d, e) for d, e in desig_choices(t.el, depth - 1)]
    elif isinstance(t, Rec):
        for n, m in t.members:
            if n is None:
                r += desig_choices(m, depth)
                continue
            r.append(((n,), m))
            if depth > 1:
                r += [((n,) + d, e) for d, e in desig_choices(m, depth - 1)]
    return r


def brace_trees(t, size, depth, desig, strings):
    """all initialiser lists for an aggregate of type t with `size` items in all"""
    key = (id(t), size, depth, desig, strings)
    if key in MEMO:
        return MEMO[key]
    out = []
    # lists as sequences of items; an item uses >=1 of size
    def extend(prefix, left, dleft):
        if left == 0:
            out.append(prefix)
            return
        heads = [((), None)]
        if dleft:
            heads += [(d, e) for d, e in desig_choices(t)]
        for d, e in heads:
            extend(prefix + [(d, ("v",))], left - 1, dleft - (1 if d else 0))
            if strings:
                for s in strings:
                    extend(prefix + [(d, ("s", s))], left - 1, dleft - (1 if d else 0))
            if depth > 0:
                targets = [e] if e is not None else inner_types(t)
                for k in range(1, left + 1):
                    seen = set()
                    for tt in targets:
                        if isinstance(tt, Scalar):
                            if k == 1:
                                extend(prefix + [(d, ("b", [((), ("v",))]))], left - 1, dleft - (1 if d else 0))
                            continue
                        for b in brace_trees(tt, k, depth - 1, min(1, dleft), strings):
                            r = repr(b)
                            if r in seen:
                                continue
                            seen.add(r)
                            extend(prefix + [(d, ("b", b))], left - k, dleft - (1 if d else 0))
    extend([], size, desig)
    MEMO[key] = out
    return out


MEMO = {}


def inner_types(t):
    if isinstance(t, Arr):
        return [t.el]
    r = []
    for n, m in t.members:
        if not any(m is x for x in r):
            r.append(m)
    return r


def number(b, ctr):
    """give every scalar item its own value"""
    r = []
    for d, i in b:
        if i[0] == "v":
            ctr[0] += 1
            r.append((d, ("v", ctr[0])))
        elif i[0] == "b":
            r.append((d, ("b", number(i[1], ctr))))
        else:
            r.append((d, i))
    return r


def text(init, rt=False):
    if init[0] == "v":
        return "f(%d)" % init[1] if rt else str(init[1])
    if init[0] == "s":
        return '"%s"' % "".join(chr(c) for c in init[1])
    return "{" + ",".join("".join("[%d]" % d if isinstance(d, int) else "." + d for d in ds) + ("=" if ds else "") + text(i, rt) for ds, i in init[1]) + "}"


def n_calls(init):
    return 1 if init[0] == "v" else sum(n_calls(i) for _, i in init[1]) if init[0] == "b" else 0


def expected(o, t):
    r = []
    for suf, p, sc in leaves(o, t):
        v = value(o, p)
        if sc.kind == "bool":
            v = int(v != 0)
        r.append((suf, v & 0xffffffffffffffff))
    return r


def make(t, name, b):
    init = ("b", number(b, [0]))
    o = initialise(t, init)          # raises Invalid
    L = expected(o, t)
    sz = "o(sizeof %s);" if isinstance(t, Arr) and t.n is None else ""
    def rd(x):
        return "".join("o(%s%s);" % (x, s) for s, v in L)
    cnt = o.overrides == 0
    decl = t.decl
    glob = "static %s=%s;" % (decl("g@@"), text(init))
    body = (sz % "g@@" if sz else "") + rd("g@@")
    body += "{dirt();%s=%s;%s%s}" % (decl("x"), text(init), sz % "x" if sz else "", rd("x"))
    body += "{dirt();calls=0;%s=%s;%s%s}" % (decl("x"), text(init, True), rd("x"), "o(calls);" if cnt else "")
    lit = "(%s)%s" % (decl(""), text(init))
    if isinstance(t, Rec):
        body += "{%s;y=%s;%s}" % (decl("y"), lit, rd("y"))
    exp = []
    vals = ["%x" % v for s, v in L]
    if sz:
        el = sizeof(t.el)
        s1 = ["%x" % (el * (o.maxidx + 1))]
    else:
        s1 = []
    exp = s1 + vals + s1 + vals + vals + (["%x" % n_calls(init)] if cnt else []) + (vals if isinstance(t, Rec) else [])
    k = PCase("%s x=%s" % (name, text(init)), body, glob, " ".join(exp))
    k.steps = len(o.v) + o.overrides
    return k


def sizeof(t):
    if isinstance(t, Scalar):
        return {"int": 4, "char": 1, "short": 2, "unsigned char": 1, "long": 8}[t.c]
    if isinstance(t, Arr):
        return t.n * sizeof(t.el)
    return {"IC": 8, "ST": 8}[t.tag]


def explore(c):
    cs = []
    invalid = 0
    strs = ((97, 98), (97, 98, 99))
    for name, t in TYPES:
        hasstr = any(x in repr_type(t) for x in ("char[",))
        seen = set()
        plans = [(1, 2, 1), (2, 2, 1), (3, 1, 1), (3, 2, 0), (2, 2, 2), (4, 1, 0), (5, 0, 0)]
        if THOROUGH:
            plans += [(3, 2, 2), (4, 2, 0), (4, 1, 1)]
        for size, depth, desig in plans:
            MEMO.clear()
            for b in brace_trees(t, size, depth, desig, strs if hasstr and size <= 3 else None):
                k = repr(b)
                if k in seen:
                    continue
                seen.add(k)
                try:
                    cs.append(make(t, name, b))
                except Invalid:
                    invalid += 1
    c.extra["initialisers"] = len(cs)
    c.extra["ill_formed_skipped"] = invalid
    p = Printer(c, PRE, gccflags=["-Wno-error"])
    # the model itself is checked against gcc on a fixed share of the cases and on all of them in the thorough tier
    share = cs if THOROUGH else cs[::7]
    def xc(group):
        ref = parse_marks(p.run_gcc(tu(group, PRE)))
        for i, k in enumerate(group):
            if ref.get(i) != k.expect:
                raise CheckError("initialiser model disagrees with gcc: %s\nmodel %s\ngcc   %s" % (k.key, k.expect, ref.get(i)))
    pmap(xc, chunks(share, 150))
    c.extra["model_cross_checked"] = len(share)
    p.run(cs, 150)
    c.states = len(cs)
    c.transitions = sum(k.steps for k in cs)
    c.traces = len(cs)
    extra = special()
    Printer(c, PRE).run(extra, 60)
    c.extra["special_forms"] = len(extra)
    for s_ in cs[::max(1, len(cs) // 10)]:
        c.samples.append(s_.key)
    c.extra["exhaustive"] = True


def repr_type(t):
    if isinstance(t, Scalar):
        return t.c
    if isinstance(t, Arr):
        return repr_type(t.el) + "[]" if not t.is_str() else "char[]"
    return t.tag + "{" + ",".join(repr_type(m) for m in members(t)) + "}"


def special():
    """forms beyond integer leaves: strings of every kind and length, addresses, records, sizes, compound literals"""
    cs = []
    def add(key, body, glob=""):
        cs.append(PCase(key, body, glob))
    # strings against array lengths
    for ty, pre in (("char", ""), ("unsigned char", ""), ("signed char", ""), ("int", "L"), ("unsigned short", "u"), ("unsigned", "U"), ("char", "u8")):
        for sl in range(0, 6):
            for n in [""] + list(range(max(1, sl), 8)):
                for br in ("%s", "{%s}", "{%s,}", '%s ""', '"" %s'):
                    s = br % ('%s"%s"' % (pre, "abcdefgh"[:sl]))
                    g = "static %s g@@[%s]=%s;static struct{char c;%s s[%s];int e;}k@@={1,%s,7};" % (ty, n, s, ty, n or 8, s)
                    add("%s[%s]=%s" % (ty, n, s), "int i;dirt();%s x[%s]=%s;o(sizeof g@@);o(sizeof x);ob(g@@,sizeof g@@);ob(x,sizeof x);struct{char c;%s s[%s];int e;}y={1,%s,7};o(y.c);ob(y.s,sizeof y.s);o(y.e);o(k@@.c);ob(k@@.s,sizeof k@@.s);o(k@@.e);" % (ty, n, s, ty, n or 8, s), g)
    for s in (r'"a\0b"', r'"\0"', r'"\x80\xff"', r'"\377\12\1"', r'"a" "b" "c"', r'"\n\t\\\"\?\a"', r'"\x1" "2"', r'"\1" "1"', r'"%s"', '"é€𝄞"', '"//x/*y*/"'):
        for pre, ty in (("", "char"), ("L", "int"), ("u", "unsigned short"), ("U", "unsigned")):
            s2 = pre + s
            add("%s x[]=%s" % (ty, s2), "%s x[]=%s;o(sizeof x);ob(x,sizeof x);o(sizeof g@@);ob(g@@,sizeof g@@);ob(%s,sizeof(%s));ob(p@@,sizeof g@@);" % (ty, s2, s2, s2), "static %s g@@[]=%s;static const %s*p@@=%s;" % (ty, s2, ty, s2))
    # sizes: zero filling of partially initialised objects of every size, with the initialised element anywhere
    for n in list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097]:
        for pos in sorted({0, n // 2, n - 1}):
            add("char x[%d]={[%d]=1}" % (n, pos), "int i;dirt();{char x[%d]={[%d]=1};long s=0;for(i=0;i<%d;i++)s=s*3+x[i];o(s);}{char b0=7,x[%d]={[%d]=1},b1=8;long s=0;for(i=0;i<%d;i++)s=s*3+x[i];o(s);o(b0);o(b1);}ob(g@@,sizeof g@@);o(h@@);" % (n, pos, n, n, pos, n), "static char g@@[%d]={[%d]=1},h@@=5;" % (n, pos))
        if n < 70 or n in (128, 129, 256, 257, 1000):
            add("struct of %d chars copied" % n, "int i;dirt();struct Z@@ x={{1}},y,z;y=x;x.c[%d]=9;z=x;for(i=0;i<%d;i++){o(y.c[i]);o(z.c[i]);}struct Z@@ w=z;ob(&w,sizeof w);g@@=w;ob(&g@@,sizeof w);o(h@@);" % (n - 1, n), "static struct Z@@{char c[%d];}g@@;static char h@@=5;" % n)
    # pointers
    for e in ("&v@@", "&a@@[1]", "a@@", "a@@+2", "&s@@.b", "s@@.c", "s@@.c+1", "&s@@.c[1]", "0", "(int*)0", "&*&v@@", "&a@@[2]-1", "(int*)((char*)a@@+4)", "&(*ap@@)[1]" , "(&s@@)->c", "&(&s@@)->b", "1?&v@@:0", "&2[a@@]", "(void*)&v@@"):
        if "ap@@" in e:
            continue
        add("int *p=%s" % e, "int *x=%s;o(p@@==x);o(p@@==q@@.p);o(p@@?*p@@:-1);o(w@@[1]==x);int*y[3]={[1]=%s};o(y[1]==x);o(!y[0]);" % (e, e),
            "static int v@@=11,a@@[3]={21,22,23};static struct{int a,b,c[2];}s@@={31,32,{33,34}};static int*p@@=%s;static struct{char k;int*p;}q@@={1,%s};static int*w@@[]={0,%s};" % (e, e, e))
    for e in ('"abc"', '"abc"+1', '&"abc"[2]', '(char*)"abc"', '{"abc"}'):
        add("char *p=%s" % e, "char*x=%s;os(x);os(g@@);os(h@@[0].p);os(h@@[1].p);os(fn@@());" % e, 'static char*g@@=%s;static struct{int k;char*p;}h@@[]={{1,%s},{2,"z"}};static char*fn@@(void){static char*l=%s;return l;}' % (e, e, e))
    add("function pointers", "o(t@@[0](3));o(t@@[1](3));o(q@@.f(4));int(*l[])(int)={[1]=f1@@,f2@@};o(l[1](1));o(l[2](1));o(!l[0]);", "static int f1@@(int a){return a+1;}static int f2@@(int a){return a*10;}static int(*t@@[])(int)={f1@@,&f2@@};static struct{char c;int(*f)(int);}q@@={1,f2@@};")
    # compound literals
    for ty, lit, use in (("int*", "(int[]){1,2,3}", "o(x[0]);o(x[2]);"), ("int*", "(int[4]){[2]=5}", "o(x[0]);o(x[2]);o(x[3]);"), ("struct IC*", "&(struct IC){.b=3}", "o(x->a);o(x->b);"), ("struct OU*", "&(struct OU){1,{2,3},4}", "o(x->in.b);o(x->q);"),
                         ("int*", "&(int){7}", "o(*x);"), ("char*", '(char[]){"hey"}', "os(x);"), ("char*", '(char[6]){"hey"}', "os(x);o(x[5]);"), ("union UN*", "&(union UN){.s=4}", "o(x->s);"), ("struct IC*", "(struct IC[]){{1,2},{3,4}}", "o(x[1].b);o(x[0].a);"),
                         ("int**", "(int*[]){(int[]){4,5},(int[]){6}}", "o(x[0][1]);o(x[1][0]);"), ("struct DE*", "&(struct DE){.m={.v={1,2}},.o={[1]={3,4}}}", "o(x->m.v[1]);o(x->o[1].b);o(x->o[0].a);")):
        for stor in ("auto", "static", "file", "assign", "arg"):
            if stor == "auto":
                add("%s auto %s" % (ty, lit), "dirt();%s x=%s;%s" % (ty, lit, use))
            elif stor == "static":
                if True:
                    add("%s file-scope pointer nested %s" % (ty, lit), "%s x=g@@.p;%so(g@@.k);" % (ty, use), "static struct{char k;%s p;}g@@={3,%s};" % (ty, lit))
            elif stor == "file":
                add("%s file %s" % (ty, lit), "%s x=g@@;%s" % (ty, use), "static %s g@@=%s;" % (ty, lit))
            elif stor == "assign":
                add("%s assigned %s" % (ty, lit), "%s x;int i;dirt();for(i=0;i<2;i++){x=%s;%s}" % (ty, lit, use))
            else:
                add("%s arg %s" % (ty, lit), "dirt();fn@@(%s);" % lit, "static void fn@@(%s x){%s}" % (ty, use))
    for e in ("(struct IC){1,2}.b", "(int[]){4,5,6}[1]", "(int){3}+1", "((struct OU){.in={7,8}}).in.a", "sizeof(int[]){1,2,3}", "sizeof(char[]){\"abc\"}", "(union UN){.a=5}.a", "*(int[]){9}", "(struct IC){.a=zero+2}.a", "(&(struct IC){5,6})->b"):
        add("value %s" % e, "dirt();o(%s);int i;for(i=0;i<3;i++){o(%s);}" % (e, e))
    add("compound literal modified in a loop", "int i;for(i=0;i<3;i++){int*p=(int[]){1,2};p[0]+=i;p[1]*=p[0];o(p[0]);o(p[1]);}")
    add("compound literal per call", "o(fn@@(3));o(fn@@(4));", "static int fn@@(int n){int*p=&(int){n};if(n>0){fn@@(n-1);}return *p*10;}")
    # records as initialisers
    for t, decl, init in (("struct OU", "struct IC s={5,6}", "{1,s,2}"), ("struct OU", "struct IC s={5,6}", "{.in=s}"), ("struct OU", "struct IC s={5,6}", "{.in=s,.in.b=9}"), ("struct OU", "struct OU s={5,{6,7},8}", "s"), ("struct OU", "struct OU s={5,{6,7},8}", "{s.p,s.in,s.q}"),
                         ("struct OU", "struct IC s[2]={{1,2},{3,4}}", "{9,s[1],8}"), ("struct OU", "struct IC s={5,6},*p=&s", "{9,*p,8}"), ("struct OU", "int z=0", "{9,(struct IC){3,4},8}"), ("struct OU", "int z=0", "{9,mk(),8}"), ("struct OU", "struct IC a={1,2},b={3,4}", "{9,zero?a:b,8}"), ("struct OU", "struct IC a={1,2},b", "{9,b=a,8}"), ("struct OU", "struct IC a={1,2}", "{9,(zero,a),8}")):
        add("%s; %s x=%s" % (decl, t, init), "dirt();%s;%s x=%s;o(x.p);o(x.in.a);o(x.in.b);o(x.q);%s y[2]={[1]=%s};o(y[1].in.a);o(y[1].q);o(y[0].in.b);" % (decl, t, init, t, init), "static struct IC mk(void){struct IC r={7,8};return r;}".replace("mk", "mk@@") if "mk" in init else "")
        if "mk" in init:
            cs[-1].body = cs[-1].body.replace("mk()", "mk@@()")
    for t, decl, init, use in (("struct IC x[3]", "struct IC s={5,6}", "{s,s,{1,2}}", "o(x[0].a);o(x[1].b);o(x[2].b);"), ("struct IC x[3]", "struct IC s={5,6}", "{1,2,s,3}", "o(x[0].a);o(x[1].b);o(x[2].a);o(x[2].b);"), ("struct DE x", "struct IC s={5,6}", "{{s,{1,2}},{s,{7,8}}}", "o(x.o[0].b);o(x.o[1].a);o(x.m.n.b);o(x.m.v[1]);"),
                               ("struct DE x", "struct IC s={5,6}", "{s,s,s,7,8}", "o(x.o[0].b);o(x.o[1].a);o(x.m.n.b);o(x.m.v[1]);"), ("struct DE x", "struct IC s={5,6}", "{s,1,2,s,7,8}", "o(x.o[0].b);o(x.o[1].a);o(x.m.n.b);o(x.m.v[1]);"), ("union UD x", "struct IC s={5,6}", "{s}", "o(x.in.a);o(x.in.b);"), ("union UD x", "struct IC s={5,6}", "{.in=s}", "o(x.in.a);o(x.in.b);")):
        add("%s; %s=%s" % (decl, t, init), "dirt();%s;%s=%s;%s" % (decl, t, init, use))
    # conversions on initialisation
    for t in ("char", "unsigned char", "short", "int", "unsigned", "long", "float", "double", "_Bool"):
        for v in ("300", "-1", "3.99", "-2.5f", "1e10", "0x123456789L", "'a'", "65535u", "0.0", "-0.0", "1.5e-3"):
            if t not in ("float", "double", "long") and v in ("1e10",) or t in ("unsigned", "unsigned char") and v.startswith("-2") or t == "unsigned char" and v == "-0.0" and False:
                continue
            add("%s x=%s" % (t, v), "dirt();%s x=%s,y[2]={[1]=%s};struct{char c;%s m;}z={1,%s};ob(&x,sizeof x);ob(y,sizeof y);ob(&z.m,sizeof z.m);ob(&g@@,sizeof g@@);ob(h@@,sizeof h@@);ob(&k@@.m,sizeof g@@);" % (t, v, v, t, v), "static %s g@@=%s,h@@[2]={[1]=%s};static struct{char c;%s m;}k@@={1,%s};" % (t, v, v, t, v))
    # addresses at every offset of packed records, with every run of plain bytes before and after them
    for pack in (1, 2, 4):
        for i in range(0, 10):
            for j in range(0, 10):
                for k in (range(0, 10) if pack == 1 else (0, 3)):
                    m = [("char a[%d]" % i, "{%s}" % ",".join(str(x + 1) for x in range(i))) if i else None, ("int *p", "w@@+1"),
                         ("char b[%d]" % j, "{%s}" % ",".join(str(x + 21) for x in range(j))) if j else None, ("char *q", '"xyz"+1' if (i + j) & 1 else "(char*)&w@@[2]"),
                         ("char c[%d]" % k, "{%s}" % ",".join(str(x + 41) for x in range(k))) if k else None]
                    m = [x for x in m if x]
                    ty = "struct P@@{%s;}" % ";".join(x[0] for x in m)
                    v = "{%s}" % ",".join(x[1] for x in m)
                    use = "".join("ob(%%s.%s,%d);" % (n, l) for n, l in (("a", i), ("b", j), ("c", k)) if l)
                    use += "o(%s.p-w@@);o(*%s.p);o(*%s.q);"
                    add("pack(%d) %s" % (pack, ty), "o(sizeof(struct P@@));" + "".join(use.replace("%s", x) for x in ("g@@[0]", "g@@[2]")) + "o(!g@@[1].p);o(e@@);" + ("struct P@@ x=%s;" % v + use.replace("%s", "x") if (i + j + k) % 3 == 0 else ""),
                        "\n#pragma pack(push,%d)\n%s;\n#pragma pack(pop)\nstatic int w@@[3]={7,8,9};static struct P@@ g@@[3]={%s,[2]=%s};static char e@@=77;" % (pack, ty, v, v))
    # several declarators, statics, shadows, self reference
    add("several declarators", "dirt();int a=1,b=a+1,c[]={a,b},*p=&b,d=*p+c[1];o(a);o(b);o(c[1]);o(d);o(sizeof c);")
    add("sizeof self", "int x[5]={sizeof x,[3]=sizeof x/sizeof x[0]};o(x[0]);o(x[3]);void*p=&p;o(p==&p);struct{void*q;}s={&s};o(s.q==&s);")
    add("static locals keep values", "int i;for(i=0;i<3;i++){static int n=5,a[]={1,2,3};static struct IC s={.b=4};n++;a[1]+=n;s.b++;o(n);o(a[1]);o(s.b);o(sizeof a);}")
    add("large index", "o(sizeof g@@);o(g@@[1000]);o(g@@[999]);o(g@@[1001]);int x[]={[500]=3,4};o(sizeof x);o(x[500]);o(x[501]);o(x[499]);", "static short g@@[]={[1000]=7,8,[2]=5};")
    add("computed designators", "int x[]={[E@@]=1,[E@@+2]=2,['\\3']=3,[sizeof(int)+1]=4};int i;o(sizeof x);for(i=0;i<6;i++)o(x[i]);", "enum{E@@=1};")
    add("nested array of strings", "int i;dirt();char x[][5]={\"ab\",{\"cd\"},{'e','f'},[4]=\"ghijk\",\"l\"};o(sizeof x);ob(x,sizeof x);ob(g@@,sizeof g@@);o(sizeof g@@);", "static char g@@[][5]={\"ab\",{\"cd\"},{'e','f'},[4]=\"ghijk\",\"l\"};")
    for n in (1, 2, 3, 7, 50, 300, 2000):
        add("array of %d listed elements" % n, "dirt();int i;long s=0,t=0;static int g[]={%s};int x[]={%s};o(sizeof g);o(sizeof x);for(i=0;i<%d;i++){s=s*7+g[i];t=t*7+x[i];}o(s);o(t);" % (",".join(str(i * 3) for i in range(n)), ",".join(str(i * 3) for i in range(n)), n))
    for n in (1, 2, 5, 20):
        add("nesting %d deep" % n, "dirt();int x%s=%s;o(x%s);o(g@@%s);" % ("[1]" * n, "{" * n + "4" + "}" * n, "[0]" * n, "[0]" * n), "static int g@@%s=%s;" % ("[1]" * n, "{" * n + "4" + "}" * n))
    return cs


if __name__ == "__main__":
    main(explore, "C07", "model_checking",
         "all initialiser trees (nesting, elided braces, designators, strings) up to a size for each of the listed types; every element of static, automatic (constant and run-time values) and compound-literal objects compared with a model of 6.7.9 that is itself compared with gcc; plus special forms against gcc",
         ["gcc implements 6.7.9 for the cross-checked share of the initialisers"])
