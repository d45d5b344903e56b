import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *

PRE = """void*memset(void*,int,unsigned long);
static unsigned long H;
static void h(long v){H=(H^(unsigned long)v)*1099511628211UL;H^=H>>29;}
static void hb(void*p,int n){int i;for(i=0;i<n;i++)h(((unsigned char*)p)[i]);}
static void out(void){o(H);H=1469598103934665603UL;}
static long V[]={0,1,-1,2,5,-3,127,128,-128,255,256,-129,0x5555,-0x5556,0x7fffffffL,-0x7fffffffL-1,0x80000000L,0xffffffffL,0x123456789abcdefL,-0x123456789abcdefL,0x7fffffffffffffffL,-0x7fffffffffffffffL-1};
"""
NV = 22
TYPES = [("_Bool", 1, 0), ("char", 8, 1), ("signed char", 8, 1), ("unsigned char", 8, 0), ("short", 16, 1), ("unsigned short", 16, 0),
         ("int", 32, 1), ("unsigned", 32, 0), ("long", 64, 1), ("unsigned long", 64, 0), ("long long", 64, 1), ("unsigned long long", 64, 0)]
PREFIX = ["", "unsigned p:1;", "unsigned char p:3;", "char p;", "short p:7;", "unsigned long p:29;", "int :2;", "long p:61;"]
SUFFIX = ["", "int q:5;", "char q;", "unsigned long q:31;"]


def widths(n):
    return sorted({w for w in (1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 56, 57, 63, 64) if w <= n})


def safe_ops(t, w, s):
    """operations (as text on lvalue L) free of undefined behaviour from every state"""
    ops = ["L=0", "L=1", "L=-1", "L=6", "L=0x15a", "L|=9", "L&=5", "L^=-1", "L^=0x2d"]
    if t == "_Bool":
        return ["L=0", "L=1", "L=2", "L=256", "L|=2", "L&=1", "L^=1", "L+=1", "L++", "++L", "L*=3"]
    if not s or w < 31:
        ops += ["L+=3", "L-=7", "L*=3", "L++", "++L", "L--", "--L"]
        if w < 20 or not s:
            ops += ["L*=-5"] if w <= 16 or not s else []
    ops += ["L>>=1", "L%=7", "L/=3"]
    if not s:
        ops += ["L<<=1", "L<<=3"]
    return ops


def structure(t, w, pre, suf, packed):
    return "struct S@@{%s%s f:%d;%s}%s;" % (pre, t, w, suf, packed)


def others(pre, suf, x):
    r = ""
    if " p" in pre:
        r += "h(%sp);" % x
    if " q" in suf:
        r += "h(%sq);" % x
    return r


def value_case(t, w, s, pre, suf, packed, quick_forms=None):
    """every boundary value stored over every background, through each kind of access"""
    g = structure(t, w, pre, suf, packed) + "static struct S@@ g@@,a@@[3];struct O@@{char c;struct S@@ in;};static int one@@=1;"
    g += "static void tst@@(struct S@@*p,long v,int bg){memset(p,bg,sizeof*p);h(p->f=v);h(p->f);h(p->f?3:4);h(!p->f);%shb(p,sizeof*p);}" % others(pre, suf, "p->")
    b = "int i,m;struct S@@ x,y;struct O@@ u;for(m=0;m<2;m++)for(i=0;i<%d;i++){" % NV
    b += "tst@@(&x,V[i],m*255);tst@@(a@@+one@@,V[i],m*255);"
    b += "memset(&x,m*255,sizeof x);h(x.f=V[i]);h(x.f);%shb(&x,sizeof x);" % others(pre, suf, "x.")
    b += "memset(&g@@,m*255,sizeof x);h((g@@.f=V[i]));h(g@@.f);%shb(&g@@,sizeof x);" % others(pre, suf, "g@@.")
    b += "memset(&u,m*255,sizeof u);u.in.f=V[i];h(u.in.f);h(u.c);u.in.f=x.f;hb(&u.in,sizeof u.in);"
    b += "memset(a@@,m*255,sizeof a@@);a@@[one@@].f=V[i];h(a@@[one@@].f);hb(a@@,sizeof a@@);y=a@@[one@@];h(y.f);"
    b += "x.f=y.f=V[%d-i];h(x.f);h(y.f);" % (NV - 1)
    b += "out();}"
    return PCase("values of %s" % g.split(";static")[0].replace("@@", ""), b, g)


def promo_case(t, w, s, pre, suf, packed):
    """the integer promotions and conversions of the value read"""
    g = structure(t, w, pre, suf, packed)
    b = "int i;struct S@@ x;memset(&x,0,sizeof x);for(i=0;i<%d;i++){x.f=V[i];" % NV
    fs = ["x.f-1000<0", "x.f>-1", "x.f>-1000L", "(double)x.f<0", "x.f==x.f", "sizeof(+x.f)==sizeof(int)", "~x.f<0", "-x.f>5", "(x.f>>1)", "(x.f<<1)" if s == 0 or w < 31 and False else "0",
          "x.f&-2", "x.f?x.f:-1", "(char)x.f", "(unsigned char)x.f", "(short)x.f", "(_Bool)x.f", "(unsigned)x.f", "1?x.f:0u", "(long)(1?x.f:0)", "x.f/2", "x.f%3", "x.f+0u", "x.f*1.0==(double)x.f", "V[x.f&7]", "x.f&&x.f", "(x.f,x.f)", "id(x.f)", "(x.f)-1000<0", "((const struct S@@*)&x)->f-1000<0", "((volatile struct S@@*)&x)->f", "((const struct S@@*)&x)->f>-1", "((const struct S@@*)&x)->f<-id(1)",
          "-1<((const struct S@@*)&x)->f", "((const struct S@@*)&x)->f+0u>5", "_Generic(x.f+1,int:1,unsigned:2,default:3)", "_Generic(+((const struct S@@*)&x)->f,int:1,unsigned:2,default:3)"]
    # a cast to the type of the bit-field isn't one any more, and neither are the casts around it
    fs += [f % t for f in ("(%s)x.f-1000<0", "(%s)x.f>-1", "-1<(%s)x.f", "(%s)x.f*0-1>0", "1?(%s)x.f-1>0:0", "(%s)((const struct S@@*)&x)->f-1>0", "~(%s)x.f>0",
                             "sizeof((%s)x.f)", "-(%s)(x.f&1)<0", "(1?(%s)x.f:0)-1>0")]
    if s and w in (32, 64):
        fs = [f for f in fs if "-1000<0" not in f and "-1>0" not in f and f != "-x.f>5"]
    b += "".join("h(%s);" % f for f in fs) + "out();}"
    return PCase("conversions of %s" % g.replace("@@", ""), b, g)


def init_case(t, w, s, pre, suf, packed):
    g = structure(t, w, pre, suf, packed)
    b = ""
    vals = ["0", "1", "-1", "5", "0x5a", "-100", "0x7fffffff", "0x123456789abcdef"]
    for j, v in enumerate(vals):
        g += "static struct S@@ i%d_@@={.f=%s};static struct S@@ k%d_@@[]={[1]={.f=%s},{.f=3}};" % (j, v, j, v)
        b += "hb(&i%d_@@,sizeof i%d_@@);h(i%d_@@.f);hb(k%d_@@,sizeof k%d_@@);{long v=%s;struct S@@ x={.f=%s},y={.f=v},z[2]={[1].f=v};struct S@@*c=&(struct S@@){.f=v};h(x.f);h(y.f);h(z[0].f);h(z[1].f);h(c->f);%s}out();" % (j, j, j, j, j, v, v, "".join(others(pre, suf, q) for q in ("x.", "y.", "z[0].", "z[1].", "c->")))
        if " p" in pre and " q" in suf:
            g += "static struct S@@ n%d_@@={1,%s,-2};" % (j, v)
            b += "hb(&n%d_@@,sizeof n%d_@@);{long v=%s;struct S@@ x={1,v,-2},y={.q=3,.f=v,.p=1},w={.f=v,.p=-1,.f=v};h(x.f);h(y.f);h(w.f);%s}out();" % (j, j, v, "".join(others(pre, suf, q) for q in ("x.", "y.", "w.")))
    return PCase("initialisers of %s" % g.split(";static")[0].replace("@@", ""), b, g)


def history_case(members, depth, packed="", label=""):
    """all operation sequences up to a depth over the fields of one struct"""
    ops = []
    decl = ""
    for n, t, w, s, some in members:
        decl += "%s %s:%d;" % (t, n, w)
        L = safe_ops(t, w, s)
        if some:
            L = L[::2] if some == 1 else L[1::2]
        ops += [o_.replace("L", "x->" + n) for o_ in L]
    if len(members) > 1:
        a, b = members[0][0], members[1][0]
        ops += ["x->%s=x->%s" % (a, b), "x->%s=x->%s=7" % (b, a), "x->%s=x->%s++" % (a, b) if members[1][3] == 0 or members[1][2] < 31 else "x->%s=!x->%s" % (a, b)]
    g = "struct S@@{%s}%s;static void step@@(struct S@@*x,int k){switch(k){" % (decl, packed)
    for j, o_ in enumerate(ops):
        g += "case %d:h(%s);break;" % (j, o_)
    g += "}%shb(x,sizeof*x);}" % "".join("h(x->%s);" % m[0] for m in members)
    n = len(ops)
    b = "struct S@@ x;" + "".join("int k%d;" % i for i in range(depth)) + "for(k0=0;k0<%d;k0++){" % n
    b += "".join("for(k%d=0;k%d<%d;k%d++)" % (i, i, n, i) for i in range(1, depth)) + "{memset(&x,0x5a,sizeof x);" + "".join("step@@(&x,k%d);" % i for i in range(depth)) + "}out();}"
    c = PCase("histories %s of struct{%s}%s" % (label, decl, packed), b, g)
    c.steps = n ** depth
    return c


def flow_case(t, w, s, pre, suf, packed):
    """bit-fields live across blocks, loops and calls"""
    g = structure(t, w, pre, suf, packed)
    g += "static struct S@@ ret@@(long v){struct S@@ r;memset(&r,0,sizeof r);r.f=v;return r;}static long arg@@(struct S@@ a){a.f=a.f^1;return a.f;}"
    inc = "x.f=x.f+1" if not (s and w >= 31) else "x.f=~x.f"
    b = "int i;struct S@@ x,*p=&x;long acc=0;memset(&x,0,sizeof x);for(i=0;i<40;i++){if(x.f)%s;else x.f=1;acc=acc*3+x.f;switch(x.f){case 0:acc++;break;case 1:acc+=2;break;case -1:acc+=4;break;default:acc+=8;}p->f^=i;h(acc);h(x.f);h((i&1)?p->f:x.f);}" % inc
    b += "for(i=0;i<%d;i++){h(ret@@(V[i]).f);x.f=V[i];h(arg@@(x));h(x.f);}while(x.f){x.f=x.f&(x.f>>1)&0x7f;h(x.f);}out();" % NV
    return PCase("control flow over %s" % g.split(";static")[0].replace("@@", ""), b, g)


def explore(c):
    cs = []
    for t, n, s in TYPES:
        for w in widths(n):
            for pre in PREFIX:
                for suf in SUFFIX:
                    for packed in ("", "__attribute__((packed))"):
                        if not THOROUGH and t in ("char", "long long", "unsigned long long") and (suf == "char q;" or packed):
                            continue
                        cs.append(value_case(t, w, s, pre, suf, packed))
                        if suf in ("", "int q:5;"):
                            cs.append(init_case(t, w, s, pre, suf, packed))
                        if suf == "char q;":
                            cs.append(flow_case(t, w, s, pre, suf, packed))
                            if n <= 32:
                                cs.append(promo_case(t, w, s, pre, suf, packed))
    steps = 0
    T = {t: (n, s) for t, n, s in TYPES}
    for packed in ("", "__attribute__((packed))"):
        # histories: one field, depth 3
        for t, n, s in TYPES:
            for w in widths(n):
                m = [("p", "unsigned", 3, 0, 2), ("f", t, w, s, 0)]
                cs.append(history_case([("f", t, w, s, 0)], 3, packed)); steps += cs[-1].steps
        reps = [("_Bool", 1), ("signed char", 3), ("unsigned char", 8), ("short", 9), ("unsigned short", 15), ("int", 1), ("int", 17), ("unsigned", 5), ("unsigned", 32), ("int", 31), ("long", 33), ("unsigned long", 64), ("unsigned long", 40)]
        for (t1, w1), (t2, w2) in itertools.product(reps, repeat=2):
            cs.append(history_case([("a", t1, w1, T[t1][1], 0), ("b", t2, w2, T[t2][1], 0)], 2, packed)); steps += cs[-1].steps
            if THOROUGH:
                cs.append(history_case([("a", t1, w1, T[t1][1], 0), ("b", t2, w2, T[t2][1], 0)], 3, packed)); steps += cs[-1].steps
        for trip in itertools.product(reps[::2], repeat=3):
            cs.append(history_case([(nm, t_, w_, T[t_][1], 1) for nm, (t_, w_) in zip("abc", trip)], 2 if not THOROUGH else 3, packed)); steps += cs[-1].steps
    c.extra["histories"] = steps
    c.extra["structs"] = len(cs)
    Printer(c, PRE + "static long id(long v){return v;}\n").run(cs, 40)
    for s_ in cs[::max(1, len(cs) // 10)]:
        c.samples.append(s_.key)
    c.extra["exhaustive"] = True


if __name__ == "__main__":
    main(explore, "C06", "exploration",
         "bit-field types x widths x neighbouring members x packing: every boundary value over both backgrounds and six access paths; all operation sequences to depth 2-3 over one to three fields; initialisers; promotions; each compared (values and bytes of the object) with the system compiler",
         ["gcc implements bit-fields as the ABI prescribes", "results are compared through a 64-bit hash of each group of steps"])
