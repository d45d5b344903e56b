import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *

# The monitor: a registry of live objects. Every program is run under it for every decision sequence.
MON = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
typedef unsigned long u;
struct ob{int f,id;unsigned char*p;u n;unsigned seed;};
static struct ob L[4096];static int nl,nf,seq;static u checks,regs;static char*base;
static char dec[64];static int nd,used,depth,leak;static unsigned calls;
static int bad;
#define BAD(...) do{if(bad++<3){printf("!");printf(__VA_ARGS__);}}while(0)
static unsigned char pat(unsigned s,u i){u x=(s*2654435761u)^(i*40503u)^(i>>8);x^=x>>13;return (unsigned char)(x*31+7);}
__attribute__((noinline)) static void scribble(void){volatile unsigned char b[6000];for(int i=0;i<6000;i+=leak?600:1)b[i]=0xa5;}
static int same(struct ob*o){u st=leak&&o->n>64?61:1;for(u i=0;i<o->n;i+=st)if(o->p[i]!=pat(o->seed,i))return 0;return o->n==0||o->p[o->n-1]==pat(o->seed,o->n-1);}
static void all(void){checks++;for(int i=0;i<nl;i++)if(!same(L+i)){BAD("object %d of frame %d changed ",L[i].id,L[i].f);L[i--]=L[--nl];}}
int enter(void){scribble();all();return ++nf;}
void leave(int f){while(nl&&L[nl-1].f>=f)nl--;int j=0;for(int i=0;i<nl;i++)if(L[i].f<f)L[j++]=L[i];nl=j;all();nf=f-1;scribble();}
void M(int f,u mask){int j=0;for(int i=0;i<nl;i++)if(L[i].f<f||(L[i].f==f&&(mask>>L[i].id&1)))L[j++]=L[i];nl=j;nf=f;scribble();all();}
/* object id of frame f starts its life; n and a are sizeof and _Alignof as the program sees them, en and ea as C says */
void reg(int f,int id,void*p,u n,u en,u ea,int fill){
 regs++;
 if(n!=en)BAD("object %d has size %lu not %lu ",id,n,en);
 if((u)p%ea)BAD("object %d at ..%lx is not aligned to %lu ",id,(u)p&0xfff,ea);
 char here;if((char*)p<=&here||(char*)p>base)BAD("object %d lies outside the stack frame ",id);
 if((char*)p<base-(leak?400000:3000000))BAD("the stack grows without bound ");
 int j=0;for(int i=0;i<nl;i++)if(!(L[i].f==f&&L[i].id==id))L[j++]=L[i];nl=j;
 if((char*)p>&here&&(char*)p<=base){
 for(int i=0;i<nl;i++)if(L[i].p<(unsigned char*)p+en&&(unsigned char*)p<L[i].p+L[i].n)BAD("object %d overlaps object %d of frame %d ",id,L[i].id,L[i].f);
 struct ob*o=L+nl;o->f=f;o->id=id;o->p=p;o->n=en;o->seed=fill<0?++seq:fill;
 if(nl<4000)nl++;
 if(fill<0){for(u i=0;i<en;i++)o->p[i]=pat(o->seed,i);}
 else if(!same(o)){BAD("object %d arrives changed ",id);nl--;}}
 scribble();all();}
void V(int id,u a,u b){checks++;if(a!=b)BAD("value %d is %lx not %lx ",id,a,b);}
void VD(int id,double a,double b){checks++;if(a!=b)BAD("value %d is %g not %g ",id,a,b);}
void fillin(void*p,u n,int seed){for(u i=0;i<n;i++)((unsigned char*)p)[i]=pat(seed,i);}
void cmp(int id,const void*p,u n,int seed){struct ob o={0,0,(void*)p,n,seed};checks++;if(!same(&o))BAD("bytes %d arrive changed ",id);}
int in(void){if(leak){calls=(calls*1103515245u+12345u)&0x7fffffff;return (calls>>16&3)>=leak;}if(used<nd)return dec[used++];used++;return 0;}
int again(void){static int k;if(!leak)return in();if(++k<leak_n())return 1;k=0;return 0;}
int leak_n(void){return 600;}
long sz(void){static const long t[]={1,3,17,600};if(leak)return 1000;return t[(seq+used)&3];}
long zero;
int depth0(void){return leak?0:1;}
static void *volatile hold;
__attribute__((noinline)) static void one(void(*fn)(void)){unsigned char canary[64];base=(char*)__builtin_frame_address(0);nl=nf=0;used=calls=0;
 for(int i=0;i<64;i++)canary[i]=pat(77,i);hold=canary;
 fn();
 for(int i=0;i<64;i++)if(canary[i]!=pat(77,i)){BAD("the caller's frame is overwritten ");break;}}
void drive(void(*fn)(void),int maxd,int doleak){
 long runs=0;bad=0;checks=regs=0;leak=0;
 nd=0;
 for(;;){ /* stateless search: extend the decision prefix depth first */
  seq=0;one(fn);runs++;
  int n=used;if(n>maxd)n=maxd;
  while(nd<n)dec[nd++]=0;
  while(nd&&dec[nd-1])nd--;
  if(!nd)break;
  dec[nd-1]=1;
 }
 if(doleak){for(leak=1;leak<=3;leak++){seq=0;one(fn);}leak=0;}
 printf(" %ld %lu %lu %s",runs,regs,checks,bad?"bad":"ok");
}
'''
DECLS = """typedef unsigned long u;int enter(void);void leave(int);void M(int,u);void reg(int,int,void*,u,u,u,int);void V(int,u,u);void VD(int,double,double);
void fillin(void*,u,int);void cmp(int,const void*,u,int);int in(void);int again(void);long sz(void);int depth0(void);void drive(void(*)(void),int,int);extern long zero;
struct c3{char a[3];};struct c5{char a[5];};struct dc{double d;char c;};struct ll{long a,b;};struct l3{long a[3];};struct a32{char c;_Alignas(32) char d;};struct a64{_Alignas(64) int a[3];};struct s16{short a;char b;};
union ui{char a[7];int i;};struct fl{int n;_Alignas(16) char x;};
"""
# kind -> (declaration, expected size, alignment); # is the id
OBJ = {
    "c": ("char v#;", 1, 1), "s": ("short v#;", 2, 2), "i": ("int v#;", 4, 4), "l": ("long v#;", 8, 8), "d": ("double v#;", 8, 8), "f": ("float v#;", 4, 4), "p": ("void *v#;", 8, 8), "b": ("_Bool v#;", 1, 1),
    "c3": ("char v#[3];", 3, 1), "c17": ("char v#[17];", 17, 1), "i5": ("int v#[5];", 20, 4), "l3": ("long v#[3];", 24, 8), "s3": ("short v#[3];", 6, 2), "p2": ("int *v#[2][2];", 32, 8),
    "S3": ("struct c3 v#;", 3, 1), "S5": ("struct c5 v#;", 5, 1), "Sdc": ("struct dc v#;", 16, 8), "Sl3": ("struct l3 v#;", 24, 8), "S16": ("struct s16 v#;", 4, 2), "U": ("union ui v#;", 8, 4), "A5": ("struct c5 v#[3];", 15, 1),
    "a16": ("_Alignas(16) char v#;", 1, 16), "a32": ("_Alignas(32) int v#;", 4, 32), "a64": ("_Alignas(64) char v#[3];", 3, 64), "a8c": ("_Alignas(double) char v#;", 1, 8), "a128": ("_Alignas(128) double v#;", 8, 128), "a0": ("_Alignas(0) int v#;", 4, 4),
    "Sa32": ("struct a32 v#;", 64, 32), "Sa64": ("struct a64 v#;", 64, 64), "Sa16": ("struct fl v#;", 32, 16), "Sa32x2": ("struct a32 v#[2];", 128, 32), "ax2": ("_Alignas(32) _Alignas(8) short v#;", 2, 32),
    "k4": ("char v#[4096];", 4096, 1), "k70": ("int v#[17500];", 70000, 4), "ii": ("int v#[]={1,2,3,4,5};", 20, 4), "st": ("char v#[]=\"hello\";", 6, 1), "il": ("long v#=zero;", 8, 8), "iS": ("struct l3 v#={{1,2}};", 24, 8), "iSa": ("struct a32 v#={1,2};", 64, 32),
    "i200": ("int v#[200]={[199]=1};", 800, 4), "const": ("const int v#=3;", 4, 4), "reg0": ("register long w#=4;V(#,w#,4);long v#;", 8, 8),
}
# variable length arrays: (declaration, size expression, alignment)
VLA = {
    "v1": ("long n#=sz();char v#[n#];", "n#", 1), "v4": ("long n#=sz();int v#[n#];", "n#*4", 4), "v8": ("int n#=sz();double v#[n#];", "n#*8L", 8), "v5": ("char n#=3+zero;struct c5 v#[n#];", "15", 1),
    "v2d": ("long n#=sz();int v#[n#][3];", "n#*12", 4), "v2e": ("long n#=sz();short v#[3][n#];", "n#*6", 2), "v2f": ("long n#=2+zero,m#=3+zero;short v#[n#][m#+1];n#=m#=9;", "16L", 2), "vT": ("long n#=sz(),o#=n#;typedef int T#[n#];n#+=5;T# v#;", "o#*4", 4),
    "vc": ("char v#[sz()&7|1];", "sizeof v#", 1), "vs": ("long n#=sz();struct l3 v#[n#];", "n#*24", 8), "vT2": ("long n#=sz(),o#=n#;typedef short T#[n#];n#=1;T# v#[2];", "o#*4", 2),
    "vk": ("enum{N#=5};long n#=N#+zero;char v#[n#*1000];", "5000L", 1), "va": ("long n#=sz();_Alignas(32) char v#[n#];", "n#", 32), "vsa": ("long n#=1+zero;struct a32 v#[n#];", "64L", 32),
}
# compound literals: pointer v#
LIT = {
    "L5": ("struct c5 *v#=&(struct c5){{1,2}};", 5, 1), "Ll": ("long *v#=(long[]){1,2,3};", 24, 8), "Li": ("int *v#=&(int){7};", 4, 4), "La": ("struct a32 *v#=&(struct a32){1};", 64, 32), "Lc": ("char *v#=(char[9]){\"ab\"};", 9, 1),
}
# values kept without an address being taken, checked at every later point of their scope
VAL = {
    "rl": ("long r#=0x1234567+#+zero;", "V(#,r#,0x1234567+#);"), "rd": ("double r#=#.5+zero;", "VD(#,r#,#.5);"), "rc": ("signed char r#=-#-1+zero;", "V(#,r#,-#-1);"),
    "rS": ("struct ll r#={#+zero,7};", "V(#,r#.a*10+r#.b,#*10+7);"),
}
# signatures: (parameters, how the driver calls it, statement run on entry giving ids 20.., values checked at every point)
SIGS = {
    "0": ("int d", "d", "", ""),
    "reg": ("int d,long a,char b,double c", "d,11,-2,2.5", "", "V(40,a,11);V(41,b,-2);VD(42,c,2.5);"),
    "stk": ("int d,long a,long b,long c,long e,long g,long h,char k,double x,short m", "d,1,2,3,4,5,6,-7,1.5,-9", "", "V(40,a+b+c+e+g,15);V(41,h,6);V(42,k,-7);VD(43,x,1.5);V(44,m,-9);"),
    "stk&": ("int d,long a,long b,long c,long e,long g,long h,long k,struct l3 s,double x", "d,1,2,3,4,5,h,k,s,x", "reg(F,20,&h,sizeof h,8,8,20);reg(F,21,&s,sizeof s,24,8,21);reg(F,22,&x,sizeof x,8,8,22);reg(F,23,&k,sizeof k,8,8,23);", "V(40,a,1);V(41,g,5);"),
    "str": ("int d,struct l3 s,struct ll t,struct c5 w", "d,s,t,w", "reg(F,21,&s,sizeof s,24,8,21);reg(F,24,&t,sizeof t,16,8,24);reg(F,25,&w,sizeof w,5,1,25);", ""),
    "var": ("int d,...", "d,1,2.5,3L,4,5,6,7,8.5,9,10", "__builtin_va_list ap;__builtin_va_start(ap,d);", "__VA__"),
    "fl9": ("int d,double a,double b,double c,double e,double g,double h,double k,double x,double y,float z", "d,1,2,3,4,5,6,7,8,9,10", "", "VD(40,a+b+c+e+g+h+k+x,36);VD(41,y,9);VD(42,z,10);"),
}
VA_READ = "__builtin_va_list aq;__builtin_va_start(aq,d);V(40,__builtin_va_arg(aq,int),1);VD(41,__builtin_va_arg(aq,double),2.5);V(42,__builtin_va_arg(aq,long),3);V(43,__builtin_va_arg(aq,int)*1000+__builtin_va_arg(aq,int)*100+__builtin_va_arg(aq,int)*10+__builtin_va_arg(aq,int),4567);VD(44,__builtin_va_arg(aq,double),8.5);V(45,__builtin_va_arg(aq,int),9);V(46,__builtin_va_arg(aq,int),10);__builtin_va_end(aq);"


class Gen:
    """text of a program tree; tracks which declarations are live where"""

    def __init__(self, sig):
        self.sig, self.n, self.vals = sig, 0, []
        self.pm = sum(1 << i for i in range(20, 30)) if sig in ("stk&", "str") else 0

    def point(self, live):
        m = self.pm
        s = ""
        for k, i in live:
            if k in VAL:
                s += VAL[k][1].replace("#", str(i))
            else:
                m |= 1 << i
        p = SIGS[self.sig][3]
        if p == "__VA__":
            p = "{%s}" % VA_READ
        return "M(F,%d);%s%s" % (m, s, p)

    def stmts(self, body, live):
        live = list(live)
        out = [self.point(live)]
        for op in body:
            k = op[0]
            if k == "D":
                kind = op[1]
                i = self.n
                self.n += 1
                if kind in VAL:
                    out.append(VAL[kind][0].replace("#", str(i)))
                elif kind in LIT:
                    d, n, a = LIT[kind]
                    out.append((d + "reg(F,#,(void*)v#,%d,%d,%d,-1);" % (n, n, a)).replace("#", str(i)))
                elif kind in VLA:
                    d, n, a = VLA[kind]
                    out.append((d + "reg(F,#,v#,sizeof v#,%s,%d,-1);" % (n, a)).replace("#", str(i)))
                else:
                    d, n, a = OBJ[kind]
                    out.append((d + "reg(F,#,(void*)&v#,sizeof v#,%d,%d,-1);" % (n, a)).replace("#", str(i)))
                live.append((kind, i))
            elif k == "B":
                out.append("{%s}" % self.stmts(op[1], live))
            elif k == "W":
                out.append("while(in()){%s}" % self.stmts(op[1], live))
            elif k == "do":
                out.append("do{%s}while(in());" % self.stmts(op[1], live))
            elif k == "for":
                i = self.n
                self.n += 1
                out.append("for(int q%d=0;q%d<2&&in();q%d++){%s}" % (i, i, i, self.stmts(op[1], live)))
            elif k == "I":
                out.append("if(in()){%s}" % self.stmts(op[1], live))
            elif k == "E":
                out.append("if(in()){%s}else{%s}" % (self.stmts(op[1], live), self.stmts(op[2], live)))
            elif k == "K":
                out.append("if(in())continue;")
            elif k == "X":
                out.append("if(in())break;")
            elif k == "ret":
                out.append("if(in()){leave(F);return;}")
            elif k == "R":
                out.append("if(d>0)f@(d-1%s);" % self.args().replace("d", "", 1))
            elif k == "T":   # call with struct temporaries
                out.append("{struct l3 z=g@(h@(g@(mk@(3))));V(50,z.a[0]+z.a[1]*10+z.a[2]*100,543+0);V(51,h@(mk@(1)).a[2],5);V(52,n9@(1,2,3,4,5,6,n9@(1,1,1,1,1,1,1,1,mk@(7),2),8,mk@(9),.5),2022);}")
            out.append(self.point(live))
        return "".join(out)

    def args(self):
        return SIGS[self.sig][1]

    def text(self, tree):
        par, args, entry, _ = SIGS[self.sig]
        body = self.stmts(tree, [])
        return "static void f@(%s){int F=enter();%sL0:;%sif(again())goto L0;leave(F);}\n" % (par, entry, body)


HELP = "static struct l3 mk@(long n);static long n9@(long a,long b,long c,long e,long g,long h,long i,char j,struct l3 k,double x){int F=enter();long n=sz();char v[n];reg(F,0,v,n,n,1,-1);reg(F,1,&k,sizeof k,24,8,-1);M(F,3);leave(F);return a+b+c+e+g+h+i*10+j*100+(long)(x*2);}static struct l3 mk@(long n){struct l3 r;r.a[0]=n;r.a[1]=n+1;r.a[2]=n+2;return r;}static struct l3 h@(struct l3 x){int F=enter();reg(F,30,&x,sizeof x,24,8,-1);leave(F);struct l3 r=mk@(0);return r;}static struct l3 g@(struct l3 x){struct l3 r=x;int F=enter();reg(F,31,&x,sizeof x,24,8,-1);M(F,1UL<<31);leave(F);return r;}\n"


def case(tree, sig, depth, leak):
    g = Gen(sig)
    t = g.text(tree)
    if "mk@" in t:
        t = HELP.replace("struct l3 r=mk@(0);return r;", "return mk@(3);") + t
    t = t.replace("543+0", "543")
    par = "long h,k;double x;struct l3 s;struct ll t;struct c5 w;fillin(&h,8,20);fillin(&s,24,21);fillin(&x,8,22);fillin(&k,8,23);fillin(&t,16,24);fillin(&w,5,25);"
    # parameters hold filled-in bytes; s of both signatures uses seed 21
    t += "static void m@(void){int d=depth0();%sf@(%s);}\n" % (par if sig in ("stk&", "str") else "", SIGS[sig][1])
    return PCase("%s %s" % (sig, short(tree)), "drive(m@@,%d,%d);" % (depth, leak), t.replace("@", "@@"), None)


def short(t):
    return " ".join(o[1] if o[0] == "D" else o[0] + ("{%s}" % "|".join(short(b) for b in o[1:]) if len(o) > 1 else "") for o in t)


def D(*ks):
    return tuple(("D", k) for k in ks)


def trees():
    """(tree, signature, decision depth, leak test)"""
    allk = list(OBJ) + list(LIT) + list(VAL)
    vk = list(VLA)
    out = []
    # every pair of kinds as neighbours; every kind around a recursive call
    for a in allk + vk:
        out.append((D(a) + (("R",),), "0", 3, a in VLA))
        for b in allk + vk:
            out.append((D(a, b), "0", 2, 0))
    # triples over one kind of each class
    R = ["c", "i", "Sdc", "S5", "a32", "Sa16", "c17", "k4", "L5", "rl", "v1", "v4", "d"]
    for t in itertools.product(R, repeat=3):
        out.append((D(*t), "0", 2, 0))
        if THOROUGH:
            out.append((D(*t[:1]) + (("B", D(t[1])), ("B", D(t[2]))), "0", 3, 0))
    # structures: every skeleton x kinds
    Q = ["i", "S5", "a32", "v1", "v4", "rl", "La"] + (["Sa64", "k4", "v2d", "vT", "rS", "Ll"] if THOROUGH else [])

    def skel(n):
        """statement lists with n declaration slots (None)"""
        for a in bodies(n):
            yield a
    d1 = ("S",)
    SK = []
    W = ["W", "do", "for", "I", "B"]
    for w in W:
        SK += [(d1, (w, (d1,))), ((w, (d1,)), d1), ((w, (d1,)), (w, (d1,))), ((w, (d1, ("R",))),), (d1, (w, (d1, ("R",)))), ((w, (d1, ("ret",))), d1)]
        for w2 in W:
            SK += [((w, (d1, (w2, (d1,)))),), ((w, ((w2, (d1,)), d1)),)]
        if w in ("W", "do", "for"):
            SK += [((w, (d1, ("K",), d1)),), ((w, (d1, ("X",), d1)),), ((w, (d1, ("I", (d1, ("K",))), d1)),), ((w, (d1, ("I", (d1, ("X",))), d1)),), ((w, (("I", (d1,)), d1)), d1), ((w, (("E", (d1,), (d1,)), d1)),)]
        SK += [((w, (d1, ("T",))),)]
    SK += [(("E", (d1,), (d1,)), d1), (d1, ("E", (d1,), (d1,))), (d1, ("T",), d1), (d1, ("R",), d1), (("E", (d1, ("R",)), (d1,)),), (d1, ("ret",), d1), (("W", (d1, ("W", (d1, ("W", (d1,)))))),), (("for", (("for", (d1,)), ("I", (d1,)))), d1)]
    SK = list(dict.fromkeys(SK))

    def slots(t):
        return sum(1 if o == d1 else sum(slots(b) for b in o[1:]) for o in t)

    def fill(t, it):
        return tuple(("D", next(it)) if o == d1 else (o[0],) + tuple(fill(b, it) for b in o[1:]) for o in t)
    for sk in SK:
        n = slots(sk)
        for ks in itertools.product(Q if n < 3 or THOROUGH else ["i", "a32", "v1", "v4", "rl"], repeat=n):
            out.append((fill(sk, iter(ks)), "0", 6 if THOROUGH else 5, any(k in VLA for k in ks)))
    # signatures x kinds x a few skeletons
    for s in SIGS:
        if s == "0":
            continue
        for k in allk + vk:
            out.append((D(k), s, 2, 0))
            out.append((D(k) + (("R",),), s, 2, 0))
            out.append(((("W", D(k) + (("T",),)),), s, 3, k in VLA))
        for a, b in itertools.product(Q, repeat=2):
            out.append((D(a) + (("W", D(b) + (("R",), ("X",))),), s, 3, 0))
    # many objects, large frames
    for k in ("c", "i", "S5", "a32", "k4", "v1", "rl", "rd", "Sa64"):
        for n in (5, 16, 20):
            out.append((D(*[k] * n), "stk", 1, 0))
            out.append((D(*(["c"] + [k, "a64"] * (n // 2))[:20]), "0", 1, 0))
    for k, m in itertools.product(("k70", "k4", "c3", "v1", "a64"), repeat=2):
        out.append((D(k, m, "k70", m, k) + (("R",),), "stk&", 2, 0))
    return out


def reference(p, group):
    ref = parse_marks(p.run_gcc(tu(group, p.prelude)))
    for i, c in enumerate(group):
        if not ref.get(i, "").endswith(" ok"):
            raise CheckError("the reference run of %s says %r" % (c.key, ref.get(i)))
        c.expect = ref[i]


def explore(c):
    p = Printer(c, DECLS)
    mon = os.path.join(c.work, "mon")
    open(mon + ".c", "w").write(MON.replace("int again(void)", "int leak_n(void);int again(void)", 1))
    rc, out = sh(["gcc", "-w", "-O1", "-fno-strict-aliasing", "-c", mon + ".c", "-o", mon + ".o"])
    if rc == 0:
        rc, out = sh(["ld", "-r", "-o", mon + "2.o", mon + ".o", p.rt])
    if rc:
        raise CheckError("monitor: %r" % out)
    p.rt = mon + "2.o"
    cs = [case(*t) for t in trees()]
    c.extra["programs"] = len(cs)
    groups = chunks(cs, 150)
    pmap(lambda g: reference(p, g), groups)
    p.run(cs, per=150)
    c.extra["exhaustive"] = True
    for x in cs[::max(1, len(cs) // 8)]:
        c.samples.append(x.key)


if __name__ == "__main__":
    main(explore, "C21", "exploration",
         "programs: all pairs of object kinds, all triples of class representatives, all skeletons of blocks/loops/branches/recursion/jumps x kinds, signatures x kinds; each run under a monitor of live objects for every decision sequence up to the bound; evaluation = one program with all its executions",
         ["the monitor (compiled by gcc) and gcc's own compilation of every program agree that the programs are well-defined: the reference run must be silent"])
