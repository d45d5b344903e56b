import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *

# The model of the objects: what every object holds, and whether C says so.
MON = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
typedef unsigned long u;
static long dec[64][2];static int nd,used,bad,pend,lastr;
#define BAD(...) do{if(bad++<3){printf("!");printf(__VA_ARGS__);}}while(0)
#define MAXF 8
static struct fr{struct{long v;int vol,changed,known;}o[24];int set;}F[MAXF];static int cur;
static long fresh;static u checks;
__attribute__((noinline)) static void scribble(void){volatile unsigned char b[3000];for(int i=0;i<3000;i++)b[i]=0xa5;}
int in(int n){if(used>=64)return 0;if(used<nd){if(dec[used][1]!=n)BAD("the program is not the same again ");return dec[used++][0];}dec[used][0]=0;dec[used][1]=n;used++;return 0;}
int frame(void){cur++;memset(F+cur,0,sizeof F[0]);return cur;}
void unframe(int f){cur=f-1;}
/* object id of the frame: vol: 1 keeps its value whatever happens */
void D(int id,int vol){F[cur].o[id].vol=vol;}
long nv(int id){long v=++fresh%113;F[cur].o[id].v=v;F[cur].o[id].known=1;F[cur].o[id].changed=1;return v;}
long nvf(int f,int id){int c=cur;cur=f;long v=nv(id);cur=c;return v;}
void R(int id,long v){checks++;if(F[cur].o[id].known&&F[cur].o[id].v!=v)BAD("object %d is %ld not %ld ",id,v,F[cur].o[id].v);}
/* immediately before setjmp */
void S(void){lastr=pend=0;F[cur].set=1;for(int i=0;i<24;i++)F[cur].o[i].changed=0;}
/* setjmp has returned in frame f */
static int given;
void ret(int f){scribble();cur=f;if(pend){for(int i=0;i<24;i++)if(!F[f].o[i].vol&&F[f].o[i].changed)F[f].o[i].known=0;}lastr=pend;pend=0;}
void V(long v){checks++;if(v!=lastr)BAD("setjmp returned %ld not %d ",v,lastr);}
void T(int op,long k,int t){int e=op==0?lastr==k:op==1?lastr!=k:op==2?lastr<k:op==3?lastr<=k:op==4?lastr>k:lastr>=k;checks++;if(e!=t)BAD("the test of %d against %ld is %d ",lastr,k,t);}
int jv(void){int v=in(3);pend=v?v:1;return v;}
void E(long a,long b){checks++;if(a!=b)BAD("a value is %ld not %ld ",a,b);}
int room(void){return used<nd_max();}
__attribute__((noinline)) static void one(void(*fn)(void)){unsigned char canary[64];cur=0;fresh=used=pend=0;
 for(int i=0;i<64;i++)canary[i]=i*7+1;__asm__ volatile(""::"r"(canary):"memory");
 fn();
 __asm__ volatile(""::"r"(canary):"memory");
 for(int i=0;i<64;i++)if(canary[i]!=(unsigned char)(i*7+1)){BAD("the caller's frame is overwritten ");break;}}
static int maxd;
int nd_max(void){return maxd;}
void drive(void(*fn)(void),int d){
 long runs=0;bad=0;checks=0;nd=0;maxd=d;
 for(;;){
  one(fn);runs++;
  if(bad)break;
  nd=used;
  while(nd&&dec[nd-1][0]+1>=dec[nd-1][1])nd--;
  if(!nd)break;
  dec[nd-1][0]++;
 }
 if(bad){printf(" decisions");for(int i=0;i<used&&i<20;i++)printf(" %ld",dec[i][0]);}
 printf("%ld runs %lu checks %s",runs,checks,bad?"BAD":"ok");
}
'''.replace("int in(int n)", "int nd_max(void);\nint in(int n)", 1)

DECLS = r'''
typedef long buf[40];int _setjmp(long*);void longjmp(long*,int);
int in(int);int frame(void);void unframe(int);void D(int,int);long nv(int);long nvf(int,int);void R(int,long);void S(void);void ret(int);void V(long);void T(int,long,int);int jv(void);void E(long,long);int room(void);
void drive(void(*)(void),int);
typedef volatile int vint;typedef volatile struct{char a;long b;}vstr;typedef int*volatile vptr;typedef int arr3[3];
typedef struct{int a,b;long c;}st;
static long pool[128];
'''

# objects: declaration, assignment of N, value; keeps its value through a longjmp?
KINDS = {
    "i": ("int $=N;", "$=N", "$", 0),
    "c": ("char $=N;", "$=N", "$", 0),
    "l": ("long $=N;", "$=N", "$", 0),
    "d": ("double $=N;", "$=N", "(long)$", 0),
    "f": ("float $=N;", "$=N", "(long)$", 0),
    "p": ("long*$=pool+N;", "$=pool+N", "$-pool", 0),
    "ri": ("register int $=N;", "$=N", "$", 0),
    "a": ("int $[3]={0,N};", "$[1]=N", "$[1]", 0),
    "s": ("st $={0,N};", "$.b=N", "$.b", 0),
    "ss": ("st $={0,0,N};", "$=(st){1,2,N}", "$.c", 0),
    "b": ("struct{int a:5,b:11;}$={0,N};", "$.b=N", "$.b", 0),
    "i&": ("int $=N;int*p$=&$;", "*p$=N", "$", 0),
    "k": ("const int $=N;", None, "$", 0),
    "vi": ("volatile int $=N;", "$=N", "$", 1),
    "vc": ("volatile char $=N;", "$=N", "$", 1),
    "vs": ("short volatile $=N;", "$=N", "$", 1),
    "vl": ("unsigned long volatile $=N;", "$=N", "$", 1),
    "vd": ("volatile double $=N;", "$=N", "(long)$", 1),
    "vf": ("volatile float $=N;", "$=N", "(long)$", 1),
    "vp": ("long*volatile $=pool+N;", "$=pool+N", "$-pool", 1),
    "vb": ("volatile _Bool $=N&1;long x$=0;", None, "x$+0*$", 1),
    "vti": ("vint $=N;", "$=N", "$", 1),
    "vtp": ("vptr $=(int*)pool+N;", "$=(int*)pool+N", "$-(int*)pool", 1),
    "vts": ("vstr $={0,N};", "$.b=N", "$.b", 1),
    "va": ("volatile int $[3]={0,N};", "$[1]=N", "$[1]", 1),
    "vta": ("volatile arr3 $={0,0,N};", "$[2]=N", "$[2]", 1),
    "vst": ("volatile st $={0,N};", "$.b=N", "$.b", 1),
    "vu": ("volatile union{int a;long b;}$;$.b=N;", "$.b=N", "$.b", 1),
    "vbf": ("struct{volatile int a:5,b:11;}$={0,N};", "$.b=N", "$.b", 1),
    "vm": ("struct{int a;volatile int b;}$={0,N};", "$.b=N", "$.b", 1),
    "vi+": ("volatile int $=N;", "$=0;$+=N-1;$++", "$", 1),
    "vc+": ("volatile signed char $=N;", "$=1;$|=0x7f;$&=N", "$", 1),
    "vi,": ("int volatile q$=3,$=N;", "q$=$=N", "$", 1),
    "v&": ("volatile int $=N;volatile int*p$=&$;", "*p$=N", "$", 1),
    "vn": ("volatile int $;$=N;", "$=N", "$", 1),
    "pv": ("volatile int m$[2]={0,N};volatile int*$=m$+1;", "*$=N", "*$", 1),
    "sti": ("static int $;$=N;", "$=N", "$", 1),
    "stp": ("static long*$;$=pool+N;", "$=pool+N", "$-pool", 1),
    "vla": ("int n$=1+in(1);volatile long $[n$+2];$[1]=N;", "$[1]=N", "$[1]", 1),
    "vlan": ("int n$=2;long $[n$+2];$[1]=N;", None, "$[1]+n$-2", 0),
    "cl": ("volatile int*$=(volatile int[2]){0,N};", "$[1]=N", "$[1]", 1),
}
PARAMS = {      # type, argument, then as above
    "i": ("int $", "N", "$=N", "$", 0), "l": ("long $", "N", "$=N", "$", 0), "c": ("signed char $", "N", "$=N", "$", 0), "d": ("double $", "N", "$=N", "(long)$", 0), "p": ("long*$", "pool+N", None, "$-pool", 0),
    "s": ("st $", "((st){1,2,N})", None, "$.c", 0),
    "vi": ("volatile int $", "N", "$=N", "$", 1), "vl": ("long volatile $", "N", "$=N", "$", 1), "vc": ("volatile signed char $", "N", "$=N", "$", 1), "vd": ("double volatile $", "N", "$=N", "(long)$", 1),
    "vp": ("long*volatile $", "pool+N", "$=pool+N", "$-pool", 1), "vt": ("vint $", "N", "$=N", "$", 1), "vtp": ("vptr $", "(int*)pool+N", "$=(int*)pool+N", "$-(int*)pool", 1), "vst": ("volatile st $", "((st){1,2,N})", "$.c=N", "$.c", 1), "va": ("int $[volatile]", "((int*)pool+N)", "$=(int*)pool+N", "$-(int*)pool", 1),
}
OPS = ["==", "!=", "<", "<=", ">", ">="]


def forms():
    """form name -> text, with $B for the body (it ends the function or jumps) and $J for the call of setjmp"""
    F = {
        "if": "if($J){%V1 $B}else{%V0 $B}", "if0": "if($J){%V1 $B}%V0 $B", "not": "if(!$J){%V0 $B}else{%V1 $B}", "not()": "if(!($J)){%V0 $B}%V1 $B",
        "stmt": "$J;ret(fr);$B", "void": "(void)$J;ret(fr);$B",
        "assign": "r=$J;ret(fr);V(r);$B", "init": "int r2=$J;ret(fr);V(r2);$B",
        "switch": "switch($J){case 0:ret(fr);T(0,0,1);$B break;case 2:ret(fr);T(0,2,1);$B break;default:ret(fr);T(0,1,1);$B}",
        "switchfall": "switch($J){default:ret(fr);T(1,0,1);$B case 0:ret(fr);T(0,0,1);$B}",
        "while": "while($J){%V1 $B}%V0 $B", "whilenot": "while(!$J){%V0 $B}%V1 $B", "for": "for(;$J;){%V1 $B}%V0 $B",
        "do": "do{if(0){$B}}while(!$J&&0);", "forhead": "for($J;;){ret(fr);$B}", "elseif": "if(zero)V(77);else if($J==1){ret(fr);T(0,1,1);$B}else{ret(fr);T(1,1,1);$B}",
        "block": "{volatile int k=3;{if($J){%V1 E(k,3);$B}}%V0 E(k,3);$B}", "loop": "for(volatile int k=0;k<2;k++){if(k==1){if($J){%V1 E(k,1);$B}%V0 E(k,1);$B}}",
        "again": "for(volatile int k=0;k<2;k++){if(k)S();if($J==2){ret(fr);T(0,2,1);if(k)$B}else{ret(fr);T(1,2,1);if(k)$B}}", "label": "L:if($J){%V1 $B}%V0 if(0)goto L;$B",
        "vlablock": "int n=3+zero;{int w[n];w[2]=n;if($J){%V1 E(w[2],3);$B}%V0 E(w[2],3);$B}", "vlaafter": "if($J){%V1}else{%V0}{int n=5+zero;long w[n];w[4]=n;$B E(w[4],5);}",
        "vlaouter": "int n=5+zero;for(volatile int k=0;k<2;k++){long w[n];w[0]=k;if(k==1){if($J){%V1 E(w[0],1);$B}%V0 E(w[0],1);$B}}",
    }
    del F["do"]
    for n, op in enumerate(OPS):
        for k in (0, 1, 2):
            F["%s%d" % (op, k)] = "if($J%s%d){ret(fr);T(%d,%d,1);$B}else{ret(fr);T(%d,%d,0);$B}" % (op, k, n, k, n, k)
        rev = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        F["1%s" % op] = "if(1%s$J){ret(fr);T(%d,1,1);$B}else{ret(fr);T(%d,1,0);$B}" % (op, OPS.index(rev), OPS.index(rev))
        F["while%s" % op] = "while($J%s1){ret(fr);T(%d,1,1);$B}ret(fr);T(%d,1,0);$B" % (op, n, n)
    for k in F:
        F[k] = F[k].replace("%V1", "ret(fr);T(1,0,1);").replace("%V0", "ret(fr);T(0,0,1);")
    return F


# ways to get to the longjmp; J is the buffer
PATHS = {
    "direct": ("", "longjmp($b,jv());"),
    "callee": ("static void g@@(void){longjmp($b,jv());}", "g@@();"),
    "deep": ("static int h@@(int n){volatile int a=n;int b[7];b[n&3]=n;if(n==0)longjmp($b,jv());return h@@(n-1)+a+b[n&3];}", "E(h@@(3),7);"),
    "args": ("static int k@@(void){longjmp($b,jv());return 1;}static int m@@(int a,int b,int c,int d,int e,int f,int g,int h){return a+b+c+d+e+f+g+h;}", "E(m@@(1,2,3,4,5,6,k@@(),8),9);"),
    "expr": ("static double q@@(double a){longjmp($b,jv());return a;}", "E((long)(1.5*q@@(2)+zero*q@@(3)),9);"),
    "vla": ("static void w@@(int n){long v[n];{int z[n*2];z[0]=1;v[n-1]=z[0];longjmp($b,jv());}}", "w@@(5);"),
    "selfvla": ("", "{int n9=4+zero;long w9[n9];w9[3]=1;{char u9[n9];u9[0]=2;longjmp($b,jv());}}"),
    "struct": ("typedef struct{long a[5];}big@@;static big@@ s@@(int n){big@@ x={{n}};longjmp($b,jv());return x;}", "E(s@@(3).a[0],3);"),
    "nested": ("static buf b2@@;static void n2@@(void){int fr=frame();D(0,0);D(1,1);int x=nv(0);volatile int y=nv(1);S();if(_setjmp(b2@@)){ret(fr);T(1,0,1);R(0,x);R(1,y);unframe(fr);longjmp($b,jv());}"
               "ret(fr);T(0,0,1);R(0,x);R(1,y);y=nv(1);longjmp(b2@@,jv());}", "n2@@();"),
    "ptr": ("static void(*lj@@)(long*,int)=longjmp;", "(*lj@@)($b,jv());"),
    "comma": ("static int cm@@(void){longjmp($b,jv());return 1;}", "if(zero||(E(1,1),cm@@()))E(1,2);"),
    "varargs": ("static int va@@(int n,...){volatile double k=n;longjmp($b,jv());return k;}", "E(va@@(2,1.5,3L),9);"),
}
BUF = {"static": ("static buf jb@@;", "", "jb@@"), "local": ("static long*jp@@;", "buf lb;jp@@=lb;", "jp@@"), "field": ("static struct{int a;buf b;}js@@[2];", "", "js@@[1].b")}


def case(kinds, params, form, path, buf="static", depth=3, rett="int", same=0):
    """The function f sets a point to return to; every time setjmp returns it looks at all its objects, then changes some, jumps or ends."""
    key = "objects %s | params %s | %s | %s | %s%s" % (" ".join(kinds), " ".join(params), form, path, buf, " | " + rett if rett != "int" else "")
    fm = FORMS[form]
    pg, pc = PATHS[path]
    bg, bl, b = BUF[buf]
    obj, decl = [], []
    pars, args = [], []
    for j, k in enumerate(params):
        t, a, w, r, vol = PARAMS[k]
        i, x = j, "p%d" % j
        pars.append(t.replace("$", x))
        args.append(a.replace("N", "a%d" % j))
        obj.append((i, w and w.replace("$", x).replace("N", "nv(%d)" % i), r.replace("$", x), vol))
    for j, k in enumerate(kinds):
        d, w, r, vol = KINDS[k]
        i, x = len(params) + j, "x%d" % j
        if "x$" in d:
            d = "volatile _Bool $=1;long x$=N;"
        decl.append("D(%d,%d);" % (i, vol) + d.replace("$", x).replace("N", "nv(%d)" % i))
        obj.append((i, w and w.replace("$", x).replace("N", "nv(%d)" % i), r.replace("$", x), vol))
    look = "".join("R(%d,%s);" % (i, r) for i, w, r, v in obj)
    ws = [o for o in obj if o[1]]
    # what is changed before the jump: nothing, everything, each object that may be
    alts = [""] + ["".join("%s;" % o[1] for o in ws)] * (len(ws) > 0) + (["%s;" % o[1] for o in ws] if len(ws) > 1 else [])
    act = "switch(in(%d)){" % len(alts) + "".join("case %d:%s break;" % (i, a) for i, a in enumerate(alts)) + "}"
    pcall = pc.replace("$b", b)
    end = "goto out;" if rett == "int" else "goto out;"
    body = "{%s if(!room()||in(2)){%s}%s %s%s}" % (look, end, act, look, pcall)
    text = fm.replace("$J", "_setjmp(%s)" % b).replace("$B", body)
    fin = "out:%s unframe(fr);return %s;" % ("" if "vla" in form else look, {"int": "42", "double": "4.5", "st": "(st){1,2,3}", "void": ""}[rett])
    # objects are declared before setjmp; a jump to out must not enter the scope of anything
    dr = [d for d in decl]
    glob = bg + pg.replace("$b", b) + "static int zero=0;" * 0 + \
        "static %s f@@(%s){int r=0;%s%s{S();%s}%s}" % (rett, ",".join(["int fr"] + pars), bl, "".join(dr), text, fin)
    pre = "".join("D(%d,%d);long a%d=nv(%d);" % (i, PARAMS[k][4], i, i) for i, k in enumerate(params))
    call = "f@@(%s)" % ",".join(["fr"] + args)
    res = {"int": "E(%s,42);", "double": "E((long)(%s*2),9);", "st": "E(%s.c,3);", "void": "%s;"}[rett] % call
    glob += "static void t@@(void){int fr=frame();int y=5;volatile double z=2.5;%s%sE(y,5);E((long)(z*2),5);}" % (pre, res)
    return PCase(key, "drive(t@@,%d);" % (min(depth, 6) if len(obj) > 3 else depth), glob)


FORMS = forms()


def programs():
    out = []
    ks, ps, fs, pa = list(KINDS), list(PARAMS), list(FORMS), list(PATHS)
    D = 9 if THOROUGH else 6
    # every object with every form, every path; every form with every path
    for k in ks:
        for f in fs:
            out.append(case([k], [], f, "callee", depth=D))
        for p in pa:
            out.append(case([k], [], "if", p, depth=D))
            out.append(case([k, "i", "vi"], [], "switch", p, "local", depth=D))
    for f, p in itertools.product(fs, pa):
        out.append(case(["i", "vi"], [], f, p, depth=D))
        out.append(case(["d", "vd", "vl"], ["i", "vi"], f, p, "field", depth=D))
    for k in ps:
        for f in fs:
            out.append(case([], [k], f, "callee", depth=D))
        for p in pa:
            out.append(case(["i"], [k, "i"], "not", p, "local", depth=D))
    # combinations of objects and of parameters
    for a, b in itertools.combinations_with_replacement(ks, 2):
        out.append(case([a, b], [], "if", "deep", "local", depth=D))
    for a, b in itertools.product(ps, repeat=2):
        out.append(case(["vi"], [a, b], "==1", "callee", depth=D))
    for n in (8, 14):
        for k in ("i", "d", "vi", "vd"):
            out.append(case(["i"], ([k] + ["l", "d"] * n)[:n] + [k], "if", "deep", depth=D))
    for r in ("double", "st", "void"):
        for f in fs:
            for p in ("direct", "deep", "struct"):
                out.append(case(["i", "vi"], ["vd"], f, p, rett=r, depth=D))
    seen, res = set(), []
    for c in out:
        if c.key not in seen:
            seen.add(c.key)
            res.append(c)
    return res


def reference(p, group):
    ref = parse_marks(p.run_gcc(tu(group, p.prelude)))
    for i, c in enumerate(group):
        if not ref.get(i, "").endswith(" ok"):
            raise CheckError("the reference run of %s says %r" % (c.key, ref.get(i)))
        c.expect = ref[i]


def explore(c):
    p = Printer(c, DECLS + "static int zero;\n", gccflags=["-O0"])
    mon = os.path.join(c.work, "mon")
    open(mon + ".c", "w").write(MON)
    rc, out = sh(["gcc", "-w", "-O1", "-c", mon + ".c", "-o", mon + ".o"])
    if rc == 0:
        rc, out = sh(["ld", "-r", "-o", mon + "2.o", mon + ".o", p.rt])
    if rc:
        raise CheckError("monitor: %r" % out)
    p.rt = mon + "2.o"
    cs = programs()
    per = 30 if THOROUGH else 100
    groups = chunks(cs, per)
    pmap(lambda g: reference(p, g), groups)
    p.run(cs, per=per)
    c.extra["programs"] = len(cs)
    c.extra["schedules"] = sum(int(x.expect.split()[0]) for x in cs)
    c.extra["exhaustive"] = True
    for x in cs[::max(1, len(cs) // 8)]:
        c.samples.append(x.key)


if __name__ == "__main__":
    main(explore, "C24", "exploration",
         "programs: objects x forms of setjmp x ways to the longjmp; each run for every sequence of decisions (end or jump, what is changed before, value given to longjmp) up to the bound; evaluation = one program with all its executions",
         ["the model of the objects (which values C defines after longjmp) and gcc -O0's compilation of every program agree: the reference run must be silent"])
