"""Pair mode: the same function compiled by the compiler under test and by the reference compiler,
called on every tuple of the value alphabet by a driver (reference-compiled); results compared."""
import os, tempfile
from vlib import *

DRV = r'''
#include <stdio.h>
#include <string.h>
typedef unsigned long UL; typedef unsigned char UC; typedef unsigned short US; typedef unsigned int UI;
typedef signed char SC; typedef long long LL; typedef unsigned long long ULL;
typedef __int128 I128; typedef unsigned long long RT;
static int bad; static unsigned long evals; static unsigned long uniq;
static int nbad_case;
#define ISS(x) (((__typeof__(x))-1) < (__typeof__(x))1)
#define FITS(x,e) (!ISS(x) || (sizeof(x)==8 ? ((e)>=(I128)(-0x7fffffffffffffffL-1) && (e)<=(I128)0x7fffffffffffffffL) : ((e)>=-2147483648LL && (e)<=2147483647LL)))
/* the reference is undefined for: */
#define U_add(a,b) (!FITS((a)+(b),(I128)(__typeof__((a)+(b)))(a)+(I128)(__typeof__((a)+(b)))(b)))
#define U_sub(a,b) (!FITS((a)-(b),(I128)(__typeof__((a)-(b)))(a)-(I128)(__typeof__((a)-(b)))(b)))
#define U_mul(a,b) (!FITS((a)*(b),(I128)(__typeof__((a)*(b)))(a)*(I128)(__typeof__((a)*(b)))(b)))
#define U_div(a,b) ((b)==0 || (ISS((a)+(b)) && (__typeof__((a)+(b)))(b)==-1 && !FITS((a)+(b),-(I128)(__typeof__((a)+(b)))(a))))
#define U_mod U_div
#define U_shl(a,b) ((b)<0 || (ULL)(b)>=sizeof(+(a))*8 || (ISS(+(a)) && ((a)<0 || !FITS(+(a),(I128)(a)<<(int)(b)))))
#define U_shr(a,b) ((b)<0 || (ULL)(b)>=sizeof(+(a))*8)
#define U_neg(a) (!FITS(+(a),-(I128)(+(a))))
static void outp(const char*key,const char*args,const char*x,const char*y){bad++;if(nbad_case++<1)printf("BAD\t%s\t%s\tgot %s\twant %s\n",key,args,x,y);}
'''


class FCase:
    """body uses parameters a,b,c,d. params: [(ctype, valueset name)]; guard: C condition to skip;
    ret: 'RT' or 'double'/'float'."""
    __slots__ = ("key", "body", "params", "guard", "ret", "glob")

    def __init__(self, key, body, params, guard="", ret="RT", glob=""):
        self.key, self.body, self.params, self.guard, self.ret, self.glob = key, body, params, guard, ret, glob


PRE = "typedef unsigned long UL; typedef unsigned char UC; typedef unsigned short US; typedef unsigned int UI; typedef signed char SC; typedef long long LL; typedef unsigned long long ULL; typedef unsigned long long RT;\n"


class Pair:
    def __init__(self, chk, values, prelude="", ccflags=(), per=150, gccflags=(), win=None):
        self.chk, self.values, self.prelude, self.per = chk, values, prelude, per
        self.ccflags = list(ccflags)
        self.gccflags = list(gccflags)
        self.win = win      # a win.Wine: code for Windows, next to the mingw compiler's
        self.gcc = "x86_64-w64-mingw32-gcc" if win else "gcc"
        self.dir = tempfile.mkdtemp(dir=chk.work)
        self.k = 0

    def sources(self, group):
        cc = [PRE, self.prelude]
        dr = [DRV, self.prelude, "\n"]
        used = sorted({p[1] for c in group for p in c.params})
        for u in used:
            t, vals = self.values[u]
            dr.append("static const %s V_%s[]={%s};\n" % (t, u, ",".join(vals)))
        main = []
        for i, c in enumerate(group):
            names = "abcdefgh"[:len(c.params)]
            plist = ",".join("%s %s" % (p[0], n) for p, n in zip(c.params, names)) or "void"
            cc.append("%s\n%s cc_%d(%s){%s}\n" % (c.glob.replace("@@", "c%d" % i), c.ret, i, plist, c.body.replace("@@", "c%d" % i)))
            dr.append("%s\n%s cc_%d(%s);static %s rf_%d(%s){%s}\n" % (c.glob.replace("@@", "r%d" % i), c.ret, i, plist, c.ret, i, plist, c.body.replace("@@", "r%d" % i)))
            f = ["static void run_%d(void){nbad_case=0;" % i]
            for n, p in zip(names, c.params):
                f.append("for(int i%s=0;i%s<(int)(sizeof V_%s/sizeof*V_%s);i%s++){%s %s=V_%s[i%s];" % (n, n, p[1], p[1], n, p[0], n, p[1], n))
            if c.guard:
                f.append("if(%s)continue;" % c.guard)
            f.append("evals++;%s x=cc_%d(%s),y=rf_%d(%s);" % (c.ret, i, ",".join(names), i, ",".join(names)))
            if c.ret == "RT":
                f.append("if(x!=y){")
                fm = "%llx"
            else:
                f.append("if(!(x!=x&&y!=y)&&memcmp(&x,&y,sizeof x)){")
                fm = "%a"
            fmt = " ".join("%s=%s" % (n, "%a" if p[0] in ("float", "double") else "%llx") for n, p in zip(names, c.params))
            args = "".join(",%s%s" % ("" if p[0] in ("float", "double") else "(ULL)", n) for n, p in zip(names, c.params))
            f.append('char A[200],X[64],Y[64];sprintf(A,"%s"%s);sprintf(X,"%s",x);sprintf(Y,"%s",y);outp("%d",A,X,Y);}' % (fmt or "void", args, fm, fm, i))
            f.append("}" * len(c.params) + "}\n")
            dr.append("".join(f))
            main.append('puts("@%d");fflush(stdout);run_%d();\n' % (i, i))
        dr.append("int main(void){%sprintf(\"EVALS %%lu\\n\",evals);return 0;}\n" % "".join(main))
        return "".join(cc), "".join(dr)

    def run1(self, group):
        """-> (err, bad {idx:text}, evals, lastmark)"""
        import threading
        self.k += 1
        b = os.path.join(self.dir, "p%d_%d" % (threading.get_ident(), self.k))
        cc, dr = self.sources(group)
        open(b + "c.c", "w").write(cc)
        open(b + "d.c", "w").write(dr)
        try:
            rc, out = sh([self.chk.cc, *self.ccflags, "-c", b + "c.c", "-o", b + "c.o"], 60)
            if rc != 0:
                return "compiler: %s %s" % (rc, out[-300:].decode("latin1")), {}, 0, -1
            rc, out = sh([self.gcc, *GCCFLAGS, *self.gccflags, "-c", b + "d.c", "-o", b + "d.o"], 120)
            if rc != 0:
                raise CheckError("reference rejects driver: %s" % out[-3000:].decode("latin1"))
            rc, out = sh([self.gcc, "-no-pie", *([] if self.win else ["-z", "noexecstack"]), b + "c.o", b + "d.o", "-o", b + ".x", "-lm"], 60)
            if rc != 0:
                return "link: %s" % out[-500:].decode("latin1"), {}, 0, -1
            rc, out = self.win.run(b + ".x", 30) if self.win else sh([b + ".x"], 30)
            bad, ev, last = {}, 0, -1
            for line in out.decode("latin1").splitlines():
                if line.startswith("@"):
                    last = int(line[1:])
                elif line.startswith("BAD\t"):
                    f = line.split("\t")
                    bad[int(f[1])] = "  ".join(f[2:])
                elif line.startswith("EVALS"):
                    ev = int(line.split()[1])
            if rc != 0:
                return "run: exit %s" % rc, bad, ev, last
            return None, bad, ev, last
        finally:
            for e in ("c.c", "d.c", "c.o", "d.o", ".x"):
                try:
                    os.unlink(b + e)
                except OSError:
                    pass

    def check(self, group):
        if self.chk.too_many():
            return
        err, bad, ev, last = self.run1(group)
        self.chk.evaluations += ev
        for i, t in sorted(bad.items()):
            self.report(group[i], t)
        if err:
            if len(group) == 1:
                self.report(group[0], err)
                return
            if err.startswith("run") and 0 <= last:
                nv = len(self.chk.violations) + len(self.chk.known_hit)
                self.check([group[last]])
                if len(self.chk.violations) + len(self.chk.known_hit) == nv:
                    self.report(group[last], err + " [combined]")
                if group[last + 1:]:
                    self.check(group[last + 1:])
            else:
                h = len(group) // 2
                nv = len(self.chk.violations) + len(self.chk.known_hit)
                self.check(group[:h])
                self.check(group[h:])
                if len(self.chk.violations) + len(self.chk.known_hit) == nv:
                    self.report(group[0], err + " [combined]")

    def report(self, c, text):
        cc, dr = self.sources([c])
        self.chk.violation(c.key, text, {"case.c": cc, "driver.c": dr, "run.sh":
            "#!/bin/sh\nD=$(dirname \"$0\")\n${CC:-/repo/bin/cc} %s -c $D/case.c -o /tmp/case.o && gcc %s $D/driver.c -no-pie /tmp/case.o -o /tmp/case.x -lm && /tmp/case.x\n" % (" ".join(self.ccflags), " ".join(GCCFLAGS))})

    def run(self, cases):
        n = len({c.key for c in cases})
        pmap(self.check, chunks(cases, self.per))
        self.chk.ndistinct += n
        for c in cases[:: max(1, len(cases) // 3)][:3]:
            if len(self.chk.samples) < 12:
                self.chk.samples.append({"case": c.key, "body": c.body})
