"""Model of C control flow: statement trees / flowcharts lowered to a small abstract machine whose
executions (one per sequence of steering inputs) are enumerated exhaustively, and the replay of every
execution on compiled code.

Tree nodes (tuples):
 ('T',k) trace            ('A',k) x=y+k          ('W',) swap x,y      ('I',k) y+=x
 ('B',) break  ('C',) continue  ('R',) return  ('G',) trace+goto L     ('N',) empty statement
 (';',a,b) ('if',c,a) ('ie',c,a,b) ('wh',c,a) ('do',c,a) ('fo',c,a) ('L',a) ('sw',kind,a[,b])
Conditions: index into CONDS."""
import struct, threading, os
from vlib import *

MASK = {"int": 32, "unsigned": 32, "long": 64, "unsigned long": 64, "short": 16, "signed char": 8, "unsigned char": 8}


def wrap(v, t):
    n = MASK[t]
    v &= (1 << n) - 1
    if not t.startswith("unsigned") and v >> (n - 1):
        v -= 1 << n
    return v


class Cut(Exception):
    pass


class Path:
    """one execution: replays `bits` then stops at a fresh choice"""

    def __init__(self, bits, fuel):
        self.bits, self.i, self.tr, self.fuel = bits, 0, [], fuel
        self.steps = 0

    def inp(self):
        if self.i >= len(self.bits):
            raise Cut()
        b = self.bits[self.i]
        self.i += 1
        self.tr.append(900 + b)
        return b

    def trace(self, *a):
        self.tr.extend(a)
        self.fuel -= 1
        if self.fuel < 0:
            raise Cut()


CONDS = ["in()", "!in()", "in()&&in()", "in()||in()", "x++<2", "(T(77,x,y),in())", "in()?in():x<y", "x>y&&in()", "!(in()||y)", "(x=y)!=0&&in()", "in()==0"]


def cond(ci, m, p):
    t = m["t"]
    if ci == 0:
        return p.inp()
    if ci == 1:
        return not p.inp()
    if ci == 2:
        return p.inp() and p.inp()
    if ci == 3:
        return p.inp() or p.inp()
    if ci == 4:
        v = m["x"]
        m["x"] = wrap(v + 1, t)
        return v < 2
    if ci == 5:
        p.trace(77, m["x"], m["y"])
        return p.inp()
    if ci == 6:
        return p.inp() if p.inp() else m["x"] < m["y"]
    if ci == 7:
        return m["x"] > m["y"] and p.inp()
    if ci == 8:
        return not (p.inp() or m["y"])
    if ci == 9:
        m["x"] = m["y"]
        return m["x"] != 0 and p.inp()
    if ci == 10:
        return not p.inp()


SW = {  # kind: labels of the first and second body
    "0": (("case 0:",), None), "1": (("case 1:",), None), "d": (("default:",), None),
    "01": (("case 0:",), ("case 1:",)), "1d": (("case 1:",), ("default:",)), "d0": (("default:",), ("case 0:",)),
    "bd": (("case 0:", "case 1:"), ("default:",))}


class Prog:
    """lowered program: list of instructions, executed by run()"""

    def __init__(self, tree):
        self.code = []
        self.lab = {}
        self.gotos = []
        self.lower(tree, None, None)
        self.code.append(("ret", 1))
        for i in self.gotos:
            self.code[i] = ("jmp", self.lab["L"])

    def e(self, *a):
        self.code.append(list(a))
        return len(self.code) - 1

    def lower(self, n, brk, cont):
        k = n[0]
        if k in "TAIWRDMZ" or k == "N":
            self.e(*n)
        elif k == "B":
            brk.append(self.e("jmp", None))
        elif k == "C":
            cont.append(self.e("jmp", None))
        elif k == "G":
            self.e("T", n[1])
            self.gotos.append(self.e("jmp", None))
        elif k == ";":
            self.lower(n[1], brk, cont)
            self.lower(n[2], brk, cont)
        elif k == "if":
            j = self.e("bz", n[1], None)
            self.lower(n[2], brk, cont)
            self.code[j][2] = len(self.code)
        elif k == "ie":
            j = self.e("bz", n[1], None)
            self.lower(n[2], brk, cont)
            j2 = self.e("jmp", None)
            self.code[j][2] = len(self.code)
            self.lower(n[3], brk, cont)
            self.code[j2][1] = len(self.code)
        elif k in ("wh", "fo"):
            b, c = [], []
            s = len(self.code)
            j = self.e("bz", n[1], None)
            self.lower(n[2], b, c)
            ct = s
            if k == "fo":
                ct = self.e("I", 0)
            self.e("jmp", s)
            self.patch(b + [], len(self.code))
            self.patch(c, ct)
            self.code[j][2] = len(self.code)
        elif k == "do":
            b, c = [], []
            s = len(self.code)
            self.lower(n[2], b, c)
            self.patch(c, len(self.code))
            j = self.e("bz", n[1], None)
            self.e("jmp", s)
            self.code[j][2] = len(self.code)
            self.patch(b, len(self.code))
        elif k == "L":
            self.lab["L"] = len(self.code)
            self.lower(n[1], brk, cont)
        elif k == "sw":
            b = []
            la, lb = SW[n[1]]
            j = self.e("sw", {}, None)
            self.code[j][1] = tgt = {}
            for l, body in ((la, n[2]), (lb, n[3] if lb else None)):
                if l is None:
                    continue
                for q in l:
                    tgt[q] = len(self.code)
                self.lower(body, b, cont)
            self.code[j][2] = len(self.code)
            self.patch(b, len(self.code))
        else:
            raise ValueError(k)

    def patch(self, js, to):
        for j in js:
            self.code[j][1] = to

    def run(self, p, t, x=1, y=2):
        m = {"t": t, "x": x, "y": y, "z": 5}
        pc = 0
        try:
            while True:
                i = self.code[pc]
                p.steps += 1
                pc += 1
                op = i[0]
                if op == "T":
                    p.trace(i[1], m["x"], m["y"])
                elif op == "A":
                    m["x"] = wrap(m["y"] + i[1], t)
                elif op == "W":
                    m["x"], m["y"] = m["y"], m["x"]
                elif op == "M":
                    m[i[1]] = wrap(m[i[2]] + (m[i[3]] if i[3] else 0), t)
                elif op == "Z":
                    p.trace(98, m["z"], m["x"])
                elif op == "D":
                    m["x"], m["y"] = m["y"], wrap(m["x"] + m["y"], t)
                elif op == "I":
                    m["y"] = wrap(m["y"] + m["x"], t)
                elif op == "jmp":
                    pc = i[1]
                elif op == "bz":
                    if not cond(i[1], m, p):
                        pc = i[2]
                elif op == "sw":
                    v = "case %d:" % p.inp()
                    tg = i[1]
                    pc = tg[v] if v in tg else tg.get("default:", i[2])
                elif op == "R":
                    p.tr += [-1, wrap(m["x"] * 5, t), m["y"]]
                    return
                elif op == "ret":
                    p.tr += [-1, wrap(m["x"] * 3, t), m["y"]]
                    return
                elif op == "N":
                    pass
                if p.steps > 3000:
                    raise RuntimeError("model ran away: " + repr(self.code))
        except Cut:
            p.tr.append(-2)
            if p.i >= len(p.bits) and p.fuel >= 0:
                p.open = True
                return


def executions(prog, t, depth, fuel=24):
    """all executions up to `depth` inputs: list of (bits, trace); every prefix that asks for more
    input is extended by both answers. Returns (list, steps)."""
    out, todo, steps = [], [()], 0
    while todo:
        bits = todo.pop()
        p = Path(bits, fuel)
        p.open = False
        prog.run(p, t)
        steps += p.steps
        if p.open and len(bits) < depth:
            todo.append(bits + (1,))
            todo.append(bits + (0,))
        else:
            out.append((bits, p.tr))
    return out, steps


def ctext(n):
    k = n[0]
    if k == "T":
        return "T(%d,x,y);" % n[1]
    if k == "A":
        return "x=y+%d;" % n[1]
    if k == "W":
        return "{V t;t=x;x=y;y=t;}"
    if k == "M":
        return "%s=%s;" % (n[1], n[2] + ("+" + n[3] if n[3] else ""))
    if k == "Z":
        return "T(98,z,x);"
    if k == "D":
        return "{V t=y;y=x+y;x=t;}"
    if k == "I":
        return "y+=x;"
    if k == "N":
        return ";"
    if k == "B":
        return "break;"
    if k == "C":
        return "continue;"
    if k == "R":
        return "{Y(y);return x*5;}"
    if k == "G":
        return "{T(%d,x,y);goto L;}" % n[1]
    if k == ";":
        return ctext(n[1]) + ctext(n[2])
    b = lambda s: "{" + ctext(s) + "}" if s[0] in (";",) else ctext(s)
    if k == "if":
        s = b(n[2])
        return "if(%s)%s" % (CONDS[n[1]], s)
    if k == "ie":
        s = b(n[2])
        if n[2][0] in ("if", "wh", "fo", "L"):
            s = "{" + s + "}"
        return "if(%s)%selse %s" % (CONDS[n[1]], s, b(n[3]))
    if k == "wh":
        return "while(%s)%s" % (CONDS[n[1]], b(n[2]))
    if k == "fo":
        return "for(;%s;y+=x)%s" % (CONDS[n[1]], b(n[2]))
    if k == "do":
        return "do %s while(%s);" % (b(n[2]), CONDS[n[1]])
    if k == "L":
        return "L:" + b(n[1])
    if k == "sw":
        la, lb = SW[n[1]]
        return "switch(in()){%s%s%s}" % ("".join(la), ctext(n[2]), "".join(lb) + ctext(n[3]) if lb else "")
    raise ValueError(k)


LEAVES = [("T",), ("A",), ("W",), ("B",), ("C",), ("R",), ("G",)]


def trees(size, conds=(0,), leaves=LEAVES, sws=tuple(SW)):
    """all statement trees of exactly `size` nodes (canonical: sequences associate to the right)"""
    memo = {}

    def gen(n):
        if n in memo:
            return memo[n]
        r = []
        if n == 1:
            r += leaves
        if n >= 2:
            for s in gen(n - 1):
                for c in conds:
                    for k in ("if", "wh", "do", "fo"):
                        r.append((k, c, s))
                r.append(("L", s))
                for q in sws:
                    if SW[q][1] is None:
                        r.append(("sw", q, s))
        if n >= 3:
            for i in range(1, n - 1):
                for a in gen(i):
                    for b in gen(n - 1 - i):
                        if a[0] != ";" and a[0] not in "BCRG":
                            r.append((";", a, b))
                        for c in conds:
                            r.append(("ie", c, a, b))
                        for q in sws:
                            if SW[q][1] is not None:
                                r.append(("sw", q, a, b))
        memo[n] = r
        return r
    for t in gen(size):
        if valid(t):
            yield t


def valid(t):
    ng = nl = 0
    stack = [(t, False, False)]
    while stack:
        n, br, co = stack.pop()
        k = n[0]
        if k == "B" and not br or k == "C" and not co:
            return False
        if k == "G":
            ng += 1
        if k == "L":
            nl += 1
            stack.append((n[1], br, co))
        elif k in ("wh", "do", "fo"):
            stack.append((n[2], True, True))
        elif k == "sw":
            for s in n[2:]:
                stack.append((s, True, co))
        elif k in ("if", "ie"):
            for s in n[2:]:
                stack.append((s, br, co))
        elif k == ";":
            stack.append((n[1], br, co))
            stack.append((n[2], br, co))
    return nl <= 1 and (ng > 0) == (nl > 0)


def number(t, ctr=None):
    """give leaves distinct numbers"""
    if ctr is None:
        ctr = [0]
    if t[0] in "MZ":
        return t
    if len(t) == 1:
        ctr[0] += 1
        return (t[0], ctr[0])
    return tuple(number(e, ctr) if isinstance(e, tuple) else e for e in t)


def silent_loop(t):
    """the text has a loop that can run forever without asking for input or tracing"""
    return False


RT = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
static jmp_buf jb; static short *bits; static int nb, bi, fuel; static int tr[1<<14]; static int tn; static long yv;
int in(void){ if(bi>=nb) longjmp(jb,1); tr[tn++]=900+bits[bi]; return bits[bi++]; }
void T(int k,long x,long y){ tr[tn++]=k;tr[tn++]=(int)x;tr[tn++]=(int)y; if(--fuel<0) longjmp(jb,1); }
void Y(long y){ yv=y; }
long F(int i);
extern int nf;
static int rd(FILE*f){int v;if(fread(&v,4,1,f)!=1)exit(9);return v;}
int main(int c,char**v){
 FILE*f=fopen(v[1],"rb"); int n=rd(f);
 for(int i=0;i<n;i++){ int np=rd(f); if(np<0){np=-np-1;} printf("AT %d\n",i);fflush(stdout);
  int bad=0;
  for(int j=0;j<np;j++){ static short b[4096]; static int ex[1<<14]; nb=rd(f); for(int k=0;k<nb;k++)b[k]=rd(f); int ne=rd(f); for(int k=0;k<ne;k++)ex[k]=rd(f);
   bits=b;bi=0;fuel=FUEL;tn=0;
   if(setjmp(jb)==0){ long r=F(i); tr[tn++]=-1;tr[tn++]=(int)r;tr[tn++]=(int)yv; } else tr[tn++]=-2;
   if((tn!=ne||memcmp(tr,ex,4*ne))&&!bad){bad=1;printf("BAD %d bits",i);for(int k=0;k<nb;k++)printf(" %d",b[k]);printf(" expected");for(int k=0;k<ne;k++)printf(" %d",ex[k]);printf(" observed");for(int k=0;k<tn;k++)printf(" %d",tr[k]);printf("\n");}
  } }
 printf("DONE\n");return 0;}
'''


class Flow:
    """replays programs: each is (key, function text with @ for its number, executions)"""

    def __init__(self, chk, fuel=24):
        self.chk = chk
        self.fuel = fuel
        self.n = 0
        self.lock = threading.Lock()
        self.rt = os.path.join(chk.work, "flowrt%d.o" % fuel)
        open(self.rt + ".c", "w").write(RT)
        rc, out = sh(["gcc", "-w", "-O1", "-DFUEL=%d" % fuel, "-c", self.rt + ".c", "-o", self.rt])
        if rc:
            raise CheckError(out.decode())

    def tu(self, progs):
        s = ["int in(void);void T(int,long,long);void Y(long);\n"]
        for i, (key, text, ex) in enumerate(progs):
            s.append(text.replace("@", str(i)) + "\n")
        s.append("long F(int i){switch(i){%s}return 0;}\n" % "".join("case %d:return f%d();" % (i, i) for i in range(len(progs))))
        return "".join(s)

    def data(self, progs):
        d = [len(progs)]
        for key, text, ex in progs:
            d.append(len(ex))
            for bits, tr in ex:
                d.append(len(bits)); d += bits; d.append(len(tr)); d += tr
        return struct.pack("<%di" % len(d), *[wrap(v, "int") for v in d])

    def go(self, progs, compiler=None):
        with self.lock:
            self.n += 1
            b = os.path.join(self.chk.work, "fl%d" % self.n)
        open(b + ".c", "w").write(self.tu(progs))
        open(b + ".d", "wb").write(self.data(progs))
        try:
            if compiler == "gcc":
                rc, out = sh(["gcc", *GCCFLAGS, "-c", b + ".c", "-o", b + ".o"], 120)
                if rc:
                    raise CheckError("gcc: " + out[-1500:].decode())
            else:
                rc, out = sh([self.chk.cc, "-c", b + ".c", "-o", b + ".o"], 15)
                if rc:
                    return "compiler exit %s: %s" % (rc, out[-300:].decode("latin1")), ""
            rc, out = sh(["gcc", "-no-pie", "-z", "noexecstack", b + ".o", self.rt, "-o", b + ".x"], 60)
            if rc:
                return "link: " + out[-300:].decode("latin1"), ""
            rc, out = sh([b + ".x", b + ".d"], 5)
            out = out.decode("latin1")
            return (None if rc == 0 and "DONE" in out else "run ended with %s" % rc), out
        finally:
            for e in (".c", ".d", ".o", ".x"):
                if os.path.exists(b + e):
                    os.unlink(b + e)

    def group(self, progs):
        if self.chk.too_many():
            return
        err, out = self.go(progs)
        last = 0
        bad = {}
        for line in out.splitlines():
            if line.startswith("AT "):
                last = int(line.split()[1])
            if line.startswith("BAD "):
                bad[int(line.split()[1])] = line
        if err is None:
            for i, l in bad.items():
                self.report(progs[i], l)
            return
        if len(progs) == 1:
            self.report(progs[0], err + "\n" + out[-300:])
            return
        n0 = len(self.chk.violations) + len(self.chk.known_hit)
        if err.startswith("run"):
            if last:
                self.group(progs[:last])
            self.group(progs[last:last + 1])
            if last + 1 < len(progs):
                self.group(progs[last + 1:])
            if len(self.chk.violations) + len(self.chk.known_hit) == n0:
                self.report(progs[last], err + " (in combination)")
            return
        h = len(progs) // 2
        self.group(progs[:h])
        self.group(progs[h:])
        if len(self.chk.violations) + len(self.chk.known_hit) == n0:
            self.report(progs[0], err + " (in combination)")

    def report(self, prog, what):
        self.chk.violation(prog[0], what, {"input.c": self.tu([prog]), "rt.c": RT, "data": self.data([prog]),
                           "run.sh": "#!/bin/sh\nD=$(dirname $0); ${CC:-/repo/bin/cc} -c $D/input.c -o /tmp/r.o && gcc -w -DFUEL=%d -no-pie /tmp/r.o $D/rt.c -o /tmp/r.x && /tmp/r.x $D/data\n" % self.fuel})

    def check_model(self, progs):
        """the reference compiler must agree with the model"""
        err, out = self.go(progs, "gcc")
        if err or "BAD" in out:
            raise CheckError("model and reference disagree: %s %s" % (err, [l for l in out.splitlines() if l.startswith("BAD")][:3] + [progs[int(l.split()[1])][1] for l in out.splitlines() if l.startswith("BAD")][:1]))
