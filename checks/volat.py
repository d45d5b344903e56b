import sys, os, itertools, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *

# The monitor: every object lies alone on a protected page. An access faults, is written down, and is then
# executed as a single step with the page open. The pages around it are never open.
MON = r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <signal.h>
#include <setjmp.h>
#include <ucontext.h>
#include <sys/mman.h>
typedef unsigned long u;
extern char vbase[];
#define BASE ((u)vbase)
#define NOBJ %(n)d
static const char*const nm[]={%(names)s};
static const u off[]={%(offs)s};
static const u siz[]={%(sizes)s};
static char lg[4096];static int ln;static int on;static sigjmp_buf out;static int opened;
static void put(const char*k,const char*s){if(ln<3800)ln+=sprintf(lg+ln,"%%s%%s ",k,s);}
static void prot(int p){for(int i=0;i<NOBJ;i++)mprotect((void*)(BASE+i*0x4000+0x1000),4096,p);}
static void segv(int s,siginfo_t*si,void*v){
 ucontext_t*c=v;u a=(u)si->si_addr;
 if(!on||a<BASE||a>=BASE+NOBJ*0x4000ul){put("!","fault");if(on)siglongjmp(out,1);_Exit(9);}
 int k=(a-BASE)/0x4000;u o=(a-BASE)%%0x4000;
 if(o<0x1000||o>=0x2000){put("!beyond ",nm[k]);siglongjmp(out,1);}
 o-=0x1000;char w[64];
 const char*rw=c->uc_mcontext.gregs[REG_ERR]&2?"W":"R";
 if(o<off[k]||o>=off[k]+siz[k]){put("!beside ",nm[k]);siglongjmp(out,1);}
 if(o==off[k])sprintf(w,"%%s",nm[k]);else sprintf(w,"%%s+%%lu",nm[k],o-off[k]);
 put(rw,w);
 mprotect((void*)(BASE+k*0x4000+0x1000),4096,PROT_READ|PROT_WRITE);opened=1;
 c->uc_mcontext.gregs[REG_EFL]|=0x100;
}
static void trap(int s,siginfo_t*si,void*v){ucontext_t*c=v;if(opened){opened=0;prot(PROT_NONE);}c->uc_mcontext.gregs[REG_EFL]&=~0x100ul;}
static char alt[1<<16];
static void setup(void){static int done;if(done)return;done=1;
 for(int i=0;i<NOBJ;i++){mmap((void*)(BASE+i*0x4000),0x4000,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,-1,0);}
 stack_t ss={.ss_sp=alt,.ss_size=sizeof alt};sigaltstack(&ss,0);
 struct sigaction sa={0};sa.sa_flags=SA_SIGINFO|SA_ONSTACK;sa.sa_sigaction=segv;sigfillset(&sa.sa_mask);sigaction(SIGSEGV,&sa,0);sigaction(SIGBUS,&sa,0);sa.sa_sigaction=trap;sigaction(SIGTRAP,&sa,0);}
int call(long v){put("C","");return v;}int call2(long v,long w){put("C","");return v-w;}
int pool[64];extern volatile int gk;volatile int*pv;int plain;long plainl;double plaind;
static long rd(int k,u o,u n){long r=0;memcpy(&r,(char*)BASE+k*0x4000+0x1000+off[k]+o,n);return r;}
void go(long(*fn)(void)){setup();
 prot(PROT_READ|PROT_WRITE);
 for(int i=0;i<NOBJ;i++){char*p=(char*)BASE+i*0x4000+0x1000;memset(p,0,4096);}
#define I(k,o,t,val) do{t z_=val;memcpy((char*)BASE+k*0x4000+0x1000+off[k]+o,&z_,sizeof z_);}while(0)
 %(init)s
 for(int i=0;i<64;i++)pool[i]=i;pv=&gk;plain=1;plainl=2;plaind=3;
 prot(PROT_NONE);ln=0;lg[0]=0;on=1;opened=0;long r=-99;
 if(!sigsetjmp(out,1))r=fn();
 on=0;prot(PROT_READ|PROT_WRITE);
 printf("%%s= %%ld |",lg,r);
 %(show)s
}
'''
# name, type, size, at the end of the page?, initial value, declarator
OBJ = [
    ("gi", "volatile int gi", "int", 4, 1, 3), ("gj", "int volatile gj", "int", 4, 0, 5), ("gk", "vint gk", "int", 4, 1, 2), ("gz", "volatile int gz", "int", 4, 0, 0),
    ("gc", "volatile char gc", "char", 1, 1, 7), ("gh", "volatile unsigned char gh", "unsigned char", 1, 0, 200), ("gs", "volatile short gs", "short", 2, 1, 9), ("gw", "unsigned short volatile gw", "unsigned short", 2, 0, 6),
    ("gu", "volatile unsigned gu", "unsigned", 4, 1, 11), ("gl", "volatile long gl", "long", 8, 1, 4), ("gm", "volatile unsigned long gm", "unsigned long", 8, 0, 8), ("gb", "volatile _Bool gb", "_Bool", 1, 1, 1),
    ("gd", "volatile double gd", "double", 8, 1, 2.0), ("gf", "volatile float gf", "float", 4, 1, 3.0),
]
OBJX = [("gp", "int*volatile gp", 8), ("gq", "volatile int*volatile gq", 8), ("ga", "volatile int ga[4]", 16), ("gt", "volatile struct{char a;short b;int c;long d;}gt", 16), ("gx", "struct{volatile int a;int b;}gx", 8), ("gy", "volatile int gy[2][2]", 16), ("gv", "volatile struct{unsigned a:3,b:5;}gv", 4)]
NAMES = [o[0] for o in OBJ] + [o[0] for o in OBJX]
SIZES = [o[3] for o in OBJ] + [o[2] for o in OBJX]
OFFS = [4096 - o[3] if o[4] else 0 for o in OBJ] + [4096 - 8, 0, 4096 - 16, 4096 - 16, 0, 0, 4096 - 4]
DECLS = "typedef volatile int vint;\nint call(long);int call2(long,long);void go(long(*)(void));extern int pool[64];extern volatile int*pv;extern int plain;extern long plainl;extern double plaind;\n" + \
    "".join("extern %s;\n" % o[1] for o in OBJ + OBJX)
CT = {o[0]: o[2] for o in OBJ}
VAL = {o[0]: o[5] for o in OBJ}


# ---- the model: events, and which have to come before which ----
class Ev:
    __slots__ = ("lab", "pred", "opt", "alt")

    def __init__(self, lab, pred=(), opt=False):
        self.lab, self.pred, self.opt = lab, set(pred), opt


class M:
    """events so far, and the values of the objects"""
    def __init__(self):
        self.ev = []
        self.val = dict(VAL)
        self.val.update({"ga" + ("+%d" % (4 * i) if i else ""): 10 + i for i in range(4)})
        self.val.update({"gt": 1, "gt+2": 2, "gt+4": 3, "gt+8": 4, "gx": 6, "gy": 1, "gy+4": 2, "gy+8": 3, "gy+12": 4, "gv.a": 5, "gv.b": 17})
        self.plain = 1
        self.loc = {}
        self.floor = set()      # what is sequenced before whatever comes now

    def add(self, lab, pred=(), opt=False):
        e = Ev(lab, set(pred) | self.floor, opt)
        self.ev.append(e)
        return e

    def point(self):
        """a sequence point: all there is comes before all that follows"""
        self.floor = set(self.ev)


RANGE = {"char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0), "int": (32, 1), "unsigned": (32, 0), "long": (64, 1), "unsigned long": (64, 0)}


def conv(t, v):
    if t in ("u3", "u5"):
        return int(v) & (7 if t == "u3" else 31)
    if t == "_Bool":
        return 1 if v else 0
    if t in ("double", "float"):
        return float(v)
    b, s = RANGE[t]
    v = int(v) & ((1 << b) - 1)
    return v - (1 << b) if s and v >> (b - 1) else v


def name(lab):
    return lab.split("+")[0] if lab != "C" else lab


# an lvalue evaluates to (label, type, events its value depends on)
class Var:
    def __init__(self, n):
        self.n, self.t = n, CT[n]

    def text(self):
        return self.n

    def lv(self, m):
        return self.n, self.t, set()


class Elem:
    """ga[index]"""
    t = "int"

    def __init__(self, ix):
        self.ix = ix

    def text(self):
        return "ga[%s&3]" % self.ix.text()

    def lv(self, m):
        v, vc = self.ix.rv(m)
        return "ga" + ("+%d" % (4 * (v & 3)) if v & 3 else ""), "int", vc


class Elem2(Elem):
    def text(self):
        return "gy[1][%s&1]" % self.ix.text()

    def lv(self, m):
        v, vc = self.ix.rv(m)
        return "gy+%d" % (8 + 4 * (v & 1)), "int", vc


class Field:
    F = {"a": ("gt", "char"), "b": ("gt+2", "short"), "c": ("gt+4", "int"), "d": ("gt+8", "long")}

    def __init__(self, f, how="gt.%s"):
        self.f, self.how, self.t = f, how, self.F[f][1]

    def text(self):
        return self.how % self.f

    def lv(self, m):
        return self.F[self.f] + (set(),)


class XField:
    t = "int"

    def text(self):
        return "gx.a"

    def lv(self, m):
        return "gx", "int", set()


class BitF:
    """a bit-field: it is read and written within its unit"""
    def __init__(self, f, how="gv.%s"):
        self.f, self.how, self.t = f, how, "u3" if f == "a" else "u5"
        self.key = "gv." + f

    def text(self):
        return self.how % self.f

    def lv(self, m):
        return "gv", self.t, set()


class Deref:
    """through a pointer: *pv (plain pointer to gk), *gq (volatile pointer to gj), *(volatile int*)&gu"""
    def __init__(self, how):
        self.how, self.t = how, "unsigned" if "&gu" in how else "char" if "&gc" in how else "int"

    def text(self):
        return self.how

    def lv(self, m):
        if "gq" in self.how:
            e = m.add("Rgq")
            return "gj", "int", {e}
        if "&gu" in self.how:
            return "gu", "unsigned", set()
        if "&gc" in self.how:
            return "gc", "char", set()
        return "gk", "int", set()


class Pool:
    """*gp: a plain object through a volatile pointer"""
    t = "int"

    def text(self):
        return "*gp"

    def lv(self, m):
        e = m.add("Rgp")
        return None, "int", {e}


class Rd:
    def __init__(self, l):
        self.l, self.t = l, l.t

    def text(self):
        return self.l.text()

    def rv(self, m):
        lab, t, vc = self.l.lv(m)
        if lab is None:
            return m.val.get("pool", 1), vc
        e = m.add("R" + lab, vc)
        return m.val[getattr(self.l, "key", lab)], vc | {e}


class K:
    t = "int"

    def __init__(self, v):
        self.v = v

    def text(self):
        return str(self.v)

    def rv(self, m):
        return self.v, set()


class Loc(K):
    """a plain local or global"""
    def __init__(self, n):
        self.v = n

    def text(self):
        return self.v

    def rv(self, m):
        return m.loc[self.v] if self.v in m.loc else m.plain, set()


class Bin:
    def __init__(self, op, a, b):
        self.op, self.a, self.b, self.t = op, a, b, "long"

    def text(self):
        return "(%s%s%s)" % (self.a.text(), self.op, self.b.text())

    def rv(self, m):
        a, x = self.a.rv(m)
        b, y = self.b.rv(m)
        return ari(self.op, a, b), x | y


def ari(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    if op == "<<":
        return a << (b & 3)
    return int({"<": a < b, "==": a == b, "!=": a != b}[op])


class Un:
    def __init__(self, op, a):
        self.op, self.a, self.t = op, a, "long"

    def text(self):
        return " %s%s" % (self.op, self.a.text())

    def rv(self, m):
        v, x = self.a.rv(m)
        return (-v if self.op == "-" else ~int(v) if self.op == "~" else int(not v) if self.op == "!" else conv(self.op.strip("()"), v)), x


class Log:
    """&& and ||"""
    t = "int"

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def text(self):
        return "(%s%s%s)" % (self.a.text(), self.op, self.b.text())

    def rv(self, m):
        return short(m, self.a, lambda v: bool(v) == (self.op == "&&"), self.b, lambda v: int(self.op == "||"), bool)


def short(m, a, goes, b, other, wrap):
    n = len(m.ev)
    v, x = a.rv(m)
    old = m.floor
    if not goes(v):
        return other(v), x
    m.floor = m.floor | set(m.ev[n:])
    w, y = b.rv(m)
    m.floor = old
    return int(wrap(w)), x | y


class Cond:
    t = "long"

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def text(self):
        return "(%s?%s:%s)" % (self.a.text(), self.b.text(), self.c.text())

    def rv(self, m):
        n = len(m.ev)
        v, x = self.a.rv(m)
        old = m.floor
        m.floor = m.floor | set(m.ev[n:])
        w, y = (self.b if v else self.c).rv(m)
        m.floor = old
        return w, x | y


class Comma:
    def __init__(self, a, b):
        self.a, self.b, self.t = a, b, b.t

    def text(self):
        return "(%s,%s)" % (self.a.text(), self.b.text())

    def rv(self, m):
        n = len(m.ev)
        void(m, self.a)
        old = m.floor
        m.floor = m.floor | set(m.ev[n:])
        w, y = self.b.rv(m)
        m.floor = old
        return w, y


class Call:
    t = "int"

    def __init__(self, a):
        self.a = a

    def text(self):
        return "call(%s)" % self.a.text()

    def rv(self, m):
        n = len(m.ev)
        v, x = self.a.rv(m)
        e = m.add("C", m.ev[n:])
        return conv("int", v), {e}


class Call2:
    t = "int"

    def __init__(self, a, b):
        self.a, self.b = a, b

    def text(self):
        return "call2(%s,%s)" % (self.a.text(), self.b.text())

    def rv(self, m):
        n = len(m.ev)
        v, x = self.a.rv(m)
        w, y = self.b.rv(m)
        e = m.add("C", m.ev[n:])
        return conv("int", v - w), {e}


class As:
    def __init__(self, l, e):
        self.l, self.e, self.t = l, e, l.t

    def text(self):
        return "(%s=%s)" % (self.l.text(), self.e.text())

    def rv(self, m, used=True):
        lab, t, x = self.l.lv(m)
        v, y = self.e.rv(m)
        v = conv(t, v)
        if lab is None:
            m.val["pool"] = v
            return v, x | y
        pre = set()
        if isinstance(self.l, BitF):        # with the rest of its unit
            pre = {m.add("R" + lab, x)}
            for e in pre:
                e.lab = "r" + lab
        w = m.add("W" + lab, x | y | pre)
        m.val[getattr(self.l, "key", lab)] = v
        r = m.add("R" + lab, {w}, True)         # may be read again for its value
        return v, x | y | {r}


class Op:
    """compound assignment, ++, --"""
    def __init__(self, op, l, e=None):
        self.op, self.l, self.e, self.t = op, l, e, l.t

    def text(self):
        if self.op in ("++", "--"):
            return "(%s%s)" % (self.op, self.l.text())
        if self.op in ("p++", "p--"):
            return ("((%s)%s)" if self.l.text()[0] == "*" else "(%s%s)") % (self.l.text(), self.op[1:])
        return "(%s%s=%s)" % (self.l.text(), self.op, self.e.text())

    def rv(self, m):
        lab, t, x = self.l.lv(m)
        v, y = self.e.rv(m) if self.e else (1, set())
        if lab is None:
            old = m.val.get("pool", 1)
            new = m.val["pool"] = conv(t, ari(self.op if self.op == "<<" else self.op.strip("p")[0], old, v))
            return (old if self.op[0] == "p" else new), x | y
        r = m.add("R" + lab, x)
        pre = {m.add("R" + lab, x | {r}, True)} if isinstance(self.l, BitF) else set()
        w = m.add("W" + lab, x | y | {r} | pre)
        r.lab = "r" + lab        # an instruction may read and write at once
        key = getattr(self.l, "key", lab)
        old = m.val[key]
        new = m.val[key] = conv(t, ari(self.op if self.op == "<<" else self.op.strip("p")[0], old, v))
        if self.op[0] == "p":
            return old, x | {r}
        q = m.add("R" + lab, {w}, True)
        return new, x | y | {r, q}


def void(m, e):
    """for its effects alone: what is read just for a value that nobody uses may be left out (what an access is, is implementation-defined)"""
    n = len(m.ev)
    if isinstance(e, Un):
        void(m, e.a)
    elif isinstance(e, Bin):
        void(m, e.a)
        void(m, e.b)
    elif isinstance(e, (Comma, Log, Cond)):
        if isinstance(e, Comma):
            void(m, e.a)
            nxt = e.b
        else:
            v, x = e.a.rv(m)
            nxt = (e.b if v else e.c) if isinstance(e, Cond) else e.b if bool(v) == (e.op == "&&") else None
        old = m.floor
        m.floor = m.floor | set(m.ev[n:])
        if nxt:
            void(m, nxt)
        m.floor = old
    else:
        e.rv(m)
        if isinstance(e, Rd):
            for x in m.ev[n:]:
                x.opt = True


# statements
class St:
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def text(self):
        k, a = self.kind, self.a
        if k == "e":
            return a[0].text() + ";"
        if k == "v":
            return "(void)%s;" % a[0].text()
        if k == "init":
            return "%s %s=%s;" % (a[2] if len(a) > 2 else "long", a[0], a[1].text())
        if k == "set":
            return "%s=%s;" % (a[0], a[1].text())
        if k == "if":
            return "if(%s){%s}else{%s}" % (a[0].text(), seq(a[1]), seq(a[2]))
        if k == "while":
            return "while(%s){%s}" % (a[0].text(), seq(a[1]))
        if k == "do":
            return "do{%s}while(%s);" % (seq(a[1]), a[0].text())
        if k == "for":
            return "for(%s;%s;%s){%s}" % (a[0].text(), a[1].text(), a[2].text(), seq(a[3]))
        if k == "switch":
            return "switch(%s){case 3:%sbreak;case 5:%sdefault:%s}" % (a[0].text(), seq(a[1]), seq(a[2]), seq(a[3]))
        if k == "arr":
            return "int %s[2]={%s,%s};" % (a[0], a[1].text(), a[2].text())
        if k == "ret":
            return "return %s;" % a[0].text()
        raise KeyError(k)

    def run(self, m):
        k, a = self.kind, self.a
        if k in ("e", "v"):
            void(m, a[0])
            m.point()
        elif k in ("init", "set"):
            v, _ = a[1].rv(m)
            m.loc[a[0]] = conv(a[2] if len(a) > 2 else "long", v)
            m.point()
        elif k == "if":
            v, _ = a[0].rv(m)
            m.point()
            return runs(m, a[1] if v else a[2])
        elif k == "while":
            while True:
                v, _ = a[0].rv(m)
                m.point()
                if not v:
                    break
                r = runs(m, a[1])
                if r is not None:
                    return r
        elif k == "do":
            while True:
                r = runs(m, a[1])
                if r is not None:
                    return r
                v, _ = a[0].rv(m)
                m.point()
                if not v:
                    break
        elif k == "for":
            void(m, a[0])
            m.point()
            while True:
                v, _ = a[1].rv(m)
                m.point()
                if not v:
                    break
                r = runs(m, a[3])
                if r is not None:
                    return r
                void(m, a[2])
                m.point()
        elif k == "switch":
            v, _ = a[0].rv(m)
            m.point()
            for b in ([1] if v == 3 else [2, 3] if v == 5 else [3]):
                r = runs(m, a[b])
                if r is not None:
                    return r
        elif k == "arr":
            v, _ = a[1].rv(m)
            w, _ = a[2].rv(m)
            m.loc[a[0] + "[0]"], m.loc[a[0] + "[1]"] = v, w
            m.point()
        elif k == "ret":
            v, _ = a[0].rv(m)
            m.point()
            return v
        return None


def seq(ss):
    return "".join(s.text() for s in ss)


def runs(m, ss):
    for s in ss:
        r = s.run(m)
        if r is not None:
            return r
    return None


STAT = [0, 0, 0]        # states of the model visited, steps taken, traces decided
LOCK = threading.Lock()


def fits(evs, obs):
    """Is the observed trace one of the orders the model has?"""
    idx = {e: i for i, e in enumerate(evs)}
    pred = [0] * len(evs)
    for i, e in enumerate(evs):
        for q in e.pred:
            pred[i] |= 1 << idx[q]
    full = (1 << len(evs)) - 1
    seen = set()

    steps = [0]

    def go(done, k):
        steps[0] += 1
        if (done, k) in seen:
            return False
        seen.add((done, k))
        if k == len(obs) and done == full:
            return True
        for i, e in enumerate(evs):
            if done >> i & 1 or pred[i] & ~done:
                continue
            if e.opt and go(done | 1 << i, k):
                return True
            if k < len(obs) and obs[k].upper() == e.lab.upper() and go(done | 1 << i, k + 1):
                return True
            if e.lab[0] == "r" and k < len(obs) and obs[k].upper() == ("W" + e.lab[1:]).upper():
                # read and written by one instruction: the write's events must be ready as well
                for j, w in enumerate(evs):
                    if w.lab == "W" + e.lab[1:] and e in w.pred and not done >> j & 1 and not pred[j] & ~(done | 1 << i):
                        if go(done | 1 << i | 1 << j, k + 1):
                            return True
        return False
    r = go(0, 0)
    with LOCK:
        STAT[0] += len(seen)
        STAT[1] += steps[0]
        STAT[2] += 1
    return r


def final(m):
    out = []
    for i, (n, d, t, s, e, v) in enumerate(OBJ):
        out.append("%s" % (int(m.val[n])))
    out += ["%d" % m.val["ga" + ("+%d" % (4 * i) if i else "")] for i in range(4)]
    out += ["%d" % m.val[k] for k in ("gt", "gt+2", "gt+4", "gt+8", "gx", "gy", "gy+4", "gy+8", "gy+12")] + ["%d" % (m.val["gv.a"] | m.val["gv.b"] << 3)]
    return " ".join(out)


def case(ss, loc=()):
    ss = list(ss)
    text = seq(ss)
    m = M()
    m.loc = {}
    r = runs(m, ss)
    if r is None:
        raise AssertionError(text)
    r = conv("long", r)
    fin = final(m)
    labs = [("" if not e.opt else "?") + e.lab for e in m.ev]
    evs = m.ev

    def ok(got):
        if got is None or "=" not in got:
            return False
        tr, rest = got.split("=", 1)
        rv, st = rest.split("|", 1)
        return rv.strip() == str(r) and st.strip() == fin and fits(evs, tr.split())
    ok.__doc__ = "events %s, result %d, then %s" % (" ".join(labs), r, fin)
    ok.states = len(labs)
    return PCase(text, "go(f@@);", "static long f@@(void){%s}" % text, ok)


def programs():
    out = []
    I = [Var("gi"), Var("gj"), Var("gk")]
    a, b, c, z = [Rd(x) for x in I] + [Rd(Var("gz"))]
    scal = [Var(o[0]) for o in OBJ]
    lvs = scal + [Elem(K(2)), Elem(Loc("plain")), Elem(b), Elem2(K(1)), Elem2(b), Field("a"), Field("b"), Field("c"), Field("d"), Field("c", "(&gt)->%s"), XField(), BitF("a"), BitF("b"), BitF("a", "(&gv)->%s"), Deref("*pv"), Deref("*gq"), Deref("pv[0]"), Deref("*(volatile unsigned*)&gu"), Deref("*(volatile char*)&gc"), Pool()]
    isint = lambda l: l.t not in ("double", "float")
    R = lambda e: St("ret", e)
    E = lambda e: St("e", e)
    # 1. every lvalue: read, written, changed, in every context
    for l in lvs:
        r = Rd(l)
        ex = [r, Un("-", r), Un("!", r), Un("(int)", r), Un("(unsigned char)", r), Bin("+", r, K(1)), Bin("+", K(1), r), Bin("==", r, K(2)), Call(r), Log("&&", r, c), Log("||", r, c), Log("&&", c, r), Cond(r, K(1), K(2)), Cond(z, K(1), r), Comma(r, K(1)), Comma(K(1), r),
              As(l, K(4)), As(l, c), As(l, Bin("+", c, K(1))), Op("+", l, K(2)), Op("-", l, c), Op("*", l, c), Op("++", l), Op("--", l), Op("p++", l), Op("p--", l), As(Var("gz"), r), Op("+", Var("gz"), r), Bin("+", As(l, K(1)), K(1)), As(Var("gz"), As(l, c)), Comma(As(l, K(1)), r), Comma(Op("p++", l), r)]
        if isinstance(l, (Elem, Deref)) and ("gq" in l.text() or "gj" in l.text()):
            pass
        if isint(l):
            ex += [Un("~", r), Bin("|", r, K(4)), Op("|", l, K(8)), Op("^", l, c), Op("<<", l, K(1))]
        for e in ex:
            if isinstance(l, (Deref,)) and "gk" in e.text().replace(l.text(), ""):
                continue
            if l.text() == "gb" and "--" in e.text() or l.t == "unsigned" and e.text().strip()[0] in "-~":
                continue        # (gcc reads a _Bool twice for --)
            if l.text() in ("gk", "*pv", "pv[0]") and e.text().count("gk") + e.text().count("pv") > 1 and not isinstance(e, Log):
                continue
            if l.text() == "gz" and e.text().count("gz") > 1 and not isinstance(e, (Comma, Cond)):
                continue
            out += [(R(e),), (E(e), R(K(7))), (St("v", e), R(K(7))), (St("init", "x", e), R(Loc("x"))), (St("init", "x", e), R(K(7))), (St("init", "x", e), E(As(Var("gm"), K(3))), R(Loc("x"))),
                    (St("if", e, [R(K(1))], [R(K(2))]),), (St("if", e, [E(As(Var("gm"), K(3)))], []), R(K(2))), (St("init", "x", K(5)), St("if", e, [St("set", "x", Un("-", c))], []), R(Loc("x"))),
                    (E(Call(e)), R(K(3))), (St("switch", e if isint(l) else Un("(int)", e), [E(Op("++", Var("gs")))], [E(Op("p--", Var("gl")))], [E(As(Var("gw"), K(1)))]), R(K(1)))]
    # 2. all pairs and triples of simple statements: the order between them
    s1 = [("init", a), ("init", Un("-", b)), ("init", Rd(Var("gd"))), ("init", Bin("+", Rd(Var("gc")), K(1))), ("init", Rd(Field("b"))), ("init", Rd(Elem(K(1)))), ("init", Rd(Deref("*pv"))), ("init", Rd(Deref("*gq"))), ("init", Rd(Pool())), ("init", Bin("*", a, Rd(Var("gl")))), ("init", Call(c)),
          ("e", As(Var("gi"), K(8))), ("e", As(Var("gk"), Un("-", a))), ("e", Op("+", Var("gj"), K(2))), ("e", Op("p++", Var("gs"))), ("e", As(Field("d"), K(6))), ("e", As(Elem(K(3)), b)), ("e", As(Var("gf"), K(2))), ("e", Call(K(1))), ("e", As(Deref("*gq"), c)), ("e", a), ("e", Bin("+", a, b)), ("e", Un("-", c)), ("e", As(Pool(), K(9))), ("init", Rd(BitF("b"))), ("e", As(BitF("a"), Rd(BitF("b")))), ("e", Op("p++", BitF("b")))]

    def mk(i, s):
        return St("init", "x%d" % i, s[1]) if s[0] == "init" else St("e", s[1])
    for n in (2, 3, 4) if THOROUGH else (2, 3):
        pool = s1 if n < 4 else s1[::2]
        for t in itertools.product(pool, repeat=n):
            ss = [mk(i, s) for i, s in enumerate(t)]
            xs = [Loc("x%d" % i) for i, s in enumerate(t) if s[0] == "init"]
            e = K(1)
            for x in reversed(xs):      # used in the other order
                e = Bin("-", x, e)
            out.append(tuple(ss) + (R(e),))
    # 3. expression trees over different objects
    leaf = [a, Rd(Var("gs")), Rd(Elem(b)), Rd(Deref("*gq"))]
    uns = [lambda x: x, lambda x: Un("-", x), lambda x: Call(x)]
    bins = [lambda x, y: Bin("+", x, y), lambda x, y: Bin("<", x, y), lambda x, y: Log("&&", x, y), lambda x, y: Log("||", x, y), lambda x, y: Comma(x, y), lambda x, y: Cond(x, y, c), lambda x, y: Call2(x, y), lambda x, y: As(Var("gz"), Bin("-", x, y))]
    sides = [Rd(Var("gl")), Op("++", Var("gl")), Op("p--", Var("gl")), As(Var("gl"), c), As(Var("gl"), K(0)), Op("+", Var("gl"), c), Call(Rd(Var("gl")))]
    two = [f(u(x), v(y)) for f in bins for u in uns for v in uns for x in leaf for y in sides] + [f(u(y), x) for f in bins for u in uns for x in leaf for y in sides]
    for e in two:
        out += [(R(e),), (E(e), R(K(3))), (St("init", "x", e), E(As(Var("gm"), K(1))), R(Loc("x")))]
    third = [Rd(Var("gw")), Rd(Field("c")), As(Field("c"), K(5)), Op("p++", Var("gw")), Call(K(0))]
    for e in (two if THOROUGH else two[::5]):
        for f in bins:
            for x in third:
                if "gz" in e.text() and "gz" in f(K(1), K(1)).text():
                    continue
                out.append((R(f(e, x)),))
                out.append((R(f(x, e)),))
    # 4. loops and branches
    cond = [Bin("<", a, K(6)), Bin("<", Op("++", Var("gi")), K(6)), Bin("<", Op("p++", Var("gi")), K(6)), Log("&&", Bin("<", a, K(6)), b), Bin("<", Rd(Elem(K(0))), K(12)), Bin("!=", Op("--", Var("gs")), K(4)), Call(Bin("<", a, K(5)))]
    inc = [[E(Op("++", Var("gi"))), E(Op("+", Elem(K(0)), K(1)))], [E(As(Var("gi"), Bin("+", a, K(1)))), E(Op("p++", Elem(K(0))))], [St("init", "y", Un("-", c)), E(Op("++", Var("gi"))), E(Op("+", Elem(K(0)), K(1))), E(As(Var("gl"), Loc("y")))],
           [St("init", "y", Rd(Var("gu"))), E(Op("++", Var("gi"))), E(Op("+", Elem(K(0)), K(1))), St("if", Bin("<", Loc("y"), a), [E(As(Var("gm"), K(1)))], [E(Op("++", Var("gm")))])], [St("init", "x", Bin("+", Loc("x"), Rd(Var("gl")))) if 0 else St("set", "x", Bin("+", Loc("x"), Rd(Var("gl")))), E(Op("++", Var("gi"))), E(Op("+", Elem(K(0)), K(1)))]]
    for co in cond:
        for body in inc:
            for x in (K(2), c, Rd(Var("gl"))):
                pre = St("init", "x", x)
                out += [(pre, St("while", co, body), R(Loc("x"))), (pre, St("do", co, body), R(Loc("x"))), (pre, St("for", As(Var("gw"), c), co, Op("p++", Var("gw")), body), R(Loc("x"))), (pre, St("for", b, co, z, body), R(Bin("+", Loc("x"), a))), (pre, St("if", co, body, [E(b)]), R(Loc("x"))), (pre, St("if", Un("!", co), [E(b)], body), R(Loc("x")))]
    # 5. initialisers
    for x, y in itertools.product([a, b, c, Un("-", a), Rd(Var("gd")), Rd(Field("a")), Call(a)], repeat=2):
        if x.t in ("double",) or y.t in ("double",):
            x, y = Un("(int)", x), Un("(int)", y)
        out.append((St("arr", "v", x, y), R(Bin("-", Loc("v[0]"), Loc("v[1]")))))
        out.append((St("arr", "v", x, y), R(K(2))))
    res, seen = [], set()
    for ss in out:
        t = seq(ss)
        if t not in seen:
            seen.add(t)
            res.append(ss)
    return res


def explore(c):
    p = Printer(c, DECLS)
    init = "".join("I(%d,0,%s,%s);" % (i, o[2], o[5]) for i, o in enumerate(OBJ))
    ix = {n: i for i, n in enumerate(NAMES)}
    init += "I(%d,0,int*,pool+1);I(%d,0,volatile int*,(volatile int*)(BASE+%d*0x4000+0x1000+off[%d]));" % (ix["gp"], ix["gq"], ix["gj"], ix["gj"])
    init += "".join("I(%d,%d,int,%d);" % (ix["ga"], 4 * i, 10 + i) for i in range(4)) + "I(%d,0,char,1);I(%d,2,short,2);I(%d,4,int,3);I(%d,8,long,4);" % ((ix["gt"],) * 4)
    init += "I(%d,0,int,141);I(%d,0,int,6);" % (ix["gv"], ix["gx"]) + "".join("I(%d,%d,int,%d);" % (ix["gy"], 4 * i, 1 + i) for i in range(4))
    show = ""
    for i, o in enumerate(OBJ):
        show += 'printf(" %%ld",(long)*(%s*)(BASE+%d*0x4000+0x1000+off[%d]));' % (o[2], i, i)
    for n, os_ in (("ga", [(4 * i, "int") for i in range(4)]), ("gt", [(0, "char"), (2, "short"), (4, "int"), (8, "long")]), ("gx", [(0, "int")]), ("gy", [(4 * i, "int") for i in range(4)]), ("gv", [(0, "int")])):
        for o, t in os_:
            show += 'printf(" %%ld",(long)*(%s*)(BASE+%d*0x4000+0x1000+off[%d]+%d));' % (t, ix[n], ix[n], o)
    mon = os.path.join(c.work, "mon")
    open(mon + ".c", "w").write(MON % dict(n=len(NAMES), names=",".join('"%s"' % n for n in NAMES), offs=",".join(map(str, OFFS)), sizes=",".join(map(str, SIZES)), init=init, show=show))
    open(mon + "s.s", "w").write('.section .bss.v,"aw",@nobits\n.balign 0x4000\n.globl vbase\nvbase: .space %d\n' % (0x4000 * len(NAMES)) + "".join(".globl %s\n.set %s,vbase+%d\n" % (n, n, i * 0x4000 + 0x1000 + OFFS[i]) for i, n in enumerate(NAMES)))
    rc, out = sh(["gcc", "-w", "-O1", "-fno-strict-aliasing", "-c", mon + ".c", "-o", mon + ".o"])
    if rc == 0:
        rc, out = sh(["gcc", "-c", mon + "s.s", "-o", mon + "s.o"])
    if rc == 0:
        rc, out = sh(["ld", "-r", "-o", mon + "2.o", mon + ".o", mon + "s.o", p.rt])
    if rc:
        raise CheckError("monitor: %r" % out)
    p.rt = mon + "2.o"
    cs = [case(ss) for ss in programs()]
    # the model against another compiler: its code must be one of the model's orders too
    def ref(g):
        got = parse_marks(p.run_gcc(tu(g, p.prelude)))
        for i, x in enumerate(g):
            if not x.expect(got.get(i)):
                raise CheckError("the reference run of %s says %r not %r" % (x.key, got.get(i), x.expect.__doc__))
    pmap(ref, chunks(cs, 300))
    nref = STAT[2]
    p.run(cs, per=300)
    c.extra["programs"] = len(cs)
    c.extra["accesses_in_the_model"] = sum(x.expect.states for x in cs)
    c.extra["traces_of_the_reference_compiler"] = nref
    c.states, c.transitions, c.traces = STAT[0], STAT[1], STAT[2] - nref
    c.extra["exhaustive"] = True
    for x in cs[::max(1, len(cs) // 8)]:
        c.samples.append(x.key)


if __name__ == "__main__":
    main(explore, "C25", "model_checking",
         "programs: every volatile lvalue x operation x context, all sequences of statements, expression trees, loops; evaluation = one program whose accesses, seen by page faults, must be one of the orders of the model's events",
         ["an expression whose value nobody uses and which is just an lvalue may or may not access it (implementation-defined)", "an instruction may read and write an object at once", "gcc's own code for every program is one of the model's orders as well"])
