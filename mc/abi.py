"""Call-interoperability harness: enumerated signatures, each implemented as caller and callee by
both compilers; calls go through a thunk that checks callee-saved registers and the stack."""
import os
from vlib import *

# name: (declaration, C type, fields to log [(expr suffix, bytes)])
KINDS = {}


def scalar(n, t):
    KINDS[n] = ("", t, [("", "sizeof(%s)" % t)])


for n, t in (("b", "_Bool"), ("c", "signed char"), ("h", "unsigned char"), ("s", "short"), ("t", "unsigned short"), ("i", "int"),
             ("u", "unsigned"), ("l", "long"), ("q", "unsigned long long"), ("p", "char*"), ("f", "float"), ("d", "double")):
    scalar(n, t)


def struct(n, body, fields, kw="struct", attr=""):
    KINDS[n] = ("%s T%s{%s}%s;" % (kw, n, body, attr), "%s T%s" % (kw, n), fields)


for k in range(1, 10):
    struct("C%d" % k, "char c[%d];" % k, [(".c", str(k))])
struct("C15", "char c[15];", [(".c", "15")])
struct("C16", "char c[16];", [(".c", "16")])
struct("C17", "char c[17];", [(".c", "17")])
struct("C40", "char c[40];", [(".c", "40")])
struct("II", "int a,b;", [(".a", "4"), (".b", "4")])
struct("III", "int a,b,c;", [(".a", "4"), (".b", "4"), (".c", "4")])
struct("L", "long a;", [(".a", "8")])
struct("LL", "long a,b;", [(".a", "8"), (".b", "8")])
struct("LLL", "long a,b,c;", [(".a", "8"), (".b", "8"), (".c", "8")])
struct("LI", "long a;int b;", [(".a", "8"), (".b", "4")])
struct("CL", "char a;long b;", [(".a", "1"), (".b", "8")])
struct("SC", "short a;char b;", [(".a", "2"), (".b", "1")])
struct("F", "float a;", [(".a", "4")])
struct("FF", "float a,b;", [(".a", "4"), (".b", "4")])
struct("FFF", "float a,b,c;", [(".a", "4"), (".b", "4"), (".c", "4")])
struct("FFFF", "float a[4];", [(".a", "16")])
struct("D", "double a;", [(".a", "8")])
struct("DD", "double a,b;", [(".a", "8"), (".b", "8")])
struct("DDD", "double a,b,c;", [(".a", "8"), (".b", "8"), (".c", "8")])
struct("DDDD", "double a[4];", [(".a", "32")])
struct("DI", "double a;int b;", [(".a", "8"), (".b", "4")])
struct("DF", "double a;float b;", [(".a", "8"), (".b", "4")])
struct("LD", "long a;double b;", [(".a", "8"), (".b", "8")])
struct("DL", "double a;long b;", [(".a", "8"), (".b", "8")])
struct("FI", "float a;int b;", [(".a", "4"), (".b", "4")])
struct("IF", "int a;float b;", [(".a", "4"), (".b", "4")])
struct("FFI", "float a,b;int c;", [(".a", "4"), (".b", "4"), (".c", "4")])
struct("IFF", "int a;float b,c;", [(".a", "4"), (".b", "4"), (".c", "4")])
struct("FIFF", "float a;int b;float c,d;", [(".a", "4"), (".b", "4"), (".c", "4"), (".d", "4")])
struct("PD", "char*a;double b;", [(".a", "8"), (".b", "8")])
struct("N1", "struct{char x;float y;}a;struct{double z;}b;", [(".a.x", "1"), (".a.y", "4"), (".b.z", "8")])
struct("N2", "struct{float x[2];}a[2];", [(".a", "16")])
struct("UL", "long a;double b;", [(".a", "8")], "union")
struct("UD", "double a;float b;", [(".a", "8")], "union")
struct("UI", "int a;char c[12];float f[3];", [(".c", "12")], "union")
struct("US", "double a[2];struct{float x;int y;}b;", [(".a", "16")], "union")
struct("P9", "char a;long b;", [(".a", "1"), (".b", "8")], attr="")
KINDS["PK"] = ("\n#pragma pack(1)\nstruct TPK{char a;long b;};\n#pragma pack()\n", "struct TPK", [(".a", "1"), (".b", "8")])
KINDS["PF"] = ("\n#pragma pack(1)\nstruct TPF{float a;char b;};\n#pragma pack()\n", "struct TPF", [(".a", "4"), (".b", "1")])
KINDS["PI"] = ("\n#pragma pack(1)\nstruct TPI{char b;int a;};\n#pragma pack()\n", "struct TPI", [(".a", "4"), (".b", "1")])
struct("B1", "int a:5;int b:20;", [(".", "B")])
struct("B2", "int a:5;float f;", [(".", "B")])
struct("B3", "float f;int a:9;int b:7;double d;", [(".", "B")])

BITLOG = {"B1": "x[0]=p->a;x[1]=p->b;", "B2": "x[0]=p->a;x[1]=p->f;", "B3": "x[0]=p->a;x[1]=p->b;x[2]=p->f;x[3]=p->d;"}
BITMAKE = {"B1": "p->a=s;p->b=s*77;", "B2": "p->a=s;p->f=s*1.5f;", "B3": "p->a=s;p->b=s*3;p->f=s*2.5f;p->d=s*.25;"}

DECLS = "".join(d for d, t, f in KINDS.values()) + "\n" + "".join("typedef %s %s_;\n" % (t, n) for n, (d, t, f) in KINDS.items())
HELP_DECL = "".join("void make_%s(%s_*,int);void log_%s(const %s_*);" % (n, n, n, n) for n in KINDS) + "\nvoid note(int);\n"


# long has 4 bytes under the Microsoft ABI and 8 bytes for the reference
def wide(s):
    return re.sub(r"\b(?:long )?long\b", "long long", s)


def helpers(msabi=False):
    """gcc side: make_, log_, id_, main support."""
    A = "__attribute__((ms_abi)) " if msabi else ""
    s = ["#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <stdarg.h>\n", wide(DECLS) if msabi else DECLS,
         "static unsigned char L[1<<16]; static int ln; %svoid note(int x){memcpy(L+ln,&x,4);ln+=4;}\n" % A]
    for n, (d, t, f) in KINDS.items():
        if n == "b":
            mk = "*p=s&1;"
        elif n in ("f", "d"):
            mk = "*p=s*1.25+1;"
        elif n == "p":
            mk = "*p=(char*)0+s*1234567891L;"
        elif n in BITMAKE:
            mk = "memset(p,0,sizeof*p);" + BITMAKE[n]
        else:
            mk = "unsigned char*c=(void*)p;for(unsigned i=0;i<sizeof*p;i++)c[i]=(s*31+i*7+(s>>3))&0x7f|1|(i&1?0:(s&1?0x80:0));"
            if any(ch in n for ch in "FD") or n in ("UL", "UD", "US", "N1", "N2", "UI"):
                mk = "unsigned char*c=(void*)p;for(unsigned i=0;i<sizeof*p;i++)c[i]=(s*31+i*7+(s>>3))&0x3f|1;"
        s.append("%svoid make_%s(%s_*p,int s){%s}\n" % (A, n, n, mk))
        if n in BITLOG:
            lg = "double x[4]={0};%smemcpy(L+ln,x,sizeof x);ln+=sizeof x;" % BITLOG[n]
        else:
            lg = "".join("memcpy(L+ln,(char*)&(*p)%s,%s);ln+=%s;" % (e, b, b) for e, b in f)
        s.append("%svoid log_%s(const %s_*p){%s}\n" % (A, n, n, lg))
        s.append("%s%s_ idf_%s(%s_ x){return x;}\n" % (A, n, n, n))
    return "".join(s)


# the thunk: swaps the return address for its own, sets callee-saved registers to known values,
# calls *thunk_target with the unchanged stack, then checks.
THUNK = r'''
unsigned long thunk_target, thunk_flags, thunk_rsp, thunk_cnt; static unsigned long sv[8];
__asm__(
".text\nthunk:\n"
" popq sv(%rip)\n movq %rsp,sv+8(%rip)\n"
" movq %rbx,sv+16(%rip)\n movq %rbp,sv+24(%rip)\n movq %r12,sv+32(%rip)\n movq %r13,sv+40(%rip)\n movq %r14,sv+48(%rip)\n movq %r15,sv+56(%rip)\n"
" testq $15,%rsp\n je 1f\n orq $1,thunk_flags(%rip)\n1:\n"
" cmpq $0,thunk_cnt(%rip)\n je 2f\n cmpq %rsp,thunk_rsp(%rip)\n je 2f\n orq $2,thunk_flags(%rip)\n2:\n"
" movq %rsp,thunk_rsp(%rip)\n incq thunk_cnt(%rip)\n"
" movq $0x1111222233334444,%rbx\n movq $0x5555666677778888,%rbp\n movq %rbx,%r12\n notq %r12\n movq %rbp,%r13\n notq %r13\n movq $-3,%r14\n movq $77,%r15\n"
MSINIT
" movq $-1,%r10\n call *thunk_target(%rip)\n"
" movq $0x1111222233334444,%r11\n cmpq %r11,%rbx\n jne 3f\n notq %r11\n cmpq %r11,%r12\n jne 3f\n movq $0x5555666677778888,%r11\n cmpq %r11,%rbp\n jne 3f\n notq %r11\n cmpq %r11,%r13\n jne 3f\n cmpq $-3,%r14\n jne 3f\n cmpq $77,%r15\n jne 3f\n"
MSCHECK
" jmp 4f\n3: orq $4,thunk_flags(%rip)\n4:\n"
" cmpq %rsp,sv+8(%rip)\n je 5f\n orq $8,thunk_flags(%rip)\n5:\n"
" movq sv+8(%rip),%rsp\n movq sv+16(%rip),%rbx\n movq sv+24(%rip),%rbp\n movq sv+32(%rip),%r12\n movq sv+40(%rip),%r13\n movq sv+48(%rip),%r14\n movq sv+56(%rip),%r15\n"
MSREST
" movq $-1,%r8\n movq %r8,%r9\n movq %r8,%r10\n movq %r8,%r11\n movq %r8,%rcx\n POISON\n"
" jmp *sv(%rip)\n");
void thunk(void);
'''


def thunk(ms=False):
    s = THUNK.replace('"POISON', '"').replace(" POISON\\n", "")
    if ms:
        s = s.replace("MSINIT", '" movq %rsi,svm(%rip)\\n movq %rdi,svm+8(%rip)\\n movq $0x1234,%rsi\\n movq $0x4321,%rdi\\n"\n'
                      # the callee may use the 32 bytes above the return address, and xmm6-15 are preserved
                      '" movq $-1,%r11\\n movq %r11,(%rsp)\\n movq %r11,8(%rsp)\\n movq %r11,16(%rsp)\\n movq %r11,24(%rsp)\\n"\n' +
                      "".join('" movq %%xmm%d,svm+%d(%%rip)\\n movq $0x%d,%%r11\\n movq %%r11,%%xmm%d\\n"\n' % (x, 16 + 8 * (x - 6), 7000 + x, x) for x in range(6, 16)))
        s = s.replace("MSCHECK", '" cmpq $0x1234,%rsi\\n jne 3f\\n cmpq $0x4321,%rdi\\n jne 3f\\n"\n' + "".join('" movq %%xmm%d,%%r11\\n cmpq $0x%d,%%r11\\n jne 3f\\n"\n' % (x, 7000 + x) for x in range(6, 16)) + '')
        s = s.replace("MSREST", '" movq svm(%rip),%rsi\\n movq svm+8(%rip),%rdi\\n"\n' + "".join('" movq svm+%d(%%rip),%%xmm%d\\n"\n' % (16 + 8 * (x - 6), x) for x in range(6, 16)))
        s = "static unsigned long svm[12];" + s
    else:
        s = s.replace("MSINIT", "").replace("MSCHECK", "").replace("MSREST", '" movq %r8,%rsi\\n movq %r8,%rdi\\n"' if False else "")
    return s


class Sig:
    """ret kind or None, named kinds, variadic kinds or None, old: called without a prototype"""
    __slots__ = ("ret", "args", "var", "old")

    def __init__(self, ret, args, var=None, old=False):
        self.ret, self.args, self.var, self.old = ret, tuple(args), tuple(var) if var is not None else None, old

    def key(self):
        return "%s(%s%s)%s" % (self.ret or "void", ",".join(self.args), "" if self.var is None else ",...:" + ",".join(self.var), " without prototype" if self.old else "")

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()


def code(sigs, side, ms=False):
    """callers and callees of the signatures, as plain C for either compiler"""
    gcc = side == "gc"
    A = "__attribute__((ms_abi)) " if (ms and gcc) else ""
    s = []
    if gcc and ms:
        # gcc needs ms_abi on helpers' prototypes
        hd = HELP_DECL.replace("void make_", A + "void make_").replace("void log_", A + "void log_").replace("void note", A + "void note")
    else:
        hd = HELP_DECL
    s.append("" if gcc else wide(DECLS) if ms else DECLS)
    if not gcc:
        s.append(hd)
        s.append("".join("%s_ idf_%s(%s_);" % (n, n, n) for n in KINDS))
    s.append("\n")
    if gcc and ms:
        VA = dict(l="__builtin_ms_va_list", s="__builtin_ms_va_start", e="__builtin_ms_va_end", c="__builtin_ms_va_copy")
    else:
        VA = dict(l="__builtin_va_list", s="__builtin_va_start", e="__builtin_va_end", c="__builtin_va_copy")
    # gcc's va_arg doesn't follow the reference of large structures
    s.append("#define FITS(n) ((n)==1||(n)==2||(n)==4||(n)==8)\n#define ARG(l,t) __builtin_choose_expr(FITS(sizeof(t)),__builtin_va_arg(l,t),*__builtin_va_arg(l,t*))\n"
             if gcc and ms else "#define ARG(l,t) __builtin_va_arg(l,t)\n")
    mem = "!FITS(sizeof r)" if ms else "sizeof r>16" 
    for i, g in enumerate(sigs):
        rt = "void" if g.ret is None else g.ret + "_"
        n = len(g.args)
        params = ", ".join("%s_ a%d" % (k, j) for j, k in enumerate(g.args)) or "void"
        ptypes = ", ".join("%s_" % k for k in g.args) or "void"
        if g.var is not None:
            params += ", ..."; ptypes += ", ..."
        if g.old:
            ptypes = ""
        b = []
        for j, k in enumerate(g.args):
            b.append("log_%s(&a%d);" % (k, j))
        if g.var is not None:
            b.append("%s ap,aq;%s(ap,a%d);%s(aq,ap);" % (VA["l"], VA["s"], n - 1, VA["c"]))
            for j, k in enumerate(g.var):
                b.append("{%s_ v=ARG(ap,%s_);log_%s(&v);}" % (k, k, k))
            for j, k in enumerate(g.var):
                b.append("{%s_ v=ARG(aq,%s_);log_%s(&v);}" % (k, k, k))
            b.append("%s(ap);%s(aq);" % (VA["e"], VA["e"]))
        for j, k in enumerate(g.args):
            b.append("make_%s(&a%d,%d);" % (k, j, 91 + j))
        if g.ret:
            b.append("%s_ r;make_%s(&r,%d);return r;" % (g.ret, g.ret, 7 + i % 13))
        s.append("%s%s %s_f%d(%s){%s}\n" % (A, rt, side, i, params, "".join(b)))
        allk = g.args + (g.var or ())
        c = ["%s_ x%d;make_%s(&x%d,%d);" % (k, j, k, j, 11 + j * 17) for j, k in enumerate(allk)]
        callargs = ",".join("x%d" % j for j in range(len(allk)))
        nested = ",".join("idf_%s(x%d)" % (k, j) for j, k in enumerate(allk))
        setr = "r=" if g.ret else ""
        decl = "%s_ r;" % g.ret if g.ret else ""
        logr = "log_%s(&r);" % g.ret if g.ret else "note(1);"
        c.append(decl + "for(int k=0;k<2;k++){%s(*f)(%s);%s}" % (setr, callargs, logr))
        c.append("%sf(%s);%s" % (setr, nested, logr))
        if gcc and g.ret:
            # results in memory: the address is returned as well
            c.append("if(%s){%svoid*(*h)(%s)=(void*)f;note(h(&r%s)==(void*)&r);%s}" % (
                "1" if not ms and g.ret == "PK" else mem, A, "" if g.old else "void*" + "".join("," + t for t in ptypes.split(", ") if t != "void"),
                "".join(",x%d" % j for j in range(len(allk))), logr))
        elif g.ret:
            c.append("if(%s){%sf(%s);note(1);%s}" % ("1" if not ms and g.ret == "PK" else mem.replace("FITS(sizeof r)", "(sizeof r==1||sizeof r==2||sizeof r==4||sizeof r==8)"), setr, callargs, logr))
        c += ["log_%s(&x%d);" % (k, j) for j, k in enumerate(allk)]
        s.append("%svoid %s_c%d(%s (%s*f)(%s)){%s}\n" % (A, side, i, rt, A, ptypes, "".join(c)))
    return "".join(s)


def driver(sigs, ms=False):
    A = "__attribute__((ms_abi)) " if ms else ""
    s = [helpers(ms), thunk(ms), code(sigs, "gc", ms)]
    for i, g in enumerate(sigs):
        s.append("%svoid cc_f%d(void);%svoid cc_c%d(void*);" % (A, i, A, i))
    s.append('''
static unsigned char R[1<<16];static int rn;
static void hex(const unsigned char*p,int n){if(n>120)n=120;for(int i=0;i<n;i++)printf("%%02x",p[i]);}
static void run(int i,const char*what,void(%s*c)(void*),void*f,int th){
 ln=0;thunk_flags=0;thunk_cnt=0;thunk_target=(unsigned long)f;
 memset(L,0,sizeof L);
 c(th?(void*)thunk:f);
 if(!th){memcpy(R,L,sizeof L);rn=ln;return;}
 if(ln!=rn||memcmp(R,L,ln)||thunk_flags){printf("BAD %%d %%s flags=%%lu ",i,what,thunk_flags);
  int k=0;while(k<ln&&k<rn&&L[k]==R[k])k++;printf("first difference at byte %%d of %%d/%%d: expected ",k,ln,rn);hex(R+k,rn-k>0?rn-k:0);printf(" observed ");hex(L+k,ln-k>0?ln-k:0);printf("\\n");}
 else printf("OK %%d %%s\\n",i,what);fflush(stdout);}
int main(void){
''' % A)
    for i, g in enumerate(sigs):
        s.append('printf("AT %d\\n");fflush(stdout);run(%d,"",(void*)gc_c%d,gc_f%d,0);run(%d,"caller",(void*)cc_c%d,gc_f%d,1);run(%d,"callee",(void*)gc_c%d,cc_f%d,1);run(%d,"both",(void*)cc_c%d,cc_f%d,1);\n'.replace('%d', str(i)))
    s.append('printf("DONE\\n");return 0;}\n')
    return "".join(s)


FLAGS = {1: "stack misaligned at call", 2: "stack pointer drifts between calls", 4: "callee-saved register clobbered", 8: "stack pointer not restored"}


class Interop:
    def __init__(self, chk, ms=False, ccflags=(), win=None):
        """win: a win.Wine: objects and programs for Windows instead of assembly and gcc's ms_abi"""
        self.chk, self.ms, self.ccflags, self.win = chk, ms, list(ccflags), win
        self.n = 0
        self.lock = threading.Lock()

    def driver(self, sigs):
        d = driver(sigs, self.ms)
        if self.win:        # all of the mingw compiler's functions have the convention, but its long has 32 bits
            d = wide(d.replace("__attribute__((ms_abi)) ", "").replace("__builtin_ms_va", "__builtin_va").replace("%lu", "%u"))
            d = re.sub(r"#define ARG\(l,t\).*", "#define ARG(l,t) __builtin_va_arg(l,t)", d)
        return d

    def build_run(self, sigs):
        with self.lock:
            self.n += 1
            b = os.path.join(self.chk.work, "abi%d" % self.n)
        open(b + ".c", "w").write(code(sigs, "cc", self.ms))
        open(b + "g.c", "w").write(self.driver(sigs))
        try:
            asm = self.ms and not self.win
            ext = ".s" if asm else ".o"
            rc, out = sh([self.chk.cc, *self.ccflags, "-S" if asm else "-c", b + ".c", "-o", b + ext], 60)
            if rc:
                return "compiler exit %s: %s" % (rc, out[-300:].decode("latin1")), ""
            gcc = ["x86_64-w64-mingw32-gcc"] if self.win else ["gcc", "-no-pie", "-z", "noexecstack"]
            rc, out = sh([*gcc, "-w", "-O0", "-fno-stack-protector", "-fno-builtin", b + "g.c", b + ext, "-o", b + ".x"], 120)
            if rc:
                if b"ld" not in out and b"Error" not in out:
                    raise CheckError("reference: " + out[-1500:].decode("latin1"))
                return "assemble/link: " + out[-300:].decode("latin1"), ""
            rc, out = self.win.run(b + ".x", 20) if self.win else sh([b + ".x"], 20)
            out = out.decode("latin1")
            return (None if rc == 0 and "DONE" in out else "run ended with %s" % rc), out
        finally:
            for e in (".c", "g.c", ".s", ".o", ".x"):
                if os.path.exists(b + e):
                    os.unlink(b + e)

    def run(self, sigs, per=60):
        def one(group):
            self.group(group)
        pmap(one, chunks(sigs, per))

    def group(self, sigs):
        if self.chk.too_many():
            return
        err, out = self.build_run(sigs)
        bad = {}
        okc = 0
        last = -1
        for line in out.splitlines():
            w = line.split(None, 3)
            if w[0] == "AT":
                last = int(w[1])
            if w[0] == "OK":
                okc += 1
            if w[0] == "BAD":
                bad.setdefault(int(w[1]), []).append(line)
        if err is None:
            self.chk.count(okc + sum(len(v) for v in bad.values()))
            for i, ls in bad.items():
                self.report(sigs[i], "\n".join(ls))
            return
        if len(sigs) == 1:
            self.report(sigs[0], err + "\n" + out[-400:])
            return
        if err.startswith("run") and last >= 0:
            n0 = len(self.chk.violations) + len(self.chk.known_hit)
            if last:
                self.group(sigs[:last])
            self.group(sigs[last:last + 1])
            self.group(sigs[last + 1:]) if last + 1 < len(sigs) else None
            if len(self.chk.violations) + len(self.chk.known_hit) == n0:
                self.report(sigs[last], err + " (in combination)")
            return
        h = len(sigs) // 2
        self.group(sigs[:h]); self.group(sigs[h:])

    def report(self, sig, text):
        fl = [FLAGS[b] for b in FLAGS if any("flags=%d" % v in text for v in range(16) if v & b)]
        self.chk.violation(sig.key(), text + ("\n" + "; ".join(fl) if fl else ""),
                           {"cc_side.c": code([sig], "cc", self.ms), "gcc_side.c": self.driver([sig]),
                            "run.sh": "" if self.win else "#!/bin/sh\nD=$(dirname $0); ${CC:-/repo/bin/cc} %s %s $D/cc_side.c -o /tmp/r%s && gcc -w -no-pie $D/gcc_side.c /tmp/r%s -o /tmp/r.x && /tmp/r.x\n" % (
                                " ".join(self.ccflags), "-S" if self.ms else "-c", ".s" if self.ms else ".o", ".s" if self.ms else ".o")})
