"""C22: code for Windows. With -fabi=ms -fmingw-workarounds the compiler has another data model (long
has 32 bits, wchar_t 16), writes another object format and uses another code model; the programs are
linked with the mingw tools and run under wine, next to the mingw compiler's."""
import sys, os, re, struct, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import *
from pair import *
from win import *
import intops, floatops, constexpr, cmodel, layout, objects, msabi
from abi import Interop


def arithmetic(c, w):
    cases = intops.build_cases()
    Pair(c, intops.values, ccflags=CCFLAGS, gccflags=["-D__USE_MINGW_ANSI_STDIO=1"], win=w, per=250).run(cases)
    fl = floatops.build_cases(True)
    Pair(c, floatops.values, ccflags=CCFLAGS, gccflags=["-D__USE_MINGW_ANSI_STDIO=1", "-frounding-math"], win=w, per=250).run(fl)
    c.extra.update(integer_functions=len(cases), floating_functions=len(fl))


def constants(c, w):
    b = cmodel.BITS
    b["long"] = b["UL"] = 32
    for t in ("long", "UL"):
        cmodel.BOUND[t][:] = list(dict.fromkeys([v for v in cmodel.BOUND[t] if cmodel.fits(v, t)] + ([-2**31, 2**31 - 1] if t == "long" else [2**31, 2**31 - 1])))
    constexpr.explore(c, w, CCFLAGS, ())


# ---------------------------------------------------------------- types
T = {"char": "char", "signed char": "sc", "unsigned char": "uc", "short": "s", "unsigned short": "us", "int": "i", "unsigned": "u", "long": "l", "unsigned long": "ul",
     "long long": "ll", "unsigned long long": "ull", "float": "f", "double": "d"}
GEN = "_Generic((%s)," + ",".join("%s:%d" % (t, i + 1) for i, t in enumerate(T)) + ",_Bool:20,void*:21,char*:22,int*:23,unsigned short*:24,default:30)"
ARITH = list(T) + ["_Bool"]


def types():
    cs = []
    for a in ARITH:
        es = ["+(%s)1" % a, "-(%s)1" % a, "!(%s)1" % a] + ([] if a in ("float", "double") else ["~(%s)1" % a])
        es += ["(%s)1 %s (%s)1" % (a, op, b) for b in ARITH for op in ("+", "/", "<", "==", "&&")]
        es += ["(%s)1 %s (%s)1" % (a, op, b) for b in ARITH for op in ("<<", "&", "%") if not {a, b} & {"float", "double"}]
        es += ["1 ? (%s)1 : (%s)1" % (a, b) for b in ARITH]
        es += ["v_ = (%s)1" % a, "w_ += (%s)1" % a, "sizeof(%s)" % a, "_Alignof(%s)" % a]
        for i, g in enumerate(chunks(es, 40)):
            cs.append(PCase("types of expressions with %s #%d" % (a, i), "long v_ = 0; unsigned char w_ = 0; (void)v_; (void)w_; " + "".join("o(%s);o(sizeof(%s));" % (GEN % e, e) for e in g)))
    misc = ["(int *)0 - (int *)0", "sizeof 1", "'a'", "L'a'", "u'a'", "U'a'", "L\"abc\"[0]", "sizeof L\"abc\"", "sizeof u\"abc\"", "sizeof U\"abc\"", "sizeof \"abc\"", "1L", "1UL", "1LL", "0x7fffffff", "0x80000000", "2147483648", "4294967295", "4294967296",
            "0xffffffffL", "4294967295L", "4294967295UL", "4294967296UL", "9223372036854775807", "1.0f", "1.0", "(long)1 << 31 >> 31", "_Alignof(long)", "(void *)0", "(char *)0 + 1L", "\"abc\"", "&\"abc\"[1]", "(unsigned short *)0", "L\"abc\" + 1",
            "__builtin_offsetof(struct {long a; char b; long c;}, c)", "sizeof(struct {char a; long b;})", "sizeof(struct {char a; long long b;})", "sizeof(long[7])", "sizeof(void *)", "sizeof(enum {A@@})"]
    for e in misc:
        cs.append(PCase("type of %s" % e, "o(%s);o(sizeof(%s));" % (GEN % e if "{" not in e else "0", e)))
    # wide strings and character constants: every character class, in every form
    for p, t in (("L", "unsigned short"), ("u", "unsigned short"), ("U", "unsigned"), ("", "char"), ("u8", "char")):
        for s in ("", "a", "abc", "\\0x", "\\377\\1", "\\xff", "\\x7f" if p in ("", "u8") else "\\xfffe", "\\n\\t\\\\\\\"", "é" if p not in ("",) else "e", "日本" if p not in ("",) else "j", "a\" %s\"b" % p, "a\" \"b", "0123456789" * 20):
            cs.append(PCase('string %s"%s"' % (p, s[:20]), "o(sizeof(%s\"%s\"));ob(a@@,sizeof a@@);ob(b@@,sizeof b@@);ob(p@@,sizeof(%s\"%s\"));{%s l[]=%s\"%s\";ob(l,sizeof l);}" % (p, s, p, s, t, p, s),
                            "static %s a@@[]=%s\"%s\"; static %s b@@[4]={%s\"%s\"}; static const %s*p@@=%s\"%s\";" % (t, p, s, t, p, s if len(s.encode()) < 4 and "\\" not in s and not '"' in s else "q", t, p, s)))
        if p != "u8":
            for s in ("a", "\\0", "\\n", "\\'", "\"", "\\x41", "\\101", "\\377", "\\xff") + (("é", "\\xffff", "日") if p else ()):
                cs.append(PCase("character %s'%s'" % (p, s), "o((RT)%s'%s');o(%s);o(sizeof %s'%s');o((RT)c@@);switch((int)%s'%s'){case %s'%s':o(1);break;default:o(2);}" % (p, s, GEN % ("%s'%s'" % (p, s)), p, s, p, s, p, s), "static long long c@@=%s'%s';" % (p, s)))
    # enumerations, pointers' differences, indexing with every type, switches over every type
    for a in T:
        if a in ("float", "double"):
            continue
        cs.append(PCase("indexing with %s" % a, "%s i=3; int*p=x@@+2; o(p[i]);o(i[p]);o(*(p+i));o(*(x@@+4-i));o(p+i-x@@);p+=i;o(p-x@@);p-=i;o(p-x@@);{%s n=(%s)-1;if(n<0)o(p[n]);}o((RT)(i*-1));" % (a, a, a), "static int x@@[9]={10,11,12,13,14,15,16,17,18};"))
        ks = [0, 1, 2, 100, 127] + ([-1, -128] if a in ("signed char", "short", "int", "long", "long long") else [255] if a != "char" else []) + ([2**31 - 1] if re.search("int|long|unsigned$", a) else []) + ([2**32 - 1, 2**31] if a in ("unsigned", "unsigned long") else [])
        fn = "static int f@@(%s v){switch(v){%s default:return 77;}}" % (a, "".join("case %s:return %d;" % (k if k < 2**31 else "%dU" % k, i + 1) for i, k in enumerate(ks)))
        cs.append(PCase("switch over %s" % a, "".join("o(f@@((%s)%dLL));o(f@@((%s)%dLL));" % (a, k, a, k + 1) for k in ks), fn))
        cs.append(PCase("loop over %s" % a, "RT n=0;for(%s i=0;i<100;i++)n+=i*3;o(n);%s k=50;while(k-->0)n--;o(n);o((RT)k);do n+=2;while(++k<5);o(n);" % (a, a)))
        for b in T:
            cs.append(PCase("bits and stores: %s into %s" % (a, b), "%s x=(%s)0x81828384858687ULL;struct{char p;%s m;char q;}s;s.p=1;s.q=2;s.m=x;o((RT)(long long)s.m);o(s.p);o(s.q);%s y[3]={1,2,3};y[1]=x;o((RT)(long long)y[0]);o((RT)(long long)y[1]);o((RT)(long long)y[2]);y[1]+=x;o((RT)(long long)y[1]);o((RT)(long long)(y[0]=x));" % (a, a, b, b)
                            if b not in ("float", "double") or True else ""))
    return cs


def layouts():
    cs = []
    ks = list(layout.K)
    for pack in (None, 1, 2, 4, "attr"):
        for kw in ("struct", "union"):
            for a in ks:
                cs.append(layout.case((a,), kw, pack))
            for p in itertools.product(ks, repeat=2):
                cs.append(layout.case(p, kw, pack))
    for t in itertools.product(["c", "h", "i", "l", "q", "d", "p", "c3", "sl", "ul", "as", "a8"], repeat=3):
        cs.append(layout.case(t))
    return cs


# ---------------------------------------------------------------- objects
def wide(s):
    return re.sub(r"\b(?:long )?long\b", "long long", s)


class Coff:
    """the external symbols of a COFF object, read independently of the tools"""
    def __init__(self, path):
        d = open(path, "rb").read()
        m, ns, _, ps, n, oh, ch = struct.unpack_from("<HHIIIHH", d, 0)
        if m != 0x8664:
            raise ValueError("machine %x" % m)
        so = ps + 18 * n
        self.defd, self.undef, i = set(), set(), 0
        while i < n:
            nm, val, sec, ty, cls, aux = struct.unpack_from("<8sIhHBB", d, ps + 18 * i)
            if nm[:4] == b"\0\0\0\0":
                o = so + struct.unpack("<I", nm[4:])[0]
                nm = d[o:d.index(b"\0", o)]
            nm = nm.rstrip(b"\0").decode("latin1")
            if cls == 2:
                (self.defd if sec else self.undef).add(nm)
            i += 1 + aux


class WLinker(objects.Linker):
    win = None

    def srcs(self, group):
        return tuple(map(wide, super().srcs(group)))

    def one(self, src, who, base):
        if who == "gcc":
            rc, out = sh([MINGW, *GCCFLAGS, "-c", src, "-o", base + ".o"], 120)
            if rc:
                raise CheckError("reference rejects generated unit: %s\n%s" % (out[-1500:].decode("latin1"), open(src).read()[:3000]))
            return None
        rc, out = sh([self.chk.cc, *CCFLAGS, "-c", src, "-o", base + ".o"], 60)
        if rc != 0:
            return "compiler exit %s: %s" % (rc, out[-300:].decode("latin1"))

    def symbols(self, group, path, bad):
        o = Coff(path)
        for i, c in enumerate(group):
            al = {n.replace("@@", str(i)) for n in c.defs}
            for n in al - o.defd:
                bad.setdefault(i, "symbol %s should be defined and visible" % n)
            for n in re.findall(r"\b[A-Za-z_]\w*\b", c.a.replace("@@", str(i))):
                if n.endswith(str(i)) and n in o.defd and n not in al:
                    bad.setdefault(i, "symbol %s should not be visible to other units" % n)

    def link(self, b):
        return sh([MINGW, b + "a.o", b + "b.o", "-o", b + ".x"], 120)

    def exe(self, x):
        return self.win.run(x, 30)


MODES = ("A=gcc B=gcc", "A=cc B=gcc", "A=gcc B=cc", "A=cc B=cc")


def linkage(c, w):
    stats = {"states": 0, "transitions": 0}
    WLinker.win = w
    cases = []
    for f in objects.FAMS:
        cases += objects.objects(f, f["depth"][1 if THOROUGH else 0], stats)
    fn = objects.functions(4 if THOROUGH else 3, stats)
    cases += fn
    r = [k for k in objects.relocations() if not k.key.startswith("string L")] + objects.names()
    WLinker(c, MODES).run(cases, 250)
    WLinker(c, MODES).run(r, 100)
    class Big(WLinker):
        def symbols(self, group, path, bad):
            pass
    Big(c, ("A=gcc B=gcc", "A=cc B=cc", "A=cc B=gcc")).run(list(objects.scaled(c, None)) + relocs(), 1)
    c.extra.update(linkage_cases=len(cases), relocation_and_name_cases=len(r), linkage_states=stats["states"])


def relocs():
    """as many relocations of one section as the object format's 16-bit count holds, and more"""
    out = []
    for n in (65534, 65535, 65536, 65537, 70000, 131073):
        out.append(objects.LCase("%d relocations" % n, "int x[4]; int *p[%d] = {%s}; int *last(void) { return p[%d]; }" % (n, ",".join("x+%d" % (i & 3) for i in range(n)), n - 1),
                                 "extern int x[4]; extern int *p[]; int *last(void);",
                                 "int i; for (i = 0; i < %d; i++) if (p[i] != x + (i & 3)) { bad(\"reference\", i); break; } if (last() != x + %d) bad(\"last\", 0);" % (n, (n - 1) & 3)))
    return out


def explore(c):
    w = Wine(c)
    try:
        part = os.environ.get("VERIF_FAM", "a t l o c f").split()
        if "a" in part:
            arithmetic(c, w)
        pre = constexpr.PRE
        if "t" in part:
            Printer(c, pre, ccflags=CCFLAGS, win=w, gccflags=["-finput-charset=utf-8"]).run(types(), 60)
        if "l" in part:
            Printer(c, "void*memset(void*,int,unsigned long long);\n", ccflags=CCFLAGS, win=w).run(layouts(), 250)
        if "o" in part:
            linkage(c, w)
        if "c" in part:
            constants(c, w)
        if "f" in part:
            s = msabi.signatures()
            Interop(c, ms=True, ccflags=CCFLAGS, win=w).run(s, per=100)
            c.ndistinct += len(s)
            c.extra["signatures"] = len(s)
        c.extra["exhaustive"] = True
    finally:
        w.close()


if __name__ == "__main__":
    main(explore, "C22", "exploration",
         "for Windows, next to the mingw compiler: all operators x operand types x boundary values, converted, in functions and as constants; types and sizes of all operators x pairs of types; "
         "wide strings and characters of every class; member sequences up to 3 (bit-fields apart); declaration sequences, relocations and names through COFF objects; call signatures in both directions; "
         "evaluation = one program fragment's, function call's or constant's outcome compared",
         ["the mingw compiler and linker and wine run the programs as Windows would", "constants: an exact model of C expressions with a 32-bit long"])
