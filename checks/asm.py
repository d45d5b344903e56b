#!/usr/bin/env python3
"""C12: the built-in assembler encodes what -S says.

(a) Programs: every program of a family that puts every displacement, immediate, label offset,
    byte of data and size at the encoding boundaries into each position the code generator has
    for it is compiled with -c and with -S; the objects (the second assembled by GNU as) have to
    be equal as lists of instructions with resolved targets, bytes of data with resolved
    relocations, alignments and symbols.
(b) Instructions: every mnemonic of the assembler x every operand form x every register x every
    displacement / immediate at a boundary is encoded by the compiler's own assembler and
    compared with GNU as's reading of the text the same assembler prints."""
import itertools, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import elf
from mc.vlib import *

MNEM = """addl addq addsd addss andl andq btcq callq cmpl cmpq cvtsd2ss cvtsi2sd cvtsi2ss cvtss2sd
cvttsd2si cvttss2si divl divq divsd divss idivl idivq imull imulq leal leaq leave movabsq movb movd
movl movq movsbl movsbq movsbw movsd movslq movss movswl movswq movw movzbl movzwl mulsd mulss negl
negq notl notq orl orq popq pushq ret cltd cqto sall salq sarl sarq seta setae setb setbe sete setg setge setl
setle setna setnb setne setnp setp shrl shrq subl subq subsd subss testb testl testq testw ucomisd
ucomiss ud2 xorl xorps xorq xorpd andb orb movups movaps movapd""".split()


# ------------------------------------------------------------------ instructions
def operands():
    regs = {s: ["r%d:%d" % (s, r) for r in range(16)] for s in (8, 4, 2, 1)}
    disp = [0, 1, -1, 4, 127, 128, -128, -129, 255, 256, -256, 65536, (1 << 31) - 1, -(1 << 31)]
    imm = [0, 1, -1, 2, 63, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
           (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, -(1 << 63)]
    return {"r8": regs[8], "r4": regs[4], "r2": regs[2], "r1": regs[1],
            "x": ["x%d" % i for i in range(16)], "s": ["s%d" % r for r in range(16)],
            "m": ["m:%d:%d" % (b, d) for b in range(16) for d in disp],
            "i": ["i:%d" % v for v in imm]}


SAMPLE = {"r8": ["r8:0", "r8:2", "r8:12"], "r4": ["r4:0", "r4:2", "r4:12"], "r2": ["r2:0", "r2:2", "r2:12"],
          "r1": ["r1:0", "r1:2", "r1:12"], "x": ["x0", "x9"], "s": ["s0"], "m": ["m:0:8"],
          "i": ["i:1", "i:100000", "i:-5", "i:300", "i:5000000000"]}


def harness(chk):
    d = os.path.dirname(chk.cc)
    exe = chk.work + "/encode"
    objs = [f for f in glob.glob(d + "/*.o") if not f.endswith("/main.c.o")]
    rc, out = sh(["gcc", "-w", "-O1", "-I" + REPO + "/src", "-I" + d + "/cfg", "-o", exe, VERIF + "/harness/encode.c", *objs], timeout=120)
    if rc:
        # The assembler's functions are called by other names now: (a) remains.
        print("C12: the instruction harness does not build against this tree, instructions are not enumerated")
        chk.extra["instruction_harness"] = "not built: " + out.decode("latin1")[-300:]
        return None
    return exe


def encode(chk, exe, reqs, tag):
    """-> the bytes of each request, None if rejected"""
    def one(k, part):
        p = "%s/enc-%s-%d" % (chk.work, tag, k)
        rc, out = sh([exe, "bytes", p], timeout=300, inp=("\n".join(part) + "\n").encode())
        r = open(p).read().split("\n")
        os.unlink(p)
        if rc or len(r) != len(part) + 1:
            raise CheckError("encode harness: rc %s, %d of %d" % (rc, len(r), len(part)))
        return [None if x == "-" else bytes.fromhex(x) for x in r[:-1]]
    parts = chunks(reqs, max(1, (len(reqs) + NPROC - 1) // NPROC))
    res = pmap(lambda kp: one(*kp), list(enumerate(parts)))
    return [b for r in res for b in r]


def reference(chk, exe, reqs, tag):
    """-> disassembly of what GNU as makes of the text of each request, None if as rejects it"""
    p = "%s/ref-%s.s" % (chk.work, tag)
    # A request without a text form ends the harness: none of those are expected.
    rc, out = sh([exe, "text", p], timeout=300, inp=("\n".join(reqs) + "\n").encode())
    if rc:
        raise CheckError("text harness: rc %s %s" % (rc, out[-200:]))
    lines = open(p).read().split("\n")
    cur, text = None, [[] for _ in reqs]
    for l in lines:
        m = re.match(r"\t#@(\d+)$", l)
        if m:
            cur = int(m.group(1))
        elif cur is not None and l.strip():
            text[cur].append(l)
    src = ["\n".join(t) for t in text]
    alive = set(range(len(reqs)))
    for _ in range(4):
        order = sorted(alive)
        asm, at = [], {}
        for i in order:
            asm.append("# %d" % i)
            for l in text[i]:
                asm.append(l); at[len(asm)] = i
            asm.append("\t.skip 16, 0x90")
            asm.append("\t.balign 32, 0x90")
        open(p, "w").write("\n".join(asm) + "\n")
        r = subprocess.run(["as", "--64", p, "-o", p + ".o"], capture_output=True, text=True)
        bad = {at[int(m)] for m in re.findall(r"\.s:(\d+): Error", r.stderr) if int(m) in at}
        if r.returncode == 0:
            break
        if not bad:
            raise CheckError("as: " + r.stderr[-300:])
        alive -= bad
    o = elf.Obj(p + ".o")
    code = bytes(o.bytes(o.sec(".text")))
    blobs = [code[k * 32:k * 32 + 32] for k in range(len(order))]
    for f in (p, p + ".o"):
        os.unlink(f)
    dis = {i: d for i, d in zip(order, elf.disassemble(blobs, chk.work, "ref" + tag))}
    return [first(dis[i]) if i in dis else None for i in range(len(reqs))], src


def clean(t):
    t = re.sub(r"\s+", " ", t)
    return re.sub(r"^(shr|sar|shl|rol|ror)([bwlq]?) \$(0x)?1,", r"\1\2 ", t)


def first(d):
    return clean(d[0][1]) if d else "nothing"


def alljoin(d):
    return "; ".join(clean(t) for _, t in d) or "nothing"


def instructions(chk):
    exe = harness(chk)
    if not exe:
        return
    ops = operands()
    forms = [()] + [(a,) for a in SAMPLE] + list(itertools.product(SAMPLE, repeat=2)) + \
            [("i",) + p for p in itertools.product(("r8", "r4", "m"), repeat=2)]
    # Which forms does the assembler know?
    probe, who = [], []
    for mn in MNEM:
        for f in forms:
            for c in itertools.product(*(SAMPLE[k] for k in f)):
                probe.append(" ".join((mn,) + c)); who.append((mn, f))
    known = []
    seen = set()
    for b, w in zip(encode(chk, exe, probe, "probe"), who):
        if b is not None and w not in seen:
            seen.add(w); known.append(w)
    reqs = []
    for mn, f in known:
        if len(f) == 2 and f.count("m") == 2:
            continue
        if mn.startswith("cvtsi2s") and f[0] == "m":
            continue                    # the text does not tell the size of the integer
        sets = [ops[k] for k in f]
        if "m" in f and len(f) == 2 and not THOROUGH:
            # Every address with four registers, every register with four addresses.
            j = f.index("m")
            o = ops[f[1 - j]]
            few = [o[i] for i in (0, 5, 7, 13)] if len(o) == 16 else o[::4]
            pairs = {(m, r) for m in ops["m"] for r in few} | {(m, r) for m in ops["m"][5::53] for r in o}
            allp = sorted(pairs)
            reqs += [" ".join((mn, m, r) if j == 0 else (mn, r, m)) for m, r in allp]
            continue
        if len(f) == 3 and not THOROUGH:
            sets = [s if len(s) < 30 else s[::7] for s in sets]
        reqs += [" ".join((mn,) + c) for c in itertools.product(*sets)]
    groups = chunks(reqs, 6000)

    def work(kg):
        k, g = kg
        got = encode_one(chk, exe, g, "g%d" % k)
        # (what as rejects is not what the code generator emits)
        ref, src = reference(chk, exe, g, "g%d" % k)
        dis = elf.disassemble([b or b"" for b in got], chk.work, "got%d" % k)
        n = 0
        for r, b, d, e, s in zip(g, got, dis, ref, src):
            if b is None or e is None:
                continue
            n += 1
            t = alljoin(d)
            if t != e:
                chk.violation(s.strip(), "the assembler encodes %s, which is %s, but as reads the text as %s" % (b.hex(), t, e),
                              {"request.txt": r + "\n", "text.s": s + "\n"})
        return n

    def encode_one(chk, exe, part, tag):
        p = "%s/enc-%s" % (chk.work, tag)
        rc, out = sh([exe, "bytes", p], timeout=300, inp=("\n".join(part) + "\n").encode())
        r = open(p).read().split("\n")
        os.unlink(p)
        if rc or len(r) != len(part) + 1:
            raise CheckError("encode harness: rc %s, %d of %d" % (rc, len(r), len(part)))
        return [None if x == "-" else bytes.fromhex(x) for x in r[:-1]]
    n = sum(pmap(work, list(enumerate(groups))))
    chk.count(n, n)
    chk.extra.update(instruction_forms=len(known), instructions=n, instructions_rejected_by_one_side=len(reqs) - n)


# ------------------------------------------------------------------ programs
def programs():
    P = []

    def add(key, text, *flags):
        P.append((key, text, flags))
    sizes = list(range(0, 20)) + list(range(96, 136)) + [248, 255, 256, 257, 1000, 4096, 32768, 65536, 1 << 20]
    # Displacements from %rbp: a buffer of each size moves everything else.
    for s in sizes:
        add("frame %d" % s, """
int f(int a, long b, short c, char d, double e, float g) {
	char buf[%d]; int x = a; long y = b; double z = e; float w = g;
	for (int i = 0; i < %d; i++) buf[i] = d + i;
	x += c; y -= x; z += w;
	return x + y + (int)z + buf[%d] + (a ? c : d);
}
""" % (s + 1, s + 1, s))
    # Offsets of members, from pointers and in frames and static data; struct copies of each size.
    for s in sizes:
        add("member %d" % s, """
struct s { char pad[%d]; char c; short h; int i; long l; float f; double d; char a[3]; } g, *p = &g;
char *pc = &g.c; long *pl = &g.l; char *pa = g.a + 2, *pm = g.pad - 3;
struct s h(struct s a, struct s *b, int n) {
	struct s l = { 0 };
	l.c = a.c; l.h = b->h; l.i = g.i; p->l = b[n].l; l.f = b[1].f; l.d = b[-1].d; l.a[1] = n;
	*b = l; g = *p;
	return b[n + 2];
}
""" % (s + 1))
    for n in list(range(1, 41)) + [127, 128, 129, 255, 256]:
        add("copy %d" % n, """
struct s { char c[%d]; };
struct s g, arr[3] = { { { 1 } } };
struct s f(struct s a, struct s b) { struct s z = { { 0 } }, l = a; z.c[0] = b.c[%d]; g = z; arr[1] = l; arr[2] = b; return b; }
int main(void) { struct s q = f(g, arr[2]); return q.c[%d]; }
""" % (n, n - 1, n // 2))
    # Immediates.
    vals = sorted({v + k for v in (0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31,
                                   (1 << 32) - 1, 1 << 32, (1 << 63) - 1) for k in (-1, 0, 1)} |
                  {-v for v in (1, 2, 127, 128, 129, 255, 256, 32768, 32769, 65536, (1 << 31), (1 << 31) + 1, 1 << 32, (1 << 63) - 1)})
    for t in ("char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "_Bool"):
        body = ""
        for k, v in enumerate(vals):
            lit = "(-%dll - 1)" % (-v - 1) if v < 0 else ("%dull" % v if v >= 1 << 63 else "%dll" % v)
            body += "%s g%d = (%s)%s; %s f%d(%s x) { %s y = (%s)%s; volatile %s z = y; if (x == (%s)%s) return y; return x + (%s)%s; }\n" % (
                t, k, t, lit, t, k, t, t, t, lit, t, t, lit, t, lit)
        add("immediates " + t, body)
    add("floats", "".join("double d%d = %s; float f%d = %sf; double h%d(double x, float y) { return x * %s + y / %sf; }\n" % (k, v, k, v, k, v, v)
                          for k, v in enumerate(("0.0", "1.0", "-1.0", "0.1", "1e30", "1e-30", "-0.0", "3.14159", "65536.0"))))
    # Labels with offsets: in instructions, in data, by both code models.
    offs = [0, 1, -1, 5, 127, 128, -128, -129, 32768, (1 << 31) - 1, -(1 << 31), 1 << 31]
    for model in ((), ("-fcmodel=large",), ("-fcmodel=small",)):
        add("labels " + " ".join(model), "extern char ext[]; static char st[300]; char gl[300]; int fn(int); static int sf(int x) { return x; }\n" +
            "".join("char *a%d = ext + %d, *b%d = st + %d, *c%d = gl + %d; char *f%d(void) { static int z; z++; return (ext + %d) + (st + %d - st) ; } char *g%d(void) { return gl + %d; }\n"
                    % (k, o, k, o, k, o, k, o if abs(o) < 1 << 31 else 7, 3, k, o if abs(o) < 1 << 31 else 7) for k, o in enumerate(offs)) +
            "int (*pf[])(int) = { fn, sf, &fn, 0, sf }; int call(int n) { return pf[n](n) + fn(n) + sf(n) + (*pf[0])(1); }\n"
            "char *strs[] = { \"a\", \"bcd\", \"a\", \"\", \"x\\0y\" }; char *lit(int n) { return n ? \"lit\" : \"\"; }\n", *model)
    # Data.
    add("bytes", "".join('char s%d[] = "%s"; char *p%d = "%s";\n' % (k, e, k, e) for k, e in
        enumerate(["".join("\\%03o" % c for c in range(lo, lo + 32)) for lo in range(0, 256, 32)] +
                  ["\\0", "\\0\\0", "a\\0", "", "?", "??", "'", "\\\"", "\\\\", "\\n\\t\\r\\a\\b\\f\\v", "%d%s", "# /* */ //", "\\1771", "\\0011", "é", "\\3777"])) +
        "char *f(int n) { return n ? \"\\377\\0\\1\" : \"tail\\0\"; }\n")
    types = ["char", "short", "int", "long", "char *", "double", "float", "_Bool"]
    for t in itertools.product(types, repeat=2):
        vals2 = {"char *": "(char *)&x"}
        add("data " + "+".join(t), "int x = 5; struct { char a; %s b; char c; %s d; char e; } v = { 1, %s, 2, %s, 3 }, w[2] = { [1] = { 7, %s } }, z; static struct { %s a[3]; } q = { { %s } }; void *f(void) { return &q; }\n"
            % (t[0], t[1], vals2.get(t[0], "7"), vals2.get(t[1], "9"), vals2.get(t[0], "1"), t[1], vals2.get(t[1], "3")))
    for al in (1, 2, 4, 8, 16, 32, 64, 128, 4096):
        add("align %d" % al, "char a = 1; _Alignas(%d) char b = 2; char c = 3; static _Alignas(%d) char d; _Alignas(%d) char e[5]; char *f(void) { _Alignas(%d) char l[3]; static _Alignas(%d) char s; l[0] = 1; s = l[0]; return &d + s; }\n"
            % ((max(al, 1),) * 5))
    for first in ("char a[3] = \"ab\"", "int a = 3", "char a = 1", "long a", "char a[5]", "static char a[7]"):
        for second in ("long b = 2", "int b", "char *b = \"s\"", "short b = 1", "double b", "struct { char c; long l; } b = { 1, 2 }"):
            add("order %s; %s" % (first, second), first + "; " + second + "; void *f(void) { static char k[3]; static long m = 5; k[0] = a ? 1 : 2; return b ? &m : (void *)k; }\n"
                if "struct" not in second else first + "; " + second + "; void *f(void) { return &b; }\n")
    # Everything done with a value: all operators on all types (so every row of the operator tables).
    ity = ["char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long"]
    for t in ity + ["float", "double"]:
        ops = ["+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!=", "&&", "||"] + ([] if t in ("float", "double") else ["%", "&", "|", "^", "<<", ">>"])
        body = "".join("%s b%d(%s a, %s b) { return a %s b; } %s c%d(%s a, %s b) { a %s b; return a; }\n" % (
            t if o not in ("<", ">") else "int", k, t, t, o, t, k, t, t, (o + "=") if o not in ("<", ">", "<=", ">=", "==", "!=", "&&", "||") else "= a " + o) for k, o in enumerate(ops))
        body += "%s n(%s a) { return -a; } int no(%s a) { return !a; } %s i(%s *a) { return (*a)++ + --*a; }\n" % (t, t, t, t, t)
        if t not in ("float", "double"):
            body += "%s co(%s a) { return ~a; } struct { %s x : 5; %s y : 3; } bf; %s bfs(int n) { bf.x = n; bf.y += bf.x; return bf.y; }\n" % (t, t, t, t, t)
        for u in ity + ["float", "double", "_Bool"]:
            body += "%s to_%s(%s a) { return (%s)a; }\n" % (u, u.replace(" ", "_"), t, u)
        add("operators " + t, body)
    # Calls: number and classes of arguments, results, variadic, through pointers.
    at = {"i": "int", "l": "long", "d": "double", "f": "float", "s": "struct s", "b": "struct b", "m": "struct m"}
    pre = "struct s { char c[3]; }; struct b { long l[5]; }; struct m { double d; long l; }; struct s s; struct b b; struct m m;\n"
    for n in range(0, 19):
        for rt in "ildfsbm":
            kinds = [("ildfsbm" * 3)[(k * 3 + n) % 7] for k in range(n)]
            ps = ", ".join(at[k] + " a%d" % j for j, k in enumerate(kinds)) or "void"
            vs = ", ".join({"s": "s", "b": "b", "m": "m"}.get(k, "%d" % j) for j, k in enumerate(kinds))
            add("call %d %s" % (n, rt), pre + "%s g(%s); %s f(%s) { return g(%s); } %s (*p)(%s) = f; void h(void) { g(%s); p(%s); }\n"
                % (at[rt], ps, at[rt], ps, ", ".join("a%d" % j for j in range(n)), at[rt], ps, vs, vs))
    add("variadic", "#include <stdarg.h>\n" + pre + "int v(int n, ...) { va_list ap, aq; va_start(ap, n); int a = va_arg(ap, int); va_copy(aq, ap); double d = va_arg(ap, double); struct m q = va_arg(ap, struct m); struct b r = va_arg(aq, struct b); va_end(ap); return a + (int)d + q.l + r.l[0]; }\n"
        "int w(void) { return v(1, 2, 3.0, m, b, 4l, 5.0f); }\n")
    # Control flow.
    add("control", """
int f(int n, long m) {
	int r = 0;
	for (int i = 0; i < n; i++) { if (i == 3) continue; if (i > 7) break; r += i; while (m-- > 3) r ^= 1; do r++; while (r < 5); }
	switch (n) { case 0: r = 1; case 1: r++; break; case 0x7fffffff: r = 2; break; case -5: goto end; default: r = 9; }
	switch (m) { case 5: r++; case 0x7fffffffffffffff: r--; }
	r += n ? m ? 1 : 2 : 3; r |= n && m || r;
end: return r;
}
int vla(int n) { int a[n], s = 0; for (int i = 0; i < n; i++) { int b[i + 1]; b[i] = i; a[i] = b[i]; s += a[i]; } return s; }
void *alloc(unsigned long n) { _Alignas(64) char q[3]; char v[n]; q[1] = v[0]; return q[1] ? alloc(n - 1) : 0; }
""")
    for n in (1, 10, 200):
        add("long %d" % n, "int f(int x) {\n" + "".join("if (x == %d) x += %d; else x ^= %d;\n" % (i, i * 3, i * 5) for i in range(n)) + "return x; }\n")
    add("linkage", "static int a; int b; extern int c; static int fa(void) { return a + c; } int fb(void) { return fa() + b; } extern int fc(void); int (*t)(void) = fc; int fd(void) { return fc() + c; } inline static int fi(void) { static int q = 4; return q++; } int fe(void) { static int q = 7; return q++ + fi(); } extern int never; extern int neverf(void);\n")
    return P


def run_programs(chk):
    P = programs()
    # The compiler's own sources are programs, too.
    inc = ["-I" + REPO + "/src", "-I" + os.path.dirname(chk.cc) + "/cfg", '-DCONFIG_PATH="vconfig.h"']
    for s in sources():
        P.append(("source " + os.path.relpath(s, REPO), None, tuple(inc) + (s,)))
    k = itertools.count()

    def one(p):
        key, text, flags = p
        b = "%s/p%d" % (chk.work, next(k))
        src = b + ".c"
        if text is None:
            src, flags = flags[-1], flags[:-1]
        else:
            open(src, "w", encoding="utf8").write(text)
        rc1, o1 = sh([chk.cc, "-c", src, "-o", b + ".c.o", *flags], timeout=120)
        rc2, o2 = sh([chk.cc, "-S", src, "-o", b + ".s", *flags], timeout=120)
        files = {"program.c": open(src, "rb").read()}
        why = None
        try:
            if rc1 == 1 and rc2 == 1 and b"error" in o1.lower() and text is None:
                return 0
            if rc1 or rc2:
                why = "-c exits with %s, -S with %s: %s" % (rc1, rc2, (o1 + o2).decode("latin1")[-300:])
            else:
                r = subprocess.run(["as", "--64", b + ".s", "-o", b + ".s.o"], capture_output=True, text=True)
                if r.returncode:
                    why = "as rejects the output of -S: " + r.stderr[:300]
                else:
                    x = elf.normal(b + ".c.o", chk.work, os.path.basename(b) + "x")
                    y = elf.normal(b + ".s.o", chk.work, os.path.basename(b) + "y")
                    why = elf.differ(x, y)
                    chk.count(len(x["text"]), len(x["text"]))
        except elf.Bad as e:
            why = "cannot read the objects: %s" % e
        finally:
            for e in (".c.o", ".s", ".s.o") + ((".c",) if text is not None else ()):
                if os.path.exists(b + e):
                    os.unlink(b + e)
        if why:
            chk.violation(key, why, files)
        return 1
    n = sum(pmap(one, P))
    chk.extra.update(programs=n)


def check(chk):
    run_programs(chk)
    instructions(chk)


main(check, "C12", "exploration",
     "every displacement, immediate, label offset, size and data byte at an encoding boundary in every position of generated programs, -c against -S and GNU as; every mnemonic x operand form x register x boundary value through the real encoder against GNU as",
     ["GNU as and objdump are the reference", "instructions GNU as itself rejects are not judged"])
