#!/usr/bin/env python3
"""C14: the built-in linker. Every reference graph between up to three objects, every order of
the operands and several data layouts: the linked program must print what the same sources,
compiled and linked by the system's tools, print. Everything ld refuses must be refused."""
import itertools, os, stat, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import vlib
from mc.vlib import THOROUGH, sh, CheckError, pmap

SYS_S = """.globl sys
sys:
	mov %rdi, %rax
	mov %rsi, %rdi
	mov %rdx, %rsi
	mov %rcx, %rdx
	syscall
	ret
"""
PRE = "long sys(long n, long a, long b, long c);\n"
LAYOUTS = {
    "plain": lambda i: "",
    "padded": lambda i: "static char pad[%d] = { %d }; char big%d[%d];\n" % (1 + 6 * i, i + 1, i, 3 + 5 * i),
    "aligned": lambda i: "_Alignas(%d) char al%d = %d; char odd%d = 5; static _Alignas(%d) int al2;\n" % (16 << i, i, i, i, 128 >> i),
    "large": lambda i: "char big%d[%d] = { 1 };\n" % (i, 70001 - i),
}
KINDS = ("call", "fptr data", "fptr code", "load", "store", "dptr data", "dptr code", "string", "tentative", "struct", "static same name")


def obj(i, n, edges, kinds, layout, start):
    """Object i of n; edges: the objects it refers to."""
    s = [PRE, LAYOUTS[layout](i),
         "static long same = %d; static const char *str = \"object %d\"; static long bump(long v) { static long cnt; cnt += v; return cnt + same; }\n" % (1000 * (i + 1), i),
         "static long _starts(void) { return %d; }\n" % (77 + i),
         "int d%d[5] = { %d, %d, %d, %d, %d };\nlong t%d[4];\nconst char *st%d = \"text of %d\";\n" % (i, i * 10, i * 10 + 1, i * 10 + 2, i * 10 + 3, i * 10 + 4, i, i, i),
         "struct s { char c; long *p; long (*f)(long); }; struct s s%d = { %d, &t%d[2], bump };\n" % (i, i + 40, i),
         "long f%d(long x) { t%d[1] += x; return %d + x + bump(x) + d%d[3] + t%d[2]; }\n" % (i, i, 100 * i, i, i)]
    body = []
    for b in sorted(edges):
        if b != i:
            s.append("extern int d%d[]; extern long t%d[], f%d(long); extern const char *st%d; extern struct s s%d;\n" % (b, b, b, b, b))
        if "fptr data" in kinds:
            s.append("static long (*fp%d[2])(long) = { 0, f%d }; long (*gp%d_%d)(long) = &f%d;\n" % (b, b, i, b, b))
            body.append("*o++ = fp%d[1](3) + gp%d_%d(4);" % (b, i, b))
        if "dptr data" in kinds:
            s.append("int *dp%d_%d[3] = { &d%d[4], d%d, d%d + 7 - 5 };\n" % (i, b, b, b, b))
            body.append("*o++ = *dp%d_%d[0] + dp%d_%d[1][1] * 7 + (dp%d_%d[2] - dp%d_%d[1]);" % ((i, b) * 4))
        if "call" in kinds:
            body.append("*o++ = f%d(%d);" % (b, i + 5))
        if "fptr code" in kinds:
            body.append("{ long (*f)(long) = f%d; *o++ = f(2) + (f == f%d); }" % (b, b))
        if "load" in kinds:
            body.append("*o++ = d%d[0] + d%d[2] * 3;" % (b, b))
        if "store" in kinds:
            body.append("d%d[3] += %d; *o++ = d%d[3];" % (b, i + 1, b))
        if "dptr code" in kinds:
            body.append("{ int *p = &d%d[1]; *o++ = p[1] + (p - d%d); }" % (b, b))
        if "string" in kinds:
            body.append("*o++ = st%d[8] + st%d[0];" % (b, b))
        if "tentative" in kinds:
            body.append("t%d[2] += %d; *o++ = t%d[2] + t%d[1] + t%d[0];" % (b, i + 3, b, b, b))
        if "struct" in kinds:
            body.append("*o++ = s%d.c + *s%d.p + s%d.f(1);" % (b, b, b))
    if "static same name" in kinds:
        body.append("same++; *o++ = bump(1) + str[7] + _starts();")
    if layout == "aligned":
        body.append("*o++ = ((long)&al%d %% %d) + ((long)&al2 %% %d) + al%d;" % (i, 16 << i, 128 >> i, i))
    body.append("*o++ = ((long)t%d %% 8) + ((long)d%d %% 4) + ((long)&s%d %% 8);" % (i, i, i))
    s.append("long *run%d(long *o) {\n%s\nreturn o; }\n" % (i, "\n".join(body)))
    if start:
        s.append("".join("long *run%d(long *);\n" % k for k in range(n) if k != i))
        s.append("void _start(void) { long buf[300]; long *o = buf; for (int k = 0; k < 2; k++) { %s } sys(1, 1, (long)buf, (o - buf) * 8); sys(60, 7, 0, 0); }\n" % " ".join("o = run%d(o);" % k for k in range(n)))
    return "".join(s)


class L:
    def __init__(self, chk):
        self.chk, self.dir, self.cache = chk, chk.work, {}
        self.nr = 0
        open(self.dir + "/sys.s", "w").write(SYS_S)
        rc, out = sh(["as", self.dir + "/sys.s", "-o", self.dir + "/sys.o"])
        if rc:
            raise CheckError("as: %r" % out)

    def compile(self, src):
        """-> (path of our object or None, error, path of gcc's object, path of the source)"""
        with self.chk.lock:
            if src in self.cache:
                return self.cache[src]
            k = self.nr = self.nr + 1
        b = "%s/o%d" % (self.dir, k)
        open(b + ".c", "w").write(src)
        rc, out = sh([self.chk.cc, "-c", b + ".c", "-o", b + ".o"], 60)
        rc2, out2 = sh(["gcc", "-w", "-O0", "-fno-pic", "-fno-stack-protector", "-ffreestanding", "-fcf-protection=none", "-mno-red-zone", "-c", b + ".c", "-o", b + "g.o"], 60)
        if rc2:
            raise CheckError("gcc: %s\n%s" % (out2.decode(), src))
        r = (b + ".o" if rc == 0 else None, out[-300:], b + "g.o", b + ".c")
        with self.chk.lock:
            self.cache[src] = r
        return r

    def tmp(self):
        with self.chk.lock:
            self.nr += 1
            return "%s/x%d" % (self.dir, self.nr)

    def run(self, x):
        os.chmod(x, 0o755)
        rc, out = sh([x], 10)
        return rc, out

    def ref(self, objs):
        x = self.tmp()
        rc, out = sh(["ld", "-z", "noexecstack", "--no-warn-rwx-segments", "-o", x, *objs, self.dir + "/sys.o"], 30)
        if rc:
            return None
        r = self.run(x)
        os.unlink(x)
        return r

    def own(self, operands):
        x = self.tmp()
        rc, out = sh([self.chk.cc, *operands, "-o", x], 60, cwd=self.dir)
        if rc != 0:
            if os.path.exists(x):
                os.unlink(x)
                return ("refused", "but an executable was written")
            return ("refused", rc, out[-300:])
        if not os.path.exists(x):
            return ("refused", "nothing written")
        r = self.run(x)
        os.unlink(x)
        return r

    def report(self, key, what, srcs, operands):
        files = {"o%d.c" % i: s for i, s in enumerate(srcs)}
        files["sys.s"] = SYS_S
        files["run.sh"] = "#!/bin/sh\n# operands in order: %s\n" % " ".join(os.path.basename(o) for o in operands)
        self.chk.violation(key, what, files)

    def case(self, key, srcs, orders, ext=None, both=True):
        """all orders of the operands; the last operand index is sys.o. ext: which sources are
        given as .c instead of .o"""
        if self.chk.too_many():
            return
        cs = [self.compile(s) for s in srcs]
        for c, s in zip(cs, srcs):
            if not c[0]:
                self.report(key, "compiler: %s" % c[1].decode("latin1"), srcs, [])
                return
        want = self.ref([c[2] for c in cs])
        if want is None or want[0] != 7:
            raise CheckError("reference program of %s failed: %s" % (key, want))
        if both:
            w = self.ref([c[0] for c in cs])
            if w != want:
                self.report(key + " [ld]", "the objects linked by ld: %s; reference: %s" % (show(w), show(want)), srcs, [])
                return
        ops = [c[3] if ext and ext[i] else c[0] for i, c in enumerate(cs)] + [self.dir + "/sys.o"]
        for o in orders:
            got = self.own([ops[i] for i in o])
            self.chk.count(1)
            if got != want:
                self.report("%s order %s" % (key, o), "got %s\nwant %s" % (show(got), show(want)), srcs, [ops[i] for i in o])
                return

    def refuse(self, key, srcs, orders):
        """ld refuses these (checked with gcc's objects and ours): so must the linker"""
        cs = [self.compile(s) for s in srcs]
        for k in (2, 0):
            x = self.tmp()
            rc, out = sh(["ld", "-z", "noexecstack", "--no-warn-rwx-segments", "-o", x, *[c[k] for c in cs], self.dir + "/sys.o"], 30)
            if rc == 0:
                raise CheckError("ld accepts " + key)
        ops = [c[0] for c in cs] + [self.dir + "/sys.o"]
        for o in orders:
            got = self.own([ops[i] for i in o])
            self.chk.count(1)
            if got[0] != "refused" or got[1] != 1:
                self.report("refuse %s order %s" % (key, o), "accepted or ended abnormally: %s" % (got,), srcs, [ops[i] for i in o])


def show(r):
    if r and isinstance(r[1], bytes):
        n = len(r[1]) // 8
        return "exit %s %s" % (r[0], list(struct.unpack("<%dq" % n, r[1][:8 * n])))
    return str(r)


def main(chk):
    l = L(chk)
    jobs = []
    perms = lambda n: list(itertools.permutations(range(n)))
    keys = set()

    def add(key, srcs, orders, ext=None, both=True):
        keys.add(key)
        jobs.append((l.case, (key, srcs, orders, ext, both)))
    # One and two objects: every graph x every single kind of reference x layouts x all orders.
    for lay in LAYOUTS:
        for kset in [(k,) for k in KINDS] + [KINDS]:
            for g in range(2):
                add("1 object, %s, %s, graph %d" % ("+".join(kset), lay, g), [obj(0, 1, {0} if g else set(), kset, lay, True)], perms(2))
            for g in range(16):
                for st in range(2):
                    add("2 objects, %s, %s, graph %x, start in %d" % ("+".join(kset), lay, g, st),
                        [obj(i, 2, {b for b in range(2) if g >> (2 * i + b) & 1}, kset, lay, st == i) for i in range(2)], perms(3))
    # Three objects: every graph, all kinds at once.
    orders = perms(4) if THOROUGH else [p + (3,) for p in perms(3)] + [(3, 2, 1, 0)]
    for lay in (LAYOUTS if THOROUGH else ["padded"]):
        for g in range(512):
            st = g % 3
            for st in (range(3) if THOROUGH else [g % 3]):
                add("3 objects, %s, graph %x, start in %d" % (lay, g, st),
                    [obj(i, 3, {b for b in range(3) if g >> (3 * i + b) & 1}, KINDS, lay, st == i) for i in range(3)], orders, both=False)
    # Sources given directly, mixed with objects.
    for n in (1, 2, 3):
        for ext in itertools.product((0, 1), repeat=n):
            if any(ext):
                for st in range(n):
                    add("%d operands, as sources %s, start in %d" % (n, ext, st), [obj(i, n, set(range(n)), KINDS, "padded", st == i) for i in range(n)], [tuple(range(n + 1)), tuple(range(n, -1, -1))], ext, both=False)
    # Many objects, and many symbols.
    for n in (4, 5, 8) + ((16,) if THOROUGH else ()):
        add("%d objects in a ring" % n, [obj(i, n, {(i + 1) % n}, KINDS, "padded", i == n // 2) for i in range(n)], [tuple(range(n + 1)), tuple(range(n, -1, -1))])
    for n in (100, 254, 255, 256, 257, 1000, 3000):
        src = PRE + "".join("long g%d(long); long v%d = %d;\n" % (k, k, k) for k in range(n)) + "long *tab[] = {%s};\n" % ",".join("&v%d" % k for k in range(n))
        src += "void _start(void) { long s = 0; for (int k = 0; k < %d; k++) s += *tab[k] * k; long b[3] = { s, g0(1), g%d(2) }; sys(1, 1, (long)b, 24); sys(60, 7, 0, 0); }\n" % (n, n - 1)
        src2 = "".join("extern long v%d; long g%d(long x) { return x + v%d; }\n" % (k, k, k) for k in range(n))
        add("%d symbols" % n, [src, src2], perms(3))
    # Things that must be refused.
    S = PRE + "void _start(void) { sys(60, 7, 0, 0); %s }\n"
    undef = {"call": "extern long u(long); long use(void) { return u(1); }", "load": "extern long u; long use(void) { return u; }", "data": "extern long u; long *use = &u;",
             "data addend": "extern char u[]; char *use = u + 5;", "function pointer": "long u(void); long (*use)(void) = u;", "second member": "extern int u; struct { int a; int *p; } use = { 1, &u };",
             "unused code": "extern int u; int v; int use(int c) { if (c) return v; return u; }"}
    other = {"nothing": "int other = 1;", "static object": "static long u = 3; long other(void) { return u; }", "static function": "static long u(void) { return 3; } long other(void) { return u(); }",
             "longer name": "long u_ = 1, uu = 2;", "local static": "long other(void) { static long u = 3; return u++; }", "declared only": "extern long u; int other = 2;", "inline": "inline long u(void) { return 3; } int other;" }
    for (un, u), (on, o) in itertools.product(undef.items(), other.items()):
        jobs.append((l.refuse, ("undefined %s, other unit has %s" % (un, on), [S % "" + u, o], perms(3))))
    for un, u in undef.items():
        jobs.append((l.refuse, ("undefined %s" % un, [S % "" + u], perms(2))))
        jobs.append((l.refuse, ("undefined %s in the second of three" % un, [S % "", u, "int other;"], perms(4))))
    dup = {"functions": ("long u(void) { return 1; }",) * 2, "objects": ("long u = 1;", "long u = 2;"), "tentative": ("long u;", "long u;"), "object and tentative": ("int u = 1;", "int u;"), "function and object": ("long u(void) { return 1; }", "long u = 4;"),
           "_start": ("", "void _start(void) { }")}
    for dn, (a, b) in dup.items():
        jobs.append((l.refuse, ("duplicate " + dn, [S % "" + a, b], perms(3))))
        jobs.append((l.refuse, ("duplicate %s, apart" % dn, [S % "" + a, "int between = 3;", b], perms(4))))
    pmap(lambda j: j[0](*j[1]), jobs)
    chk.ndistinct = len(jobs)
    chk.samples = [{"case": k} for k in sorted(keys)[::len(keys) // 6]]
    chk.extra.update(programs_that_link=len(keys), refused=len(jobs) - len(keys))


vlib.main(main, "C14",
          rule="every reference graph between one, two and three objects x reference kinds x data layouts x operand orders, linked by the built-in "
               "linker and run; output compared with gcc+ld; operands as sources and objects mixed; many objects and symbols; undefined and duplicate symbols must be refused",
          assumptions=["system calls are made by a small object made with the system assembler, given to either linker"])
