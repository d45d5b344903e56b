#!/usr/bin/env python3
"""C23: input and output that fails. Every file operation of a run fails in every way it
can, one at a time (and in pairs); the run must end with an error, or with the right output."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import vlib
from mc.vlib import THOROUGH, sh, pmap, CheckError

HERE = os.path.join(vlib.VERIF, "mc", "faults")

FILES = {
    "one.c": "int x = 3; int f(int a) { return a + x; }\n",
    "empty.c": "",
    "inc.c": '#include "h1.h"\n#include <h2.h>\n#define S(x) #x\nconst char *s = S(a b "c") TEXT; double d = 1.5; static int t[] = { 1, 2, 3, N };\n'
             'int g(int n) { switch (n) { case 1: return t[0]; case N: return t[n & 3]; } return h(n) + (int)d; }\n',
    "h1.h": '#pragma once\n#define TEXT "text\\n"\n#include "h3.h"\n', "sub/h2.h": "#define N 77\nint h(int);\n", "h3.h": "#if 0\nnothing\n#endif\nstruct s { int a, b; };\n",
    "data.c": "unsigned char data[] = {%s};\nint get(int i) { return data[i]; }\n" % ",".join(str(i * 7 & 255) for i in range(9000 if THOROUGH else 3000)),
    "many.c": "".join("int f%d(int x) { return x * %d + f%d(x - 1); }\n" % (i, i, i - 1) if i else "int f0(int x) { return x; }\n" for i in range(120)),
    "start.c": "int x, f(int), g(int); int h(int n) { return n; } void _start(void) { f(g(x)); for (;;); }\n",
    "def.c": "int y; int f(int a) { return a + y; } int g(int a) { return a - y; }\n",
    "bss.c": "char zero[70000]; int f(int a) { return zero[a]; }\n",
}

# name, arguments, outputs, sources
SC = []
def sc(name, args, outs, bufs, pairs=(), pre=()):
    SC.append((name, args, outs, bufs, set(pairs), pre))


ALL = (-1, 0, 16, 64, 256, 1024, 4096)
SOME = ALL if THOROUGH else (-1, 16, 64, 256, 1024)
for ab in ("sysv", "ms"):
    o = ["-fabi=" + ab]
    for p in ("one", "empty", "inc", "bss"):
        if p == "empty":
            bufs = ALL
        else:
            bufs = ALL if p in ("one", "inc") else (-1, 256, 4096)
        pr = {"one": (-1, 64, 256, 1024), "inc": (-1, 1024), "empty": (-1, 16, 64)}.get(p, ())
        sc("%s -c %s" % (p, ab), o + ["-Isub", "-c", p + ".c", "-o", "out.o"], ["out.o"], bufs, pr)
        if p != "empty" and p != "bss":
            sc("%s -S %s" % (p, ab), o + ["-Isub", "-S", p + ".c", "-o", "out.s"], ["out.s"], SOME if p == "inc" else bufs, pr)
    sc("data -c " + ab, o + ["-c", "data.c", "-o", "out.o"], ["out.o"], (-1, 64, 4096, 8192) if THOROUGH else (-1, 256, 4096))
    sc("many -c " + ab, o + ["-c", "many.c", "-o", "out.o"], ["out.o"], (-1, 64, 4096) if THOROUGH else (-1, 1024))
    sc("many -S " + ab, o + ["-S", "many.c", "-o", "out.s"], ["out.s"], (-1, 64, 4096) if THOROUGH else (-1, 1024))
    sc("-MD " + ab, o + ["-Isub", "-MD", "-MF", "out.d", "-c", "inc.c", "-o", "out.o"], ["out.o", "out.d"], SOME, (-1, 1024))
    sc("-MD -S " + ab, o + ["-Isub", "-MD", "-S", "inc.c", "-o", "out.s"], ["out.s", "out.d"], SOME, (-1, 1024))
    sc("two files -c " + ab, o + ["-Isub", "-c", "inc.c", "one.c"], ["inc.o", "one.o"], (-1, 64, 256, 1024), (-1,))
    sc("two files -S " + ab, o + ["-Isub", "-S", "inc.c", "one.c"], ["inc.s", "one.s"], (-1, 64, 256, 1024), (-1,))
for p in ("one", "inc"):
    sc("%s -E" % p, ["-Isub", "-E", p + ".c"], ["1"], ALL, (-1, 64, 256))
sc("data -E", ["-E", "data.c"], ["1"], (-1, 64, 4096))
sc("two files -E", ["-Isub", "-E", "inc.c", "one.c"], ["1"], SOME, (-1, 256))
sc("dump of the IR", ["-fdump-ir=out.dot", "-c", "one.c", "-o", "out.o"], ["out.dot", "out.o"], SOME, (-1, 256))
sc("link of sources", ["start.c", "def.c", "-o", "out"], ["out"], ALL, (-1,))
sc("link of objects", ["start.o", "def.o", "-o", "out"], ["out"], SOME, (-1,), ("start", "def"))
sc("link of both", ["start.c", "def.o", "data.o", "-o", "out"], ["out"], (-1, 64, 256, 4096), (-1,), ("def", "data"))


class Faults:
    def __init__(self, chk):
        self.chk = chk
        self.tot = [0] * 5
        for out, src, fl in (("shim.so", "shim.c", ["-shared", "-fPIC"]), ("driver", "driver.c", [])):
            rc, o = sh(["gcc", "-O1", "-w", *fl, "-o", "%s/%s" % (chk.work, out), "%s/%s" % (HERE, src)])
            if rc:
                raise CheckError("can't build %s: %s" % (src, o.decode()))
        self.n = 0

    def dir(self, pre=()):
        with self.chk.lock:
            self.n += 1
            d = "%s/d%d" % (self.chk.work, self.n)
        for f, s in FILES.items():
            os.makedirs(os.path.dirname("%s/%s" % (d, f)), exist_ok=True)
            open("%s/%s" % (d, f), "w").write(s)
        for p in pre:
            rc, o = sh([self.chk.cc, "-c", p + ".c", "-o", p + ".o"], cwd=d)
            if rc != 0:
                self.chk.violation("compiles %s.c" % p, o.decode("utf8", "replace"))
        return d

    def report(self, name, args, out, d):
        s = None
        for l in out.decode("utf8", "replace").splitlines():
            if l.startswith("V "):
                self.chk.violation("%s: %s" % (name, l[2:]), "cc %s\n%s" % (" ".join(args), l[2:]),
                                   {os.path.basename(f): t for f, t in FILES.items() if f in args or f.endswith(".h")})
            elif l.startswith("S "):
                s = [int(x) for x in l.split()[1:]]
            elif l.startswith("E "):
                raise CheckError(name + ": " + l)
        if s:
            with self.chk.lock:
                self.tot = [a + b for a, b in zip(self.tot, s)]
                self.chk.count(s[2], s[2])
                self.chk.samples.append({"scenario": name, "runs": s[0], "operations": s[1], "faults": s[2], "ended_with_an_error": s[3], "same_output": s[4]})

    def faults(self, name, args, outs, buf, pairs, pre):
        if self.chk.too_many():
            return
        d = self.dir(pre)
        rc, out = sh([self.chk.work + "/driver", d + "/ctl", self.chk.work + "/shim.so", str(buf), "1" if pairs else "0", ",".join(outs), "--", self.chk.cc, *args], cwd=d, timeout=850)
        if rc != 0:
            raise CheckError("%s: driver ended with %s: %s" % (name, rc, out[-500:]))
        self.report("%s, buffers %d" % (name, buf), args, out, d)

    def cut(self, name, args, outs, f, pre):
        d = self.dir(pre)
        rc, out = sh([self.chk.work + "/driver", "-", "-", "-", f, ",".join(outs), "--", self.chk.cc, *args], cwd=d, timeout=850)
        if rc != 0:
            raise CheckError("%s: driver ended with %s: %s" % (name, rc, out[-500:]))
        self.report(name, args, out, d)

    def real(self, name, args, outs=()):
        """Places that can't be read or written; no fault is injected."""
        d = self.dir(("one",))
        os.makedirs(d + "/adir.c"); os.makedirs(d + "/adir.o"); os.makedirs(d + "/adir.h")
        open(d + "/needs.c", "w").write('#include "adir.h"\n'); open(d + "/missing.c", "w").write('#include "nothere.h"\n')
        rc, out = sh(["sh", "-c", 'cc=$1; shift; exec "$cc" ' + args, "sh", self.chk.cc], cwd=d)
        self.chk.count(1, 1)
        if rc is None or rc <= 0 or rc >= 97:
            self.chk.violation("%s" % name, "cc %s: status %s, expected an error\n%s" % (args, rc, out.decode("utf8", "replace")[-500:]))


def main(chk):
    f = Faults(chk)
    jobs = []
    for name, args, outs, bufs, pairs, pre in SC:
        if THOROUGH:
            bufs = sorted(set(bufs) | {2, 7, 32, 100, 512, 2048})
            pairs = pairs | ({16, 64} if name.split()[0] in ("one", "empty") else {256, 512} if "data" not in name and "many" not in name else set())
        for b in bufs:
            jobs.append((b in pairs, lambda a=(name, args, outs, b, b in pairs, pre): f.faults(*a)))
    jobs.append((1, lambda: f.cut("object cut", ["start.c", "def.o", "-o", "out"], ["out"], "def.o", ("def",))))
    jobs.append((1, lambda: f.cut("first object cut", ["start.o", "def.o", "-o", "out"], ["out"], "start.o", ("start", "def"))))
    jobs.append((1, lambda: f.cut("object with data cut", ["start.c", "def.o", "data.o", "-o", "out"], ["out"], "data.o", ("def", "data"))))
    for flag in ("-c", "-S", "-fabi=ms -c", "-fabi=ms -S", ""):
        src = "one.c" if flag else "start.c def.c"
        for o in ("/dev/full", "nodir/out.o", "adir.o", "one.c/out.o", "''"):
            jobs.append((0, lambda a=("output %s, %s" % (o, flag or "link"), "%s %s -o %s" % (flag, src, o)): f.real(*a)))
        for i in ("nothere.c", "adir.c", "needs.c", "missing.c", "one.c/x.c"):
            jobs.append((0, lambda a=("input %s, %s" % (i, flag or "link"), "%s %s -o out.o" % (flag, i)): f.real(*a)))
    for i in ("nothere.c", "adir.c", "needs.c", "missing.c"):
        jobs.append((0, lambda a=("input %s, -E" % i, "-E " + i): f.real(*a)))
    for i in ("nothere.o", "adir.o", "one.c/x.o"):
        jobs.append((0, lambda a=("input " + i, "start.c %s -o out" % i): f.real(*a)))
    for o in ("/dev/full", "nodir/out.d", "adir.o"):
        jobs.append((0, lambda a=("dependencies to " + o, "-c one.c -o out.o -MD -MF " + o): f.real(*a)))
        jobs.append((0, lambda a=("IR to " + o, "-c one.c -o out.o -fdump-ir=" + o): f.real(*a)))
    jobs.append((0, lambda: f.real("-E to a full disk", "-E one.c > /dev/full")))
    jobs.append((0, lambda: f.real("second of two outputs", "-c one.c adir.c")))
    jobs.sort(key=lambda j: -j[0])
    pmap(lambda j: j[1](), jobs)
    chk.samples = sorted(chk.samples, key=lambda s: -s["faults"])[:12]
    chk.extra.update(scenarios=len(jobs), runs=f.tot[0], operations=f.tot[1], faults_injected=f.tot[2], ended_with_an_error=f.tot[3], same_output=f.tot[4], exhaustive=True)


vlib.main(main, "C23",
          rule="every file operation (open, read, write, seek, close) of a compilation x every way it can fail (permission, no descriptors, I/O error, early end "
               "of file, full disk once or from then on, torn write, error at close, short transfer), alone and in pairs, x stream buffer sizes x modes and programs; every prefix of an object given "
               "to the linker; the run ends with an error and a message, or with exactly the fault-free output",
          assumptions=["the faults are injected below the C library's buffering, at its cookie streams, by a preloaded library"])
