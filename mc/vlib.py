"""Shared machinery of the checks: builds the compiler from /repo's working tree, runs
enumerated cases through it, compares with the oracle, reports."""
import concurrent.futures as cf
import threading, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NPROC = max(2, min(8, os.cpu_count() or 4))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"

GCCFLAGS = ["-w", "-std=gnu11", "-O0", "-fwrapv", "-fno-strict-aliasing", "-fno-builtin",
            "-fno-stack-protector", "-fcf-protection=none", "-ffloat-store"]

CONFIG = '''
static const char *default_include[] = {
	"%s/include/linux/",
	"/usr/include/",
	"/usr/include/x86_64-linux-gnu/",
	NULL
};
static const char *default_defs[] = { "__linux", NULL };
static enum { ABI_SYSV, ABI_MICROSOFT } abi = ABI_SYSV;
static int mingw_workarounds = 0;
'''


class CheckError(Exception):
    pass


def sources():
    return sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))


def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO + "/src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def build_cc(flags=("-O1", "-g"), tag="cc"):
    """Compile /repo/src's current working tree with gcc into /verif/build/<hash>."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, tag + "-" + tree_hash())
    exe = os.path.join(d, "cc")
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, tag + "-*")):
        if not old.startswith(d) and time.time() - os.path.getmtime(old) > 7200:
            shutil.rmtree(old, ignore_errors=True)
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp + "/cfg", exist_ok=True)
    open(tmp + "/cfg/vconfig.h", "w").write(CONFIG % REPO)

    def one(src):
        obj = os.path.join(tmp, os.path.relpath(src, REPO + "/src").replace("/", "_") + ".o")
        r = subprocess.run(["gcc", "-w", *flags, "-I" + REPO + "/src", "-I" + tmp + "/cfg",
                            '-DCONFIG_PATH="vconfig.h"', "-c", src, "-o", obj],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("build of %s failed:\n%s" % (src, r.stdout))
        return obj
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, sources()))
    r = subprocess.run(["gcc", *flags, "-o", tmp + "/cc", *objs], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("link failed:\n" + r.stdout)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def sh(cmd, timeout=60, cwd=None, inp=None, mem_gb=4, env=None):
    """Run a command (list) with limits on CPU time (seconds) and memory. -> (rc, out bytes);
    rc None = it ran out of time. CPU time, so that a loaded machine makes no difference."""
    full = ["prlimit", "--as=%d" % (mem_gb << 30), "--core=0", "--cpu=%d" % timeout, "--"] + list(cmd)
    p = subprocess.Popen(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         cwd=cwd, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(inp, timeout=timeout * 6 + 30)
        return (None if p.returncode in (-24, -9) else p.returncode), out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
    return None, b"<timeout>"


def pmap(fn, items, n=NPROC):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


class Check:
    def __init__(self, pid, level="exploration", rule="", assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.violations = []          # (key, what, replaydir)
        self.known_hit = {}
        self.evaluations = 0
        self.distinct = set()
        self.ndistinct = 0
        self.samples = []
        self.extra = {}
        self.states = self.transitions = self.traces = 0
        self.known = {}
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d.get("property") == pid and d.get("status") == "known":
                        self.known[d["key"]] = d
        self.replay_root = os.path.join(VERIF, "replay", pid)
        shutil.rmtree(self.replay_root, ignore_errors=True)
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.cc = build_cc()
        self.maxviol = 25
        self.lock = threading.Lock()

    # -- bookkeeping
    def count(self, n=1, nontrivial=None, sample=None):
        self.evaluations += n
        if nontrivial is not None:
            self.ndistinct += nontrivial
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def violation(self, key, what, files=None):
        with self.lock:
            self._violation(key, what, files)

    def _violation(self, key, what, files):
        key = key.strip()
        if key in self.known and self.known[key].get("observed", "") in what:     # known, and fails as it was known to
            self.known_hit[key] = self.known[key]["what"]
            return
        if any(v[0] == key for v in self.violations):
            return
        n = len(self.violations)
        d = os.path.join(self.replay_root, "%03d" % n)
        if n < (20000 if os.environ.get("VERIF_ALL") else 200):
            os.makedirs(d, exist_ok=True)
            for name, data in (files or {}).items():
                mode = "wb" if isinstance(data, bytes) else "w"
                with open(os.path.join(d, name), mode, **({} if mode == "wb" else {"encoding": "utf8"})) as f:
                    f.write(data)
            with open(os.path.join(d, "what.txt"), "w") as f:
                f.write("property %s\ncase: %s\n%s\n" % (self.pid, key, what))
        self.violations.append((key, what, d))
        if n < self.maxviol:
            sys.stdout.write("VIOLATION property=%s replay=%s\n  case: %s\n  %s\n" % (
                self.pid, d, key[:400], what[:600].replace("\n", "\n  ")))
            sys.stdout.flush()

    def too_many(self, n=60):
        if os.environ.get("VERIF_ALL"):
            return False
        return len(self.violations) >= n

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        for k, w in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        cov = {"samples": self.samples[:12] or ["(none)"], "rule": self.rule}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces)
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=self.ndistinct)
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s: %d violation(s), %d known, %s, %.1fs" % (
            self.pid, len(self.violations), len(self.known_hit),
            {k: v for k, v in cov.items() if isinstance(v, (int, bool))}, time.time() - self.t0))
        return 1 if self.violations else 0


def main(fn, *a, **kw):
    """fn(check) runs the exploration."""
    c = None
    try:
        c = Check(*a, **kw)
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK ERROR:", e)
        rc = 2
        if c:
            shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


# ---------------------------------------------------------------------------- print mode
RT_H = "void o(unsigned long long);void od(double);void os(const char*);void ob(const void*,unsigned long long);void onl(void);\n"
RT_C = r'''
#include <stdio.h>
#include <string.h>
void o(unsigned long long v){printf("%llx ",v);}
void od(double d){unsigned long long v;if(d!=d)printf("nan ");else{memcpy(&v,&d,8);printf("d%llx ",v);}}
void os(const char*s){printf("%s ",s);}
void ob(const void*p,unsigned long long n){const unsigned char*c=p;while(n--)printf("%02x",*c++);printf(" ");}
void onl(void){printf("\n");}
void mark(int n){printf("\n@%d:",n);fflush(stdout);}
'''


def agrees(exp, got):
    return exp(got) if callable(exp) else got == exp


class PCase:
    """One enumerated program fragment. glob: file-scope code; body: function body, prints through
    the runtime. expect: expected output (model oracle) or None (the reference compiler's) or a predicate on the
    output (a model that allows several outcomes; its doc string is shown)."""
    __slots__ = ("key", "glob", "body", "expect", "steps")

    def __init__(self, key, body, glob="", expect=None):
        self.key, self.body, self.glob, self.expect = key, body, glob, expect


def tu(cases, prelude="", lo=0):
    s = [RT_H, "void mark(int);\n", prelude, "\n"]
    for i, c in enumerate(cases):
        s.append("%s\nvoid case_%d(void){%s}\n" % (c.glob.replace("@@", str(i)), i, c.body.replace("@@", str(i))))
    s.append("int main(void){\n")
    for i in range(len(cases)):
        s.append("mark(%d);case_%d();\n" % (i, i))
    s.append("mark(-1);return 0;}\n")
    return "".join(s)


def parse_marks(out):
    r = {}
    for m in re.finditer(r"@(-?\d+):([^@]*)", out.decode("latin1")):
        r[int(m.group(1))] = m.group(2).strip()
    return r


class Printer:
    def __init__(self, chk, prelude="", ccflags=(), via="obj", gccflags=(), exe_timeout=20, win=None):
        self.chk, self.prelude, self.ccflags, self.via = chk, prelude, list(ccflags), via
        self.gccflags = list(gccflags)
        self.dir = tempfile.mkdtemp(dir=chk.work)
        self.exe_timeout = exe_timeout
        self.n = 0
        self.win = win      # a win.Wine: code for Windows, next to the mingw compiler's
        self.gcc = "x86_64-w64-mingw32-gcc" if win else "gcc"
        self.link = [self.gcc, "-no-pie"] + ([] if win else ["-z", "noexecstack"])
        rt = os.path.join(chk.work, "rtwin.o" if win else "rt.o")
        if not os.path.exists(rt):
            open(os.path.join(chk.work, "rt.c"), "w").write(RT_C)
            rc, out = sh([self.gcc, "-w", "-O1", "-D__USE_MINGW_ANSI_STDIO=1", "-c", os.path.join(chk.work, "rt.c"), "-o", rt])
            if rc:
                raise CheckError("rt.c: %r" % out)
        self.rt = rt

    def name(self):
        self.n += 1
        import threading
        return os.path.join(self.dir, "t%d_%d" % (threading.get_ident(), self.n))

    def run_cc(self, src):
        """-> (error or None, stdout)"""
        b = self.name()
        open(b + ".c", "w", encoding="utf8").write(src)
        try:
            if self.via == "obj":
                rc, out = sh([self.chk.cc, *self.ccflags, "-c", b + ".c", "-o", b + ".o"], 60)
                obj = b + ".o"
            else:
                rc, out = sh([self.chk.cc, *self.ccflags, "-S", b + ".c", "-o", b + ".s"], 60)
                obj = b + ".s"
            if rc != 0:
                return "compiler %s: %s" % ("timed out" if rc is None else "exit %d" % rc, out[-300:].decode("latin1")), b""
            rc, out = sh([*self.link, "-o", b + ".x", obj, self.rt, "-lm"], 60)
            if rc != 0:
                return "link: " + out[-500:].decode("latin1"), b""
            rc, out = self.win.run(b + ".x", self.exe_timeout) if self.win else sh([b + ".x"], self.exe_timeout)
            return (None if rc == 0 else "run " + ("timed out" if rc is None else "exit %d" % rc)), out
        finally:
            for e in (".c", ".o", ".s", ".x"):
                try:
                    os.unlink(b + e)
                except OSError:
                    pass

    def run_gcc(self, src):
        b = self.name()
        open(b + ".c", "w", encoding="utf8").write(src)
        try:
            rc, out = sh([self.gcc, *GCCFLAGS, *self.gccflags, "-o", b + ".x", b + ".c", self.rt, "-lm"], 120)
            if rc != 0:
                raise CheckError("reference compiler rejects generated program: %s\n%s" % (out[-2000:].decode("latin1"), b))
            rc, out = self.win.run(b + ".x", 20) if self.win else sh([b + ".x"], 20)
            if rc != 0:
                raise CheckError("reference run failed rc=%s\n%s" % (rc, src[:3000]))
            return out
        finally:
            for e in (".c", ".x"):
                try:
                    os.unlink(b + e)
                except OSError:
                    pass

    def run(self, cases, per=200):
        """Run all cases; report mismatches."""
        outs = set()
        def work(group):
            if self.chk.too_many():
                return
            need_ref = any(c.expect is None for c in group)
            ref = parse_marks(self.run_gcc(tu(group, self.prelude))) if need_ref else {}
            exp = [c.expect if c.expect is not None else ref.get(i, "") for i, c in enumerate(group)]
            self.compare(group, exp, outs)
        pmap(work, chunks(cases, per))
        self.chk.count(len(cases), len(outs))
        return outs

    def compare(self, group, exp, outs, depth=0):
        if self.chk.too_many():
            return
        err, out = self.run_cc(tu(group, self.prelude))
        got = parse_marks(out)
        if -1 not in got and err is None:
            err = "program ended early"
        if err is None:
            bad = []
            for i, c in enumerate(group):
                outs.add((c.key, exp[i]) if False else c.key)
                if not agrees(exp[i], got.get(i)):
                    bad.append(i)
            for i in bad:
                if len(group) == 1 or not self.single(group[i], exp[i]):
                    self.report(group[i], exp[i], got.get(i), None, group if len(group) > 1 else None)
            return
        if len(group) == 1:
            self.report(group[0], exp[0], got.get(0), err, None)
            return
        if err.startswith("run"):
            done = sorted(k for k in got if k >= 0)
            k = done[-1] if done else 0
            # the case that crashed, alone
            nv = len(self.chk.violations) + len(self.chk.known_hit)
            self.compare(group[:k], exp[:k], outs, depth + 1) if k else None
            self.compare([group[k]], [exp[k]], outs, depth + 1)
            if len(self.chk.violations) + len(self.chk.known_hit) == nv and not self.passes(group, exp):
                self.report(group[k], exp[k], got.get(k), err + " (only in combination)", group)
            if k + 1 < len(group):
                self.compare(group[k + 1:], exp[k + 1:], outs, depth + 1)
            return
        h = len(group) // 2
        nv = len(self.chk.violations) + len(self.chk.known_hit)
        self.compare(group[:h], exp[:h], outs, depth + 1)
        self.compare(group[h:], exp[h:], outs, depth + 1)
        if len(self.chk.violations) + len(self.chk.known_hit) == nv and not self.passes(group, exp):
            self.report(group[0], exp[0], None, err + " (only in combination of %d)" % len(group), group)

    def passes(self, group, exp):
        """Once more: a combination can fail as the machine is busy."""
        err, out = self.run_cc(tu(group, self.prelude))
        got = parse_marks(out)
        return err is None and -1 in got and all(agrees(e, got.get(i)) for i, e in enumerate(exp))

    def single(self, c, e):
        """Does the case fail alone too? reports and returns True if so."""
        err, out = self.run_cc(tu([c], self.prelude))
        got = parse_marks(out)
        if err is None and agrees(e, got.get(0)) and -1 in got:
            return False
        self.report(c, e, got.get(0), err, None)
        return True

    def report(self, c, e, got, err, group):
        src = tu(group or [c], self.prelude)
        e = e.__doc__ if callable(e) else e
        cmd = "#!/bin/sh\n# cc is built from /repo/src\nD=$(dirname \"$0\")\n%s %s -c $D/input.c -o /tmp/replay.o && gcc -no-pie -o /tmp/replay.x /tmp/replay.o $D/rt.c -lm && /tmp/replay.x\n" % (
            "${CC:-/repo/bin/cc}", " ".join(self.ccflags))
        key = c.key if not group else c.key + " [combined]"
        self.chk.violation(key, "expected: %s\nobserved: %s%s" % (e, got, ("\n" + err) if err else ""),
                           {"input.c": src, "rt.c": RT_C, "run.sh": cmd, "expected.txt": str(e), "observed.txt": str(got)})
