#!/usr/bin/env python3
"""plant.py FILE: try the planted bugs FILE defines, keep those that count in /verif/seeded.

FILE sets BUGS = [(id, property, needs, breaks, [(path, old, new)...], demo)...]; demo is a C
program that main returns nonzero from when miscompiled, or a shell script (starts with #!), or
a dict of file names to contents with demo.sh in it."""
import json, os, re, shutil, subprocess, sys
SEED = "/verif/seeded"
# everything happens in a scratch copy of /repo, with copies of its build and test scripts
REPO, VP = "/tmp/plantrepo", "/tmp/plantvp"
shutil.rmtree(REPO, ignore_errors=True)
shutil.rmtree(VP, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", REPO], check=True)
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO, check=True)
os.makedirs(VP)
for _f in os.listdir("/opt/vp"):
    if os.path.isfile("/opt/vp/" + _f):
        _t = open("/opt/vp/" + _f).read()
        open(VP + "/" + _f, "w").write(_t.replace("/opt/vp", VP).replace("/repo", REPO))
C_DEMO = '''#!/bin/bash
# Compiles demo.c with bin/cc, and runs it. Exits with 0 if it behaves as C prescribes.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -r "$t"' EXIT
timeout 60 bin/cc -c "$d/demo.c" -o "$t/demo.o" || exit 2
gcc -no-pie "$t/demo.o" -o "$t/demo" -lm || exit 3
timeout 60 "$t/demo"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd=REPO, **k)
def build():
    return sh("bash " + VP + "/build.sh").returncode == 0
def demo(d):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, capture_output=True, text=True, timeout=300).returncode
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
assert not sh("git status --porcelain --untracked-files=no").stdout.strip(), "repo not clean"
for (bid, prop, needs, breaks, edits, dm) in ns["BUGS"]:
    if only and bid not in only: continue
    if not only and os.path.exists(SEED + "/" + bid + "/meta.json"): continue
    d = SEED + "/" + bid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if isinstance(dm, str):
        dm = {"demo.sh": dm} if dm.startswith("#!") else {"demo.c": dm, "demo.sh": C_DEMO}
    for f, t in dm.items():
        open(d + "/" + f, "w").write(t)
    ok = None
    try:
        build()
        r0 = demo(d)
        if r0 != 0:
            ok = "demo fails unchanged: %d" % r0
            continue
        for path, old, new in edits:
            t = open(REPO + "/" + path).read()
            if t.count(old) != 1:
                ok = "%s: %d matches of %r" % (path, t.count(old), old); break
            for l in old.split("\n"):
                pass
            open(REPO + "/" + path, "w").write(t.replace(old, new))
        if ok: continue
        diff = sh("git diff").stdout
        # which removed lines are original?
        first = sh("git rev-list --max-parents=0 HEAD").stdout.strip()
        orig = False
        for path, old, new in edits:
            cur = None
            for l in sh("git diff -U0 -- " + path).stdout.splitlines():
                m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    if n:
                        b = sh("git blame -l -s -L %d,%d HEAD -- %s" % (a, a + n - 1, path)).stdout
                        orig |= any(x.startswith("^") for x in b.splitlines())
        if not build():
            ok = "does not build"; continue
        r1 = demo(d)
        if r1 == 0:
            ok = "demo passes with the patch"; continue
        t = sh("bash " + VP + "/test.sh /tmp/plant.json").stdout.strip().splitlines()[-1:]
        if t != ["244 passed, 0 failed"]:
            ok = "tests notice: %s" % t
            try: ok += " " + " ".join(json.load(open("/tmp/plant.json"))["failed"][:4])
            except Exception: pass
            continue
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        ok = "KEPT (demo %d)%s" % (r1, "" if orig else " BUT NO ORIGINAL LINE REMOVED")
    finally:
        print(bid, ok, flush=True)
        sh("git checkout -- .")
        if not (ok or "").startswith("KEPT"):
            shutil.rmtree(d, ignore_errors=True)
shutil.rmtree(REPO, ignore_errors=True)
shutil.rmtree(VP, ignore_errors=True)
