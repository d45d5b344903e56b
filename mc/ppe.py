"""Runs batches of preprocessor texts through cc -E (and gcc -E) and splits the token
sequences per case. A case is a text; markers __Cn__ ; separate the cases."""
import os, re
from mc import vlib, cpp

SIMPLE = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, "'": 39, '"': 34, "?": 63}


def decode(s):
    """Spelling of a string or character constant -> (prefix, quote, code units / bytes)."""
    m = re.match(r"(u8|u|U|L)?(['\"])", s)
    pre, q, i, out = m.group(1) or "", m.group(2), m.end(), []
    wide = pre in ("u", "U", "L")
    body = s[m.end():-1]
    i = 0
    while i < len(body):
        c = body[i]
        if c == "\\":
            d = body[i + 1]
            if d in "01234567":
                j = i + 1
                while j < len(body) and j < i + 4 and body[j] in "01234567":
                    j += 1
                out.append(int(body[i + 1:j], 8))
                i = j
            elif d == "x":
                j = i + 2
                while j < len(body) and body[j] in "0123456789abcdefABCDEF":
                    j += 1
                out.append(int(body[i + 2:j], 16))
                i = j
            elif d in "uU":
                n = 4 if d == "u" else 8
                put(out, int(body[i + 2:i + 2 + n], 16), pre)
                i += 2 + n
            else:
                out.append(SIMPLE[d])
                i += 2
        else:
            # source bytes come in as latin1
            n = 1
            o = ord(c)
            if o >= 0xc0:
                n = 2 if o < 0xe0 else 3 if o < 0xf0 else 4
                try:
                    put(out, ord(body[i:i + n].encode("latin1").decode("utf8")), pre)
                except UnicodeDecodeError:
                    out.append(o)
                    n = 1
            else:
                out.append(o)
            i += n
    return pre, q, tuple(out)


def put(out, cp, pre):
    if pre in ("U", "L"):
        out.append(cp)
    elif pre == "u":
        if cp > 0xffff:
            out.append(0xd800 + ((cp - 0x10000) >> 10))
            cp = 0xdc00 + ((cp - 0x10000) & 0x3ff)
        out.append(cp)
    else:
        out.extend(chr(cp).encode("utf8"))


def canon(spells):
    """Canonical token list: strings decoded, adjacent strings concatenated."""
    out = []
    for s in spells:
        if s[-1] in "'\"" and len(s) > 1:
            p, q, u = decode(s)
            if p == "u8":
                p = ""
            if q == '"' and out and isinstance(out[-1], tuple) and out[-1][1] == '"':
                a = out[-1]
                if a[0] != p and (a[0] or p):
                    # re-encode ASCII only (sufficient for the alphabets used)
                    p = a[0] or p
                out[-1] = (p, '"', a[2] + u)
            else:
                out.append((p, q, u))
        else:
            out.append(s)
    return out


def split(text):
    res, cur = {}, None
    toks = cpp.tokenize(text)
    i = 0
    while i < len(toks):
        m = re.fullmatch(r"__C(\d+)__", toks[i].s)
        if m and i + 1 < len(toks) and toks[i + 1].s == ";":
            cur = res.setdefault(int(m.group(1)), [])
            i += 2
            continue
        if cur is not None:
            cur.append(toks[i].s)
        i += 1
    return res


class Runner:
    def __init__(self, chk, flags=()):
        self.chk, self.flags = chk, list(flags)
        self.n = 0

    def batch(self, texts):
        s = "".join("__C%d__ ;\n%s\n" % (i, t) for i, t in enumerate(texts))
        return s + "__C%d__ ;\n" % len(texts)

    def write(self, texts):
        with self.chk.lock:
            self.n += 1
            f = os.path.join(self.chk.work, "pp%d.c" % self.n)
        with open(f, "wb") as h:
            h.write(self.batch(texts).encode("latin1"))
        return f

    def gcc(self, texts):
        f = self.write(texts)
        import subprocess
        p = subprocess.run(["gcc", "-E", "-P", "-w", "-std=c2x" if "-std=c2x" in self.flags else "-std=c17", "-x", "c", f], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL)
        os.unlink(f)
        return split(p.stdout.decode("latin1"))

    def cc(self, texts):
        f = self.write(texts)
        rc, out = vlib.sh([self.chk.cc, "-E", f], 30)
        os.unlink(f)
        if rc != 0:
            return None, (rc, out[-300:].decode("latin1"))
        return split(out.decode("latin1")), None

    def run(self, cases, per=400):
        """cases: (key, text, expected spellings)."""
        def one(group):
            if self.chk.too_many():
                return
            got, err = self.cc([c[1] for c in group])
            if got is not None and len(group) in got:
                bad = [i for i, c in enumerate(group) if canon(got.get(i, [])) != canon(c[2])]
                for i in bad:
                    c = group[i]
                    g1, e1 = self.cc([c[1]])
                    alone = g1 is None or canon(g1.get(0, [])) != canon(c[2])
                    self.report(c, got.get(i, []), None, None if alone else group)
                return
            if len(group) == 1:
                self.report(group[0], None if got is None else got.get(0), err, None)
                return
            h = len(group) // 2
            n = len(self.chk.violations)
            one(group[:h])
            one(group[h:])
            if len(self.chk.violations) == n and not self.chk.too_many():
                self.report(group[0], None, err, group)
        vlib.pmap(one, vlib.chunks(cases, per))
        self.chk.count(len(cases), len(set(c[0] for c in cases)))

    def report(self, c, got, err, group):
        src = self.batch([x[1] for x in (group or [c])])
        self.chk.violation(c[0] + (" [combined]" if group else ""), "expected: %s\nobserved: %s%s" % (
            " ".join(c[2]), "(none)" if got is None else " ".join(got), "\n%s" % (err,) if err else ""),
            {"input.c": src.encode("latin1"),
             "run.sh": "#!/bin/sh\n${CC:-/repo/bin/cc} -E $(dirname \"$0\")/input.c\n"})
