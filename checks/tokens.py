#!/usr/bin/env python3
"""C17: tokenisation. All short character sequences (punctuation, pp-numbers, comments, splices,
literals) against an executable maximal-munch model that gcc agrees with."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import vlib, cpp, ppe
from mc.vlib import THOROUGH, PCase, Printer
import re

DI = {"<:": "[", ":>": "]", "<%": "{", "%>": "}", "%:": "#", "%:%:": "##"}
PUN = sorted(cpp.PUNCT + list(DI), key=lambda s: -len(s))
TOK = re.compile(cpp.TOK.pattern.replace("|".join(re.escape(p) for p in cpp.PUNCT), "|".join(re.escape(p) for p in PUN)), re.S | re.X)


def lex(text, splice=True):
    """Spellings after phases 2 and 3."""
    if splice:
        text = re.sub(r"\\\r?\n", "", text)
    # comments must not be seen inside literals: the alternation in TOK handles the order
    out = []
    for m in TOK.finditer(text):
        if m.lastgroup == "ws":
            continue
        out.append(DI.get(m.group(), m.group()))
    return out


def bad(toks):
    """Lone quotes are undefined behaviour."""
    return any(t in ("'", '"') or t == "''" for t in toks)


def texts():
    P = "+-*/%<>=!&|^~?:.#"
    P2 = P + ",;()[]{}"
    for n in (1, 2, 3) + ((4,) if THOROUGH else ()):
        for c in itertools.product(P, repeat=n):
            yield "".join(c)
    for c in itertools.product(P2, repeat=2):
        yield "".join(c)
    for c in itertools.product("<>:%#=-&|+.", repeat=4):
        if not THOROUGH and (hash_(c) % 3):
            continue
        yield "".join(c)
    # neighbours of every kind
    kinds = ["a", "1", "1e", ".5", '"s"', "'c'", "L", "u8", "u", "U", "e", "0x", "_", "1.", "LL", "p"]
    for a, b in itertools.product(kinds, repeat=2):
        if a[-1].isalnum() and a[0].isdigit() and b[0] == "'":
            continue
        for p in [""] + list(P):
            yield a + p + b
    for c in itertools.product(kinds, repeat=3):
        s = "".join(c)
        if re.search(r"[0-9.]\w*'", s):
            continue
        yield s
    # pp-numbers
    A = "01e+-.xpuL_a" if THOROUGH else "01e+.xpL-"
    for n in (1, 2, 3, 4):
        for c in itertools.product(A, repeat=n):
            yield "".join(c)
    for m in ("E", "e", "P", "p"):
        for s in ("1%s+1", "1%s-x", ".1%s+.2", "0x1%s+1", "1%s++", "1%s+%s-", "1.%s", "a%s+1", "1%s%s+2"):
            yield s.replace("%s", m)


def comment_texts():
    B = ["*", "/", "x", "\n", '"', "'", " "]
    for n in range(0, 6 if THOROUGH else 5):
        for c in itertools.product(B, repeat=n):
            b = "".join(c)
            yield "a/*" + b + "*/b"
            if n < 4:
                yield "a//" + b + "\nb"
                yield "a /*" + b + "*/ /*" + b[::-1] + "*/ b"
    for s in ('"/*" x "*/"', "'/*' y '*/'", '"//" z', "'//' w", 'a/**//**/b', "a/***/b", "a/**/+/**/+b", "x/**/y", "-/**/-", "a/*//*/b", "a//*\nb*//", "/*\n*/x", "a /\\\n* c *\\\n/ b",
              "a /\\\n/ c\nb", "a // c \\\n d\nb", "a // c ??/\n b", "a/ /b", "a/ *b", "a*/b", "a/*/*/b", "a /* \\\n */ b", "/**/", "//", "///**/", "/***//x", "a/*'*/b", 'a/*"*/b', "a//'\nb", 'a//"\nb',
              'a"//\\"/*"b', "a/*\r\n*/b", "a//\r\nb", "a\\\r\nb", "/*\xc3\xa9*/ a", "// \xc3\xa9\na"):
        yield s


SPLICE = ["abc", "1.5e+3", '"a\\n\\x41z"', "'\\''", "L'x'", 'u8"z"', "<<=", "...", "->", "a+++b", "x/* c */y", "p // q", "%:", "<:", "0x1p-3", "##", "if(a)b", '"/*"', "a ## b", ".5.", "u8", "1e+", "--x",
          "a?b:c", "'ab'", '"\\101"', "_x1", "&&=", "a\tb", '"\\\\"', "!==", 'L"w"', ">>=>", "+ +", "L\"\\u00e9\"" if False else "U'x'"]


def splice_texts():
    for s in SPLICE:
        n = len(s)
        for nl in ("\\\n", "\\\r\n"):
            for i in range(0, n + 1):
                yield s[:i] + nl + s[i:], s
                yield s[:i] + nl + nl + s[i:], s
            for i in range(n + 1):
                for j in range(i + 1, n + 1):
                    yield s[:i] + nl + s[i:j] + nl + s[j:], s
        for a in range(0, n + 1):
            # every character on a line of its own from a on
            yield s[:a] + "".join("\\\n" + c for c in s[a:]), s


def hash_(c):
    import zlib
    return zlib.crc32("".join(c).encode("latin1"))


def main(chk):
    R = ppe.Runner(chk)

    def stage(name, pairs, per=500, must=0.7):
        """pairs: (text, expected spellings or None when undefined)"""
        items, seen = [], set()
        for t, e in pairs:
            if t in seen or bad(e) or re.search(r"[.0-9][\w.]*'", re.sub(r"\\\r?\n", "", t)) or any(x in e for x in ("/*",)) or ("#" in t and t.lstrip().startswith(("#", "%:"))):
                continue
            if re.search(r"^\s*(#|%:)", re.sub(r"\\\r?\n", "", re.sub(r"/\*.*?\*/", " ", t, flags=re.S)), re.M):
                continue
            seen.add(t)
            items.append(("%s %r" % (name, t), "[\n| " + t + "\n]", ["[", "|"] + e + ["]"]))

        def cross(group):
            ref = R.gcc([c[1] for c in group])
            out = []
            for i, c in enumerate(group):
                r = [DI.get(x, x) for x in relex(ref.get(i, []))]
                if ppe.canon(r) == ppe.canon(c[2]):
                    out.append(c)
                elif os.environ.get("SHOW_GCC"):
                    print("gcc", repr(c[1]), r, c[2])
            return out
        kept = [c for g in vlib.pmap(cross, vlib.chunks(items, 500)) for c in g]
        if len(kept) < must * len(items):
            raise vlib.CheckError("%s: gcc agrees with the model on only %d of %d" % (name, len(kept), len(items)))
        chk.count(0, 0, sample=kept[len(kept) // 2][0] if kept else name)
        R.run(kept, per)
        chk.extra[name] = len(kept)
        chk.extra[name + "_not_judged"] = len(items) - len(kept)

    def relex(toks):
        """tokens split by the plain model: digraphs come apart, join them again"""
        out = []
        for t in toks:
            if out and out[-1] + t in DI and False:
                out[-1] += t
            else:
                out.append(t)
        return out

    # gcc prints digraphs as written; read its output with the full table
    old = ppe.cpp.tokenize

    def split_full(text):
        res, cur = {}, None
        toks = lex(text, False)
        i = 0
        while i < len(toks):
            m = re.fullmatch(r"__C(\d+)__", toks[i])
            if m and i + 1 < len(toks) and toks[i + 1] == ";":
                cur = res.setdefault(int(m.group(1)), [])
                i += 2
                continue
            if cur is not None:
                cur.append(toks[i])
            i += 1
        return res
    ppe.split = split_full

    stage("sequences", ((t, lex(t)) for t in texts() if "/*" not in t and "//" not in t))
    stage("comments", ((t, lex(t)) for t in comment_texts()), must=0.5)
    stage("splices", ((t, lex(s)) for t, s in splice_texts()))

    # whole files: line ends, BOM, white space, no final newline, long tokens
    body = 'a b\n#define X 1\nX "s"\n// c\nd\n#if 1\ne\n#endif\nf /* x\ny */ g\n'
    want = ["a", "b", "1", '"s"', "d", "e", "f", "g"]
    files = []
    for nl in ("\n", "\r\n"):
        for bom in ("", "\xef\xbb\xbf"):
            for tail in ("", nl, "h", "// z", "/* z */", "\\" + nl, "#define Z", "#", " ", "\t", "\f", "#undef X"):
                files.append((repr((nl, bom, tail)), bom + body.replace("\n", nl) + tail, want + (["h"] if tail == "h" else [])))
    for ws in (" ", "\t", "\f", "\v", "\r\n", "\n\n", " \t \f\v"):
        files.append(("ws %r" % ws, "a%sb%s+%s+%sc" % (ws, ws, ws, ws), ["a", "b", "+", "+", "c"]))
        if "\n" not in ws:
            files.append(("dws %r" % ws, "%s#%sdefine%sQ%s5%s\nQ" % (ws, ws, ws, ws, ws), ["5"]))
    for n in (1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1000, 4095, 4096, 5000, 70000):
        files.append(("ident %d" % n, "a" * n + " b", ["a" * n, "b"]))
        files.append(("num %d" % n, "1" * n + " b", ["1" * n, "b"]))
        files.append(("str %d" % n, '"%s" b' % ("x" * n), ['"%s"' % ("x" * n), "b"]))
        files.append(("comment %d" % n, "a /*" + "*" * n + "*/ b", ["a", "b"]))
        files.append(("lcomment %d" % n, "a //" + "/" * n + "\nb", ["a", "b"]))
        files.append(("toks %d" % n, "a " * min(n, 5000), ["a"] * min(n, 5000)))
        files.append(("lines %d" % n, "\n" * n + "__LINE__", [str(n + 1)]))
        files.append(("splines %d" % n, "a" + "\\\n" * min(n, 5000) + "b __LINE__", ["ab", str(min(n, 5000) + 1)]))

    def whole(f):
        if chk.too_many():
            return
        with chk.lock:
            R.n += 1
            p = os.path.join(chk.work, "w%d.c" % R.n)
        open(p, "wb").write(f[1].encode("latin1"))
        rc, out = vlib.sh([chk.cc, "-E", p], 20)
        os.unlink(p)
        if rc != 0 or ppe.canon(lex(out.decode("latin1"), False)) != ppe.canon(f[2]):
            chk.violation("file " + f[0], "expected %s got %s %s" % (str(f[2])[:200], rc, out[-300:]), {"input.c": f[1].encode("latin1")})
    vlib.pmap(whole, files)
    chk.count(len(files), len(files))

    # literals: bytes and types, through the compiled program
    pr = Printer(chk)
    cs = []

    def lit(s, pre):
        """A string literal expression: its size and bytes."""
        ts = {"L": "int", "u": "unsigned short", "U": "unsigned int"}
        t = ts.get(pre, "char")
        cs.append(PCase("str " + s, "const %s z[]=%s;o(sizeof z);ob(z,sizeof z);o(sizeof %s);ob(%s,sizeof z);" % (t, s, s, s),
                        glob="static const %s g@@[]=%s;" % (t, s) if False else ""))

    def chr_(s):
        cs.append(PCase("chr " + s, "o(%s);o(sizeof(%s));o(_Generic(%s,int:1,unsigned short:2,unsigned int:3,default:4));o(-1<(%s)*0);" % (s, s, s, s)))

    simple = ["\\'", '\\"', "\\?", "\\\\", "\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v"]
    octs = ["\\%o" % i for i in range(256)] + ["\\%03o" % i for i in range(0, 256, 7)] + ["\\%02o" % i for i in range(0, 64, 5)]
    hexs = ["\\x%x" % i for i in range(256)] + ["\\x%02X" % i for i in range(0, 256, 9)] + ["\\x00000041"]
    ucns = ["\\u%04x" % i for i in (0xa0, 0xe9, 0x7ff, 0x800, 0x1234, 0xd7ff, 0xe000, 0xffff, 0x24, 0x40, 0x60)] + ["\\U%08x" % i for i in (0xa0, 0x7ff, 0x800, 0xffff, 0x10000, 0x12345, 0x10ffff, 0x1f600)]
    raw = ["\u00e9", "\u07ff", "\u0800", "\u20ac", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "a", "?", "/", "//", "/*", "*/", "#", "@", "$", "`", "\t", " ", "??", "???", "%:", "}", "'"]
    printable = [chr(c) for c in range(32, 127) if chr(c) not in '"\\']
    for p in ("", "u8", "L", "u", "U"):
        for e in simple + octs + hexs + ucns + raw + printable + [""]:
            if p and e in octs[30:220] + hexs[30:220] and not THOROUGH:
                continue
            lit('%s"%s"' % (p, e), p)
            if p != "u8" and e and e != "'" and not (e in raw + ucns and p in ("", "u") and len(e.encode("utf8")) != 1 and (p == "" or ord(e[0]) > 0xffff or e.startswith("\\U0001") or e.startswith("\\U0010"))):
                if e in ("//", "/*", "*/", "??", "???", "%:"):
                    if p:
                        continue
                chr_("%s'%s'" % (p, e))
        for e in simple[:4] + ["\\0", "\\12", "\\123", "\\x4", "\\x41", "\\u00e9", "\\U00012345", "\u20ac", "z", "\\377"]:
            for f in ["1", "a", "8", "\\0", "\\1", "\\x2", "z", "\\\\", "\\u00e9", "u0041", "\\\\u00e9", "\n"[:0] + "U"]:
                lit('%s"%s%s"' % (p, e, f), p)
                lit('%s"%s" "%s"' % (p, e, f), p)
                lit('"%s" %s"%s"' % (e, p, f), p)
                lit('%s"%s" /* c */\n%s"%s"' % (p, e, p, f), p)
                if THOROUGH or f in ("1", "\\0", "\\\\"):
                    lit('%s"%s" "" "%s" "q"' % (p, e, f), p)
    for w in ("L", "u", "U"):
        for h in ("\\x100", "\\xffff", "\\x1234", "\\777", "\\400") + (("\\x10000", "\\xffffffff", "\\x7fffffff", "\\x80000000") if w != "u" else ()):
            lit('%s"%s"' % (w, h), w)
            chr_("%s'%s'" % (w, h))
            lit('"a" %s"%s" "b"' % (w, h), w)
    multi = ["a", "b", "\\0", "\\n", "\\'", "7"]
    for n in (2, 3, 4):
        for c in itertools.product(multi, repeat=n):
            if n == 4 and not THOROUGH and hash_(c) % 8:
                continue
            if "\\0" in c and any(x == "7" for x in c):
                continue
            chr_("'%s'" % "".join(c))
    pr.run(cs, 400)
    chk.extra["literals"] = len(cs)

    # identifiers: UCNs and UTF-8 name the same thing; keywords are whole words
    cs = []
    kw = "auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while".split()
    for k in kw:
        for n in ("_" + k, k + "_", k.upper(), k + "1", k[:-1] + "_" if len(k) > 1 else k, k + k, "x" + k):
            cs.append(PCase("ident " + n, "int %s=3;int %sz=4;o(%s+%sz);" % (n, n, n, n)))
    for a, b in (("\\u00e9", "\u00e9"), ("\\U00012213", "\U00012213"), ("a\\u1234b", "a\u1234b"), ("\\u00e9\\u00ea", "\u00e9\u00ea"), ("x\\U0001f600", "x\U0001f600")):
        cs.append(PCase("ucn " + a, "int %s=5;o(%s);{int %s=6;o(%s);}o(%s);" % (a, b, b, a, a)))
    for n in (1, 31, 32, 63, 64, 255, 256, 1000, 5000):
        cs.append(PCase("long ident %d" % n, "int %sx=1,%sy=2;o(%sx);o(%sy);" % (("q" * n,) * 4)))
    cs.append(PCase("digraphs", "int a<:3:>=<%1,2,3%>;o(a<:1:>);", glob="%:define DG(x) %:x\n%:define DG2(x,y) x%:%:y\n"))
    cs.append(PCase("digraphs2", "os(DG3(z));o(DG4(1,2));", glob="%:define DG3(x) %:x\n%:define DG4(x,y) x%:%:y\n"))
    cs.append(PCase("digraph str", "os(DG5(<:));os(DG5(%>));os(DG5(<::>));os(DG5([));", glob="#define DG5(x) #x\n"))
    pr.run(cs, 60)


vlib.main(main, "C17", "exploration",
          rule="every character sequence up to the stated length over punctuation/number/comment alphabets, every splice position, "
               "every escape with every prefix and neighbour; judged where gcc and the maximal-munch model agree",
          assumptions=["lone quotes (undefined) and C23 digit separators directly followed by a character constant are not judged"])
