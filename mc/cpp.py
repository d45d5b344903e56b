"""Executable model of C17 6.10.3 macro replacement (Prosser's hide-set algorithm with
placemarkers) and of 6.4 tokenisation, used by the preprocessor checks."""
import re

PUNCT = sorted("[ ] ( ) { } . -> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? : ; ... "
               "= *= /= %= += -= <<= >>= &= ^= |= , # ##".split(), key=lambda s: -len(s))
TOK = re.compile(r'''(?P<ws>(?:[ \t\f\v\n]|/\*.*?\*/|//[^\n]*)+)
|(?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*")
|(?P<chr>(?:u|U|L)?'(?:\\.|[^'\\\n])*')
|(?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])*)
|(?P<id>[A-Za-z_\x80-\xff][A-Za-z_0-9\x80-\xff]*)
|(?P<pun>%s)
|(?P<oth>.)''' % "|".join(re.escape(p) for p in PUNCT), re.S | re.X)


class Undefined(Exception):
    """The C standard gives the text no single meaning (or it is an error)."""


class Tok:
    __slots__ = ("s", "k", "ws", "hs")

    def __init__(self, s, k, ws=False, hs=frozenset()):
        self.s, self.k, self.ws, self.hs = s, k, ws, hs

    def __repr__(self):
        return self.s


def tokenize(text):
    out, ws = [], False
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k == "ws":
            ws = True
            continue
        out.append(Tok(m.group(), k, ws))
        ws = False
    return out


def spellings(text):
    return [t.s for t in tokenize(text)]


class Macro:
    def __init__(self, name, params, variadic, body):
        self.name, self.params, self.variadic, self.body = name, params, variadic, body


def parse_define(line):
    """line: text after '#define '."""
    m = re.match(r"([A-Za-z_]\w*)(\(([^()]*)\))?", line)
    name = m.group(1)
    params, variadic = None, False
    if m.group(2):
        ps = [p.strip() for p in m.group(3).split(",")] if m.group(3).strip() else []
        if ps and ps[-1] == "...":
            variadic = True
            ps[-1] = "__VA_ARGS__"
        params = ps
    body = tokenize(line[m.end():])
    if body:
        body[0].ws = False
    M = Macro(name, params, variadic, body)
    if body and (body[0].s == "##" or body[-1].s == "##"):
        raise Undefined("## at an edge")
    if params is not None:
        for i, t in enumerate(body):
            if t.s == "#" and not (i + 1 < len(body) and body[i + 1].s in params):
                raise Undefined("# without parameter")
    if any(t.s == "__VA_ARGS__" for t in body) and not variadic:
        raise Undefined("__VA_ARGS__")
    return M


def strize(arg):
    s = '"'
    for i, t in enumerate(arg):
        if i and t.ws:
            s += " "
        s += t.s.replace("\\", "\\\\").replace('"', '\\"') if t.k in ("str", "chr") else t.s
    s += '"'
    n = tokenize(s)
    if len(n) != 1 or n[0].k != "str":
        raise Undefined("invalid stringification")
    return s


def glue(a, b):
    if a is None or a.k == "place":
        return b
    if b.k == "place":
        return a
    toks = tokenize(a.s + b.s)
    if len(toks) != 1 or toks[0].k == "oth" or (a.s + b.s) in ("//", "/*"):
        raise Undefined("invalid paste")
    return Tok(a.s + b.s, toks[0].k, a.ws, a.hs & b.hs)


class Cpp:
    def __init__(self, macros=(), fuel=4000):
        self.m = {x.name: x for x in macros}
        self.fuel0 = fuel
        self.steps = 0

    def run(self, text):
        self.fuel = self.fuel0
        return self.expand(tokenize(text), True)

    def expand(self, ts, top=False):
        ts = list(reversed(ts))
        out = []
        while ts:
            self.fuel -= 1
            self.steps += 1
            if self.fuel < 0 or len(ts) > 500:
                raise Undefined("too large")
            t = ts.pop()
            M = self.m.get(t.s) if t.k == "id" and t.s not in t.hs else None
            if M is None:
                out.append(t)
                continue
            if M.params is None:
                r = self.subst(M, {}, t.hs | {t.s}, t)
                ts.extend(reversed(r))
                continue
            if not ts or ts[-1].s != "(":
                out.append(t)
                continue
            # collect arguments
            i = len(ts) - 2
            args, cur, depth = [], [], 1
            while True:
                if i < 0:
                    raise Undefined("unterminated argument list")
                x = ts[i]
                i -= 1
                if x.s == "(":
                    depth += 1
                elif x.s == ")":
                    depth -= 1
                    if not depth:
                        close = x
                        break
                elif x.s == "," and depth == 1:
                    if not (M.variadic and len(args) >= len(M.params) - 1):
                        args.append(cur)
                        cur = []
                        continue
                cur.append(x)
            args.append(cur)
            if len(M.params) == 0 and len(args) == 1 and not args[0]:
                args = []
            if len(args) != len(M.params):
                raise Undefined("argument count")
            del ts[i + 1:]
            r = self.subst(M, dict(zip(M.params, args)), (t.hs & close.hs) | {t.s}, t)
            ts.extend(reversed(r))
        return out

    def subst(self, M, args, hs, origin):
        os, b, i = [], M.body, 0
        place = Tok("", "place")
        def copy(t, ws=None):
            return Tok(t.s, t.k, t.ws if ws is None else ws, t.hs)
        def raw(t):
            a = args[t.s]
            if not a:
                return [Tok("", "place", t.ws)]
            return [copy(a[0], t.ws)] + [copy(x) for x in a[1:]]
        while i < len(b):
            t = b[i]
            nxt = b[i + 1].s if i + 1 < len(b) else None
            if t.s == "#" and M.params is not None:
                os.append(Tok(strize(args[b[i + 1].s]), "str", t.ws))
                i += 2
                continue
            if t.s == "##":
                i += 1
                t = b[i]
                if t.s == "#" and M.params is not None:
                    right = [Tok(strize(args[b[i + 1].s]), "str", t.ws)]
                    i += 1
                elif t.s in args:
                    right = raw(t)
                else:
                    right = [copy(t)]
                left = os.pop() if os else place
                os.append(glue(left, right[0]))
                os.extend(right[1:])
                i += 1
                continue
            if t.s in args:
                if nxt == "##":
                    os.extend(raw(t))
                else:
                    e = self.expand([copy(x) for x in args[t.s]])
                    if e:
                        e = [copy(e[0], t.ws)] + e[1:]
                    os.extend(e)
                i += 1
                continue
            os.append(copy(t))
            i += 1
        os = [x for x in os if x.k != "place"]
        r = [Tok(x.s, x.k, x.ws, x.hs | hs) for x in os]
        if r:
            r[0].ws = origin.ws
        return r
