import sys, os, itertools, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *
from flow import *

# three variables, any of them kept in memory because its address is taken
for _m in ("", "x", "z", "xy", "yz", "xyz"):
    DECL3 = globals().setdefault("DECL3", {})
    DECL3["3" + _m] = "%s%%(t)s f@(void){typedef %%(t)s V;V x=1,y=2,z=5;%s%%(s)s Y(y);return x*3;}" % ("static %(t)s " + ",".join("*p%s@" % v for v in _m) + ";" if _m else "", "".join("p%s@=&%s;" % (v, v) for v in _m))

# ways in which the two variables are stored: promoted to registers, kept in memory, parameters, globals
DECL = {
    "int": "%(t)s f@(void){typedef %(t)s V;V x=1,y=2;%(s)s Y(y);return x*3;}",
    "mem": "static %(t)s *p@,*q@;%(t)s f@(void){typedef %(t)s V;V x,y;p@=&x;q@=&y;*p@=1;*q@=2;%(s)s Y(y);return x*3;}",
    "mx": "static %(t)s *p@;%(t)s f@(void){typedef %(t)s V;V x,y;p@=&x;*p@=1;y=2;%(s)s Y(y);return x*3;}",
    "my": "static %(t)s *p@;%(t)s f@(void){typedef %(t)s V;V y,x;x=1;p@=&y;*p@=2;%(s)s Y(*p@);return x*3;}",
    "par": "static %(t)s g@(%(t)s x,%(t)s y){typedef %(t)s V;%(s)s Y(y);return x*3;}%(t)s f@(void){return g@(1,2);}",
    "glb": "static %(t)s x@,y@;%(t)s f@(void){typedef %(t)s V;x@=1;y@=2;\n#define x x@\n#define y y@\n%(s)s Y(y);return x*3;\n#undef x\n#undef y\n}",
}

# control reaches the } of a function that returns a value nobody uses (6.9.1p12), next to paths that return
for _k, _rt, _v in (("i", "int", "7"), ("c", "signed char", "7"), ("d", "double", "2.5"), ("s", "struct fs@", "fsv@"), ("b", "struct fb@", "fbv@"), ("p", "char*", "0")):
    DECL["fall" + _k] = ("static %(t)s r@;struct fs@{short a,b;};struct fb@{long a[4];};static struct fs@ fsv@;static struct fb@ fbv@;static RT g@(void){typedef %(t)s V;V x=1,y=2;\n"
                         "#define return r@=x*5;return RV;\n%(s)s Y(y);r@=x*3;\n#undef return\n}%(t)s f@(void){r@=0;g@();return r@;}").replace("RT", _rt).replace("RV", _v)

DECL.update(DECL3)


def assigns(n):
    """n assignments among three variables in loop and branch skeletons"""
    al = [("M", a, b, None) for a in "xyz" for b in "xyz" if a != b] + [("M", a, b, c) for a, b, c in (("x", "y", "z"), ("y", "x", "y"), ("z", "z", "x"), ("x", "x", "x"), ("z", "y", "y"), ("y", "z", "x"))]
    S = lambda *a: a[0] if len(a) == 1 else (";", a[0], S(*a[1:]))
    for t in itertools.product(al, repeat=n):
        for sk in (lambda s: ("do", 0, S(*s)), lambda s: ("wh", 0, S(*s)), lambda s: S(("wh", 0, S(*s[:-1])), s[-1]), lambda s: ("wh", 0, S(s[0], ("if", 0, S(*s[1:])))),
                   lambda s: ("do", 0, S(("ie", 0, s[0], S(*s[1:])))), lambda s: S(s[0], ("ie", 0, s[1], S(*s[2:]) if len(s) > 2 else s[0])), lambda s: ("do", 0, S(("if", 0, s[0]), *s[1:]))):
            yield (";", sk(t), ("Z",))


def make(job):
    """(trees, type, storage, depth) -> programs with all their executions"""
    ts, t, st, depth = job
    out, states, trans = [], 0, 0
    for tree in ts:
        tr = number(tree)
        p = Prog(tr)
        ex, steps = executions(p, t, depth)
        states += steps
        trans += sum(len(b) for b, _ in ex) + len(ex)
        body = ctext(tr)
        out.append(("%s %s %s" % (t, st, body), DECL[st] % {"t": t, "s": body}, ex))
    return out, states, trans


def flowchart(n, terms, acts):
    """lowered flowchart: blocks with an action and a terminator (i,j): if(in()) goto Bi else goto Bj"""
    p = Prog.__new__(Prog)
    p.code = []
    text = []
    at = {}
    pend = []
    for b in range(n):
        at[b] = len(p.code)
        p.code.append(acts[b])
        p.code.append(("T", b + 1))
        i, j = terms[b]
        pend.append((len(p.code), i, j))
        p.code += [None, None]
    at[n] = len(p.code)
    p.code.append(("ret", 1))
    for pc, i, j in pend:
        p.code[pc] = ("bz", 0, at[j])
        p.code[pc + 1] = ("jmp", at[i])
    for b in range(n):
        i, j = terms[b]
        text.append("B%d:%s T(%d,x,y);if(in())goto B%d;else goto B%d;" % (b, ctext(acts[b]), b + 1, i, j))
    text.append("B%d:;" % n)
    return p, "".join(text)


def make_flow(job):
    n, termlist, acts, t, st, depth = job
    out, states, trans = [], 0, 0
    for terms in termlist:
        p, body = flowchart(n, terms, acts)
        ex, steps = executions(p, t, depth)
        states += steps
        trans += sum(len(b) for b, _ in ex) + len(ex)
        out.append(("flowchart %s %s %s" % (t, st, body), DECL[st] % {"t": t, "s": body}, ex))
    return out, states, trans


def model_expr(e, p):
    """value of a logical expression tree"""
    k = e[0]
    if k == "in":
        return p.inp()
    if k == "k":
        return e[1]
    if k == "!":
        return int(not model_expr(e[1], p))
    if k == "&&":
        return int(bool(model_expr(e[1], p)) and bool(model_expr(e[2], p)))
    if k == "||":
        return int(bool(model_expr(e[1], p)) or bool(model_expr(e[2], p)))
    if k == ",":
        model_expr(e[1], p)
        return model_expr(e[2], p)
    if k == "?":
        return model_expr(e[2], p) if model_expr(e[1], p) else model_expr(e[3], p)


def text_expr(e):
    k = e[0]
    if k == "in":
        return "in()"
    if k == "k":
        return str(e[1])
    if k == "!":
        return "!(%s)" % text_expr(e[1])
    if k == "?":
        return "((%s)?(%s):(%s))" % tuple(text_expr(x) for x in e[1:])
    return "((%s)%s(%s))" % (text_expr(e[1]), k, text_expr(e[2]))


def exprs(size):
    memo = {}

    def g(n):
        if n in memo:
            return memo[n]
        r = []
        if n == 1:
            r = [("in",), ("k", 0), ("k", 3)]
        if n > 1:
            r += [("!", a) for a in g(n - 1)]
        for i in range(1, n - 1):
            for a in g(i):
                for b in g(n - 1 - i):
                    r += [(o, a, b) for o in ("&&", "||", ",")]
        for i in range(1, n - 2):
            for j in range(1, n - 1 - i):
                for a in g(i):
                    for b in g(j):
                        for c in g(n - 1 - i - j):
                            r.append(("?", a, b, c))
        memo[n] = r
        return r
    return g(size)


CTX = [("int v=%s;T(1,v,0);", lambda v: (1, v, 0)), ("if(%s)T(2,0,0);else T(3,0,0);", lambda v: (2 if v else 3, 0, 0)),
       ("T(4,%s,0);", lambda v: (4, v, 0)), ("_Bool b=%s;T(5,b,0);", lambda v: (5, int(bool(v)), 0)),
       ("%s;T(6,0,0);", lambda v: (6, 0, 0)), ("T(7,(%s)+10,0);", lambda v: (7, v + 10, 0)),
       ("long q=%s;T(8,-q,0);", lambda v: (8, -v, 0)), ("while(%s){T(9,0,0);break;}", lambda v: (9, 0, 0) if v else ()),
       ("switch(%s){case 0:T(10,0,0);break;case 1:T(11,0,0);break;default:T(12,0,0);}", lambda v: ({0: 10, 1: 11}.get(v, 12), 0, 0)),
       ("unsigned char a[3]={0};a[1]=%s;T(13,a[0]+a[2],a[1]);", lambda v: (13, 0, v)),
       ("x=%s;T(14,x,y);", lambda v: (14, v, 2)), ("x+=%s;T(14,x,y);", lambda v: (14, v + 1, 2))]


def make_expr(job):
    es, ctx, depth = job
    txt, fn = CTX[ctx]
    out, states, trans = [], 0, 0
    for e in es:
        ex, todo = [], [()]
        while todo:
            bits = todo.pop()
            p = Path(bits, 24)
            try:
                v = model_expr(e, p)
                p.trace(*fn(v)) if fn(v) else None
                p.tr += [-1, 0, 2]
                ex.append((bits, p.tr))
            except Cut:
                p.tr.append(-2)
                if len(bits) < depth:
                    todo += [bits + (1,), bits + (0,)]
                else:
                    ex.append((bits, p.tr))
            states += 1
        trans += sum(len(b) for b, _ in ex) + len(ex)
        body = txt % text_expr(e)
        out.append(("expr " + body, "long f@(void){int x=1,y=2;%s Y(y);return 0;}" % body, ex))
    return out, states, trans


def make_big(job):
    """families that grow along one dimension; the model of each is a direct formula"""
    out = []
    for kind, n in job:
        ex = []
        if kind == "elseif":
            body = "".join("%sif(x==%d)T(%d,x,y);" % ("else " if i else "", i, i % 700) for i in range(n)) + "else T(800,x,y);"
            text = "long f@(void){int y=2;for(int x=-1;x<=%d;x+=%d){%s}Y(y);return 0;}" % (n, max(1, n // 11), body)
            tr = []
            x = -1
            while x <= n:
                tr += [x % 700 if 0 <= x < n else 800, x, 2]
                x += max(1, n // 11)
            ex.append(((), tr + [-1, 0, 2]))
        elif kind == "cases":
            body = "".join("case %d:T(%d,x,y);break;" % (i * 7 - n, i % 700) for i in range(n)) + "default:T(800,x,y);"
            xs = [-n * 2, -n, -n + 7, -n + 1, n // 2 * 7 - n, (n - 1) * 7 - n, n * 7 - n]
            text = "long f@(void){static int t[]={%s};int y=2;for(int i=0;i<%d;i++){int x=t[i];switch(x){%s}}Y(y);return 0;}" % (",".join(map(str, xs)), len(xs), body)
            tr = []
            for x in xs:
                i, r = divmod(x + n, 7)
                tr += [i % 700 if r == 0 and 0 <= i < n else 800, x, 2]
            ex.append(((), tr + [-1, 0, 2]))
        elif kind == "fall":
            body = "".join("case %d:x+=%d;" % (i, i) for i in range(n))
            xs = [0, 1, n // 2, n - 1, n, -1]
            text = "long f@(void){static int t[]={%s};int y=2;for(int i=0;i<%d;i++){int x=0;switch(t[i]){%s}T(1,x,t[i]);}Y(y);return 0;}" % (",".join(map(str, xs)), len(xs), body)
            tr = []
            for k in xs:
                tr += [1, sum(range(k, n)) if k >= 0 else 0, k]
            ex.append(((), tr + [-1, 0, 2]))
        elif kind == "nestif":
            text = "long f@(void){int x=0,y=2;%sT(1,x,y);%sT(2,x,y);Y(y);return 0;}" % ("".join("if(in()){x+=%d;" % i for i in range(n)), "".join("}else x-=%d;" % i for i in range(n)))
            for stop in sorted({0, 1, n // 2, n - 1, n}):
                bits = (1,) * stop + ((0,) if stop < n else ())
                x = sum(range(stop))
                tr = [901] * stop + ([900] if stop < n else [1, x, 2])
                if stop < n:
                    x -= n - 1 - stop
                ex.append((bits, tr + [2, x, 2, -1, 0, 2]))
        elif kind == "nestloop":
            d = min(n, 10)
            text = "long f@(void){int x=0,y=2;%sx++;%sT(2,x,y);Y(y);return 0;}" % ("".join("for(int i%d=0;i%d<2;i%d++){" % (i, i, i) for i in range(n)), "".join("if(i%d>=%d)break;}" % (i, 1 if i < d else 0) for i in reversed(range(n))))
            ex.append(((), [2, 2 ** d, 2, -1, 0, 2]))
        elif kind == "nestblock":
            text = "long f@(void){int x=0,y=2;%s%sT(2,x,y);Y(y);return 0;}" % ("".join("{int x=%d;T(%d,x,y);" % (i, i % 20) for i in range(n)), "".join("if(x!=%d)T(99,x,y);}" % i for i in reversed(range(n))))
            ex.append(((), sum([[i % 20, i, 2] for i in range(n)], []) + [2, 0, 2, -1, 0, 2]))
        elif kind == "labels":
            order = [(i * 7 + 3) % n if n % 7 else (i * 11 + 3) % n for i in range(n)]
            nxt = {a: b for a, b in zip(order, order[1:])}
            text = "long f@(void){int x=0,y=2;goto L%d;%s E:T(2,x,y);Y(y);return 0;}" % (order[0], "".join("L%d:x=x*3+%d;x&=0xffff;goto %s;" % (i, i, "L%d" % nxt[i] if i in nxt else "E") for i in range(n)))
            x = 0
            for i in order:
                x = (x * 3 + i) & 0xffff
            ex.append(((), [2, x, 2, -1, 0, 2]))
        elif kind == "vars":
            # many variables alive across a loop, all changed on one path
            text = "long f@(void){int y=2;%sfor(int k=0;k<3;k++){if(in()){%s}else{%s}}int x=0;%sT(2,x&0xffffff,y);Y(y);return 0;}" % (
                "".join("unsigned v%d=%d;" % (i, i * 3 + 1) for i in range(n)),
                "".join("v%d+=v%d+1;" % (i, (i + 1) % n) for i in range(n)),
                "".join("v%d^=%d;" % (i, i * 5) for i in range(0, n, 2)),
                "".join("x=x*5+v%d;" % i for i in range(n)))
            for bits in itertools.product((0, 1), repeat=3):
                v = [i * 3 + 1 for i in range(n)]
                for b in bits:
                    if b:
                        for i in range(n):
                            v[i] = (v[i] + v[(i + 1) % n] + 1) & 0xffffffff
                    else:
                        for i in range(0, n, 2):
                            v[i] ^= i * 5
                x = 0
                for i in range(n):
                    x = (x * 5 + v[i]) & 0xffffffff
                ex.append((bits, [900 + b for b in bits] + [2, x & 0xffffff, 2, -1, 0, 2]))
        elif kind == "stmts":
            text = "long f@(void){unsigned x=1,y=2;%sT(2,x&0xffff,y);Y(y);return 0;}" % "".join("x=x*3+%d;" % i for i in range(n))
            x = 1
            for i in range(n):
                x = (x * 3 + i) & 0xffffffff
            ex.append(((), [2, x & 0xffff, 2, -1, 0, 2]))
        elif kind == "logic":
            text = "long f@(void){int x=0,y=2;if(%s)x=1;if(%s)x+=2;T(2,x,y);Y(y);return 0;}" % ("&&".join(["in()"] * n), "||".join(["in()"] * n))
            for stop in sorted({0, 1, n // 2, n - 1, n}):
                for s2 in sorted({0, 1, n // 2, n - 1, n}):
                    b1 = (1,) * stop + ((0,) if stop < n else ())
                    b2 = (0,) * s2 + ((1,) if s2 < n else ())
                    ex.append((b1 + b2, [900 + b for b in b1 + b2] + [2, (1 if stop == n else 0) + (2 if s2 < n else 0), 2, -1, 0, 2]))
        elif kind == "tern":
            text = "long f@(void){int x=0,y=2;x=%s%d;T(2,x,y);Y(y);return 0;}" % ("".join("in()?%d:" % i for i in range(n)), n)
            for stop in sorted({0, 1, n // 2, n - 1, n}):
                bits = (0,) * stop + ((1,) if stop < n else ())
                ex.append((bits, [900 + b for b in bits] + [2, stop, 2, -1, 0, 2]))
        out.append(("big %s %d" % (kind, n), text, ex))
    return out, sum(len(p[2]) for p in out), sum(len(p[2]) for p in out)


TYPES = {"signed char": (-128, 127), "unsigned char": (0, 255), "short": (-32768, 32767), "unsigned short": (0, 65535), "int": (-2**31, 2**31 - 1),
         "unsigned": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1), "_Bool": (0, 1)}


def make_switch(job):
    """switch on every integer type, label sets from boundary values in every order, default anywhere"""
    out = []
    for ct, labels, order, dpos, brk in job:
        lo, hi = TYPES[ct]
        lab = [labels[i] for i in order]
        parts = ["case %s:T(%d,0,0);%s" % (lit(v), 10 + i, "break;" if brk else "") for i, v in enumerate(lab)]
        ids = [10 + i for i in range(len(lab))]
        if dpos is not None:
            parts.insert(dpos, "default:T(50,0,0);%s" % ("break;" if brk else ""))
            ids.insert(dpos, 50)
        wide = "long" in ct
        bits_ = {"signed char": 32, "unsigned char": 32, "short": 32, "unsigned short": 32, "_Bool": 32, "int": 32, "unsigned": 32}.get(ct, 64)
        uns = ct in ("unsigned", "unsigned long")

        def conv(v):
            v &= (1 << bits_) - 1
            return v if uns or not v >> (bits_ - 1) else v - (1 << bits_)
        vals = sorted({lo, hi, 0, 1, hi // 2} | {x for v in labels for x in (v, v + 1, v - 1, v + 2**32, v - 2**32, v + 256) if lo <= x <= hi})
        text = "long f@(void){static %s t[]={%s};for(int i=0;i<%d;i++){T(1,i,0);switch(t[i]){%s}}Y(0);return 0;}" % (ct, ",".join(lit(v) for v in vals), len(vals), "".join(parts))
        tr = []
        for i, v in enumerate(vals):
            tr += [1, i, 0]
            hit = [k for k, l in enumerate(lab) if conv(l) == v]
            pos = ids.index(10 + hit[0]) if hit else (ids.index(50) if dpos is not None else None)
            if pos is not None:
                for q in ids[pos:]:
                    tr += [q, 0, 0]
                    if brk:
                        break
        out.append(("switch %s %s d=%s %s" % (ct, ",".join(map(str, lab)), dpos, "break" if brk else "fall"), text, [((), tr + [-1, 0, 0])]))
    n = sum(len(p[2][0][1]) // 3 for p in out)
    return out, n, n


def lit(v):
    if v == -2**63:
        return "(-9223372036854775807L-1)"
    if v >= 2**63:
        return "%dUL" % v
    return "%dL" % v if abs(v) >= 2**31 else str(v)


def switch_jobs():
    out = []
    for ct, (lo, hi) in TYPES.items():
        if ct == "_Bool":
            sets = [(0,), (1,), (0, 1)]
        else:
            sets = [(0,), (lo, hi), (0, 1, 2), (hi, 0, lo if lo else 1), (lo, 5, hi - 1)]
            if "char" not in ct and "short" not in ct:
                sets += [(-1 if lo else hi, 2**31 - 1, 65536)]
            if "long" in ct:
                sets += [(2**32, 0, 1), (2**32 + 1, 1, 2**33), (2**31, 2**32 - 1, -2**31 if lo else 7)]
            if ct == "unsigned":
                sets += [(2**31, 2**32 - 1, 0), (-1, 5, 6)]
            if ct == "int":
                sets += [(-1, -2**31, 2**32 + 7)]
            if ct == "signed char":
                sets += [(200, -56 + 2, 3)]      # unreachable label
        for s in sets:
            for order in itertools.permutations(range(len(s))):
                for dpos in [None] + list(range(len(s) + 1)):
                    for brk in (1, 0):
                        out.append((ct, s, order, dpos, brk))
    return out


def explore(c):
    jobs = []
    per = 400

    def addtrees(ts, t, st, depth):
        for g in chunks(ts, per):
            jobs.append((make, (g, t, st, depth)))
    sizes = (1, 2, 3, 4) if not THOROUGH else (1, 2, 3, 4, 5)
    full = list(itertools.chain(*(trees(n) for n in sizes)))
    addtrees(full, "int", "int", 5)
    small = list(itertools.chain(*(trees(n) for n in (1, 2, 3))))
    upto = small if not THOROUGH else list(itertools.chain(*(trees(n) for n in (1, 2, 3, 4))))
    for t in ("long", "signed char", "unsigned char", "short", "unsigned long", "unsigned"):
        addtrees(upto, t, "int", 5)
    for st in ("mem", "par", "glb", "mx", "my"):
        addtrees(upto if st != "par" else list(itertools.chain(*(trees(n) for n in (1, 2, 3, 4)))), "int", st, 4)
    for st in DECL:
        if st.startswith("fall"):
            addtrees(small if not THOROUGH else upto, "int" if st != "fallp" else "long", st, 4)
    # all condition forms
    cs = list(range(1, len(CONDS)))
    withc = [t for n in (2, 3) for t in trees(n, conds=cs, sws=("1d", "01"))]
    addtrees(withc, "int", "int", 6)
    if THOROUGH:
        addtrees(trees(4, conds=cs, sws=("1d",), leaves=LEAVES[:5]), "int", "int", 6)
    # sequences/loops over assignments only, one size further
    deep = trees(5, leaves=[("A",), ("W",), ("B",), ("C",)], sws=("01",)) if not THOROUGH else trees(6, leaves=[("A",), ("W",), ("B",), ("C",)], sws=("01",))
    deep = list(deep)
    for st in ("int", "mx", "my", "mem"):
        addtrees(deep, "long" if st in ("my",) else "int", st, 5)
    fib = list(trees(4, leaves=[("A",), ("D",), ("W",), ("B",), ("C",)], sws=("1d",)))
    for t, st in (("long", "int"), ("long", "my"), ("long", "mx"), ("unsigned", "par")):
        addtrees(fib, t, st, 5)
    for st in DECL3:
        addtrees(list(assigns(2)), "long", st, 4)
        if st in ("3", "3z", "3xy") or THOROUGH:
            addtrees(list(assigns(3)), "int" if st == "3xy" else "long", st, 4)
    # flowcharts, including irreducible ones
    acts = [("D",), ("W",), ("I", 0), ("A", 7)]
    for n in (1, 2, 3) if not THOROUGH else (1, 2, 3, 4):
        tl = list(itertools.product(list(itertools.product(range(n + 1), repeat=2)), repeat=n))
        if n == 4:
            tl = [t for t in tl if all(i <= j for i, j in t)]
        for g in chunks(tl, per):
            jobs.append((make_flow, (n, g, acts, "int", "int", 6)))
            if n < 4 or False:
                jobs.append((make_flow, (n, g, acts, "long", "my", 5)))
                jobs.append((make_flow, (n, g, acts, "unsigned", "mx", 5)))
    # logical expressions in every context
    es = [e for n in (1, 2, 3, 4, 5) for e in exprs(n)]
    for ctx in range(len(CTX)):
        sel = es if (THOROUGH or ctx in (0, 1)) else [e for n in (1, 2, 3, 4) for e in exprs(n)]
        for g in chunks(sel, per):
            jobs.append((make_expr, (g, ctx, 6)))
    # growth
    ns = (1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300)
    for kind in ("elseif", "cases", "fall", "nestif", "nestblock", "labels", "vars", "stmts", "logic", "tern"):
        jobs.append((make_big, [(kind, n) for n in ns if n <= (64 if kind in ("nestif",) else 129 if kind in ("tern", "nestblock") else 300) and not (kind == "nestblock" and n > 100)]))
    jobs.append((make_big, [("nestloop", n) for n in range(1, 34)]))
    for g in chunks(switch_jobs(), per):
        jobs.append((make_switch, g))
    fl = Flow(c)
    flbig = Flow(c, 600)
    total = 0
    with multiprocessing.Pool(NPROC) as pool:
        sem = threading.Semaphore(NPROC * 3)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = []
            for i, (fn, a) in enumerate(jobs):
                sem.acquire()
                r = pool.apply_async(fn, (a,))

                def work(r=r, i=i, fn=fn):
                    try:
                        progs, st, tr = r.get()
                        n = sum(len(p[2]) for p in progs)
                        f = flbig if fn in (make_big, make_switch) else fl
                        if i % 10 == 0 or fn is make_switch or THOROUGH:
                            f.check_model(progs)
                        f.group(progs)
                        return len(progs), st, tr, n, [p[0] for p in progs[:1]]
                    finally:
                        sem.release()
                futs.append(ex.submit(work))
            for f in futs:
                a, st, tr, n, smp = f.result()
                total += a
                c.states += st
                c.transitions += tr
                c.traces += n
                if len(c.samples) < 12 and a > 100:
                    c.samples += smp
    c.extra["programs"] = total
    c.extra["exhaustive"] = True


if __name__ == "__main__":
    main(explore, "C08", "model_checking",
         "all statement trees up to the size bound (states = model steps taken, transitions = input choices, traces = executions compared action by action with the compiled function), all flowcharts up to the block bound, all logical expressions up to the size bound, switch label sets in every order",
         ["the model is cross-checked against gcc on a tenth of the programs (all of them in the thorough tier)", "executions longer than the input bound are compared up to the bound"])
