#!/usr/bin/env python3
"""C15: macro replacement. Every macro body / argument / invocation up to the stated sizes, expanded
by an executable model of the standard's algorithm (mc/cpp.py), cross-checked with gcc -E, and
replayed through the real preprocessor."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import vlib, cpp, ppe
from mc.vlib import THOROUGH


class Case:
    def __init__(self, defs, text):
        self.defs, self.text = defs, text


def seqs(alpha, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alpha, repeat=n)


def fam_one():
    """One function-like macro F(x): all bodies, all arguments."""
    alpha = ["x", "#x", "##", "a", "F", "(", ")", ","]
    args = ["", "a", "b c", "F(1)", "(p,q)", '"s"', "F", "x", " F (F)(2) "]
    for b in seqs(alpha, 0, 4 if THOROUGH else 3):
        if b and (b[0] == "##" or b[-1] == "##"):
            continue
        if any(p == q == "##" for p, q in zip(b, b[1:])):
            continue
        d = "F(x) " + " ".join(b)
        for a in args:
            yield Case([d], "<F(%s)>" % a)
        yield Case([d], "F(a)(b)(c)")
        yield Case([d], "F (\na\n) F F(F)(d)")


def fam_two():
    alpha = ["x", "y", "#x", "#y", "##", "c"]
    args = ["", "a", "b c", "A", "1"]
    for b in seqs(alpha, 1, 5 if THOROUGH else 4):
        if b[0] == "##" or b[-1] == "##" or any(p == q == "##" for p, q in zip(b, b[1:])):
            continue
        if "##" not in b and len(b) > 3:
            continue
        d = "F(x,y) " + " ".join(b)
        for a in args:
            for c in args:
                if (a in args[3:] or c in args[3:]) and not THOROUGH and len(b) > 3 and a != "A":
                    continue
                yield Case([d, "A z w"], "[F(%s,%s)]" % (a, c))


def fam_chain():
    """Object-like and function-like macros that name each other."""
    ab = ["A", "B", "c"]
    fb = ["x", "A", "F", "F(x)", "(x)", "c", "F(A)"]
    texts = ["A", "B A", "F(A)", "F(F)(A)", "F(F(B))", "A(1)", "B(2) F", "F(F(F)(1))(2)", "A (B (3))"]
    ob = [" ".join(s) for s in seqs(["A", "B", "F", "F(1)", "(", ")", "c"], 0, 2)]
    fbs = [" ".join(s) for s in seqs(fb, 0, 2)]
    bs = ob if THOROUGH else ["", "A", "B", "F", "F(", "F ( A", "A c", "c F(1)", ") c", "B A", "F(1) F", "( B"]
    for a in ob:
        for b in bs:
            for f in (fbs if THOROUGH else fbs[::4] + ["F", "A x"]):
                for t in texts:
                    yield Case(["A " + a, "B " + b, "F(x) " + f], t)


def fam_three():
    """Three function-like macros calling each other; parenthesised operands."""
    bodies = ["x", "G(x)", "H(x)", "F(x)", "G", "H", "G(x", "x)", "F", "(x)", "G(H(x))", "x(H)", "H(x)(x)"]
    texts = ["F(1)", "F(G)(2)", "F(H(G))(3)", "F(F(F))(4)(5)", "G(F)(H)(6)"]
    for f, g, h in itertools.product(bodies, repeat=3):
        for t in (texts if THOROUGH else texts[(len(f) + len(g) * 3 + len(h)) % 5::5] + texts[1:2]):
            yield Case(["F(x) " + f, "G(x) " + g, "H(x) " + h], t)


def fam_var():
    alpha = ["x", "__VA_ARGS__", "#__VA_ARGS__", "#x", "##", ",", "c"]
    args = ["", "a", "a,b", "a,", ",", "(a,b),c", "A", "a , b  c", "V(1)", "V(1,2),3", "A,A", ",,"]
    for b in seqs(alpha, 1, 4 if THOROUGH else 3):
        if b[0] == "##" or b[-1] == "##" or any(p == q == "##" for p, q in zip(b, b[1:])):
            continue
        if any(b[i] == "," and b[i + 1] == "##" for i in range(len(b) - 1)):
            continue     # GNU comma deletion: fam_gnu
        for params in ("...", "x,..."):
            if params == "..." and ("x" in b or "#x" in b):
                continue
            for a in args:
                if params == "x,..." and "," not in a:
                    a = a + ",k"
                yield Case(["V(%s) %s" % (params, " ".join(b)), "A z, w"], "{V(%s)}" % a)


def fam_paste():
    """Pasting of every pair of token spellings, in a body and through parameters."""
    toks = cpp.PUNCT + ["a", "L", "u8", "1", "1e", "0x1p", ".5", "1.", '"s"', "'c'", "_9", "U", "u"]
    for a in toks:
        for b in toks:
            if a in ("(", ")", ",") or b in ("(", ")", ","):
                continue
            if "#" in (a, b) or "##" in (a, b):
                continue
            yield Case(["C(x,y) x ## y"], "- C(%s,%s) -" % (a, b))
            yield Case(["O %s ## %s" % (a, b)], "- O -")
    for a, b in itertools.product(["a", "1", ""], repeat=2):
        for c in ("b", "2", ""):
            yield Case(["C(x,y,z) x ## y ## z"], "- C(%s,%s,%s) -" % (a, b, c))
            yield Case(["C(x,y,z) x y ## z x"], "- C(%s,%s,%s) -" % (a, b, c))
    yield Case(["hash_hash # ## #", "mkstr(a) # a", "in_between(a) mkstr(a)",
                "join(c, d) in_between(c hash_hash d)"], "join(x, y)")
    yield Case(["t(x,y,z) x ## y ## z"], "j = t(1,2,3), t(,4,5), t(6,,7), t(8,9,), t(10,,), t(,11,), t(,,12), t(,,)")


def fam_str():
    """Stringification: every pair of argument tokens and every separation."""
    toks = ["a", "1.5e+3", "+", "->", '"x"', r'"a\n"', r'"\""', r"'\''", r"'\"'", "'\"'", r"'\\'", 'L"w"', "u'c'",
            r'"\\"', "...", "#", "##", '"\xc3\xa9"', r'"\x41\0"', '"\'"', ",", "(b, c)", "'a'", '"\t"', "<<=", "A", '"?"', '"`@$"']
    seps = ["", " ", "  ", "\t", "\n", "/**/", " /* c */ ", " // e\n"]
    for a in toks:
        for s in ([" x", "x ", "x", "/**/x", "x\n"]):
            yield Case(["S(...) #__VA_ARGS__", "A no"], "S(%s)" % s.replace("x", a))
    for a in toks:
        for b in toks:
            for s in (seps if THOROUGH else (seps if (toks.index(a) + toks.index(b)) % 5 == 0 else seps[:2] + ["/**/"])):
                if "\n" in s and b[0] == "#":
                    continue     # would be a directive
                if s == "" and a[0].isdigit() and "'" in b:
                    continue     # C23 digit separator, which this compiler has
                yield Case(["S(...) #__VA_ARGS__", "A no"], "S(%s%s%s)" % (a, s, b))
    for a in toks:
        if a == ",":
            continue
        yield Case(["X(x) S(x)", "S(x) #x", "A no , yes"], "X(%s) ; S(%s)" % (a.replace(",", ""), a.replace(",", " ")))
        yield Case(["S(x,y) - #x # y #x"], "S(%s, 1)" % a.replace("(b, c)", "b"))
    # expansion then stringification: whitespace of substituted text
    for body in ("x", " x ", "x x", "(x)", "a x", "a  x  b", "x+x", "-x", "/**/x/**/x"):
        for arg in ("1", "A", "A A", " A ", "(A)", "+A", "B(2)", "B( A )-1", ""):
            yield Case(["X(...) S(__VA_ARGS__)", "S(...) #__VA_ARGS__", "A one two", "B(x) [x] x", "F(x) " + body],
                       "X(F(%s)F(%s) F( %s))" % (arg, arg, arg))


def fam_hist():
    """Every history of defining, undefining and using one name."""
    ops = ["#define A 1", "#define A(x) x+2", "#define A", "#undef A", "A", "A(3)", "B", "#undef B", "#define B A"]
    for h in seqs(range(len(ops)), 1, 5):
        if ops[h[-1]].startswith("#"):
            continue
        if sum(ops[i][0] == "#" for i in h) < len(h) - 3:
            continue
        yield [ops[i] for i in h]


def fam_names():
    """Many macros at once (the table), including names that collide or share prefixes."""
    for n in (1, 2, 3, 10, 1000, 3000 if THOROUGH else 2100):
        names = ["n%d" % i for i in range(n)]
        yield ["#define %s v%d" % (x, i) for i, x in enumerate(names)] + ["#undef n%d" % i for i in range(0, n, 3)] + \
            ["#define n%d w%d" % (i, i) for i in range(0, n, 6)] + names
    yield ["#define foo 1", "#define fooo 2", "#define fo 3", "#define _foo 4", "fo foo fooo foooo _foo f"]
    # deep chains and wide calls
    for n in (1, 2, 8, 9, 16, 17, 60, 200):
        yield ["#define m%d m%d" % (i, i + 1) for i in range(n)] + ["m0 m%d" % (n // 2)]
        yield ["#define m%d(x) m%d(x)" % (i, i + 1) for i in range(n)] + ["m0(1) m0(m0(2)) m%d(m0)(3)" % (n // 2)]
        ps = ["p%d" % i for i in range(n)]
        yield ["#define W(%s) %s" % (",".join(ps), " ".join(reversed(ps))), "W(%s)" % ",".join(str(i) for i in range(n))]
        yield ["#define Q(%s,...) #__VA_ARGS__ %s" % (",".join(ps), "+".join(ps)), "Q(%s)" % ",".join(str(i) for i in range(n + 3))]
        yield ["#define N(x) (x)", "N(" * n + "1" + ")" * n]
        yield ["#define LONG %s" % " ".join(str(i) for i in range(n * 5)), "LONG LONG"]


def fam_collide():
    """Every history of definitions (identical ones too) and #undefs of names with equal hashes (the chains of the table)."""
    names = ["zabzab", "zbAzab", "zabzbA", "zbAzbA"][:4 if THOROUGH else 3]
    ops = ["#define %s v%d" % (n, i) for i, n in enumerate(names)] + ["#undef " + n for n in names]
    for h in itertools.product(ops, repeat=5):
        yield [x for o in h for x in (o, " ".join(names))]


def fam_gnu():
    """Comma deletion (every compiler has it) and builtin macros; gcc is the oracle."""
    for body in ("f(x , ## __VA_ARGS__)", "x,##__VA_ARGS__ c", "f(x, __VA_ARGS__)", "f(x , ## __VA_ARGS__ , y)", ", ## __VA_ARGS__ x"):
        for a in ("1", "1,2", "1,2,3", "A", "1,A", "A,A,V(1)", "(1,2)", "1,(2,3)"):
            yield ["#define V(x,...) " + body, "#define A z , w", "V(%s) V(%s)" % (a, a), "#undef A"]
    lines = ["__LINE__", "", "L", "L S(__LINE__)", "E(__LINE__) E(L)", "// c", "/* a\n\n b */ __LINE__", "X \\\n Y __LINE__",
             "F", "G(L) G(__LINE__)", "__FILE__", "E(__FILE__)"]
    for n in (1, 2, 3):
        for c in itertools.product(lines, repeat=n):
            if n == 3 and not THOROUGH and hash3(c) % 4:
                continue
            yield ["#define L __LINE__", "#define S(x) #x", "#define E(x) S(x)", "#define F __FILE__", "#define G(x) x L x"] + \
                list(c) + ["__LINE__"] + ["#undef " + n for n in "LSEFG"]
    for n in ("int", "while", "sizeof", "defined_", "if", "_Bool", "once", "include", "define"):
        yield ["#define %s q" % n, "%s x%s %s" % (n, n, n), "#undef %s" % n, n]
    # invocations that spread over lines
    for w in itertools.product(["\n", " ", "\n\n", " /* \n */ ", " \\\n"], repeat=3):
        yield ["#define F(x,y) y-x", "F%s(%sa,%sb)" % w, "c", "#undef F"]
    # push_macro / pop_macro histories
    ops = ["#pragma push_macro(\"A\")", "#pragma pop_macro(\"A\")", "#define A 1", "#define A 2 B", "#undef A", "A A", "#pragma push_macro(\"B\")",
           "#define B b", "#undef B", "#pragma pop_macro(\"B\")"]
    for h in seqs(range(len(ops)), 2, 5 if THOROUGH else 4):
        depth = {"A": 0, "B": 0}
        ok, defd = True, {"A": None, "B": None}
        st = {"A": [], "B": []}
        for i in h:
            o = ops[i]
            v = "B" if '"B"' in o or o.endswith("B b") or o == "#undef B" else "A"
            if "push" in o:
                st[v].append(defd[v])
            elif "pop" in o:
                if not st[v]:
                    ok = False
                    break
                defd[v] = st[v].pop()
            elif o.startswith("#define"):
                if defd[v] not in (None, o):
                    ok = False
                    break
                defd[v] = o
            elif o.startswith("#undef"):
                defd[v] = None
        if not ok or not any("pragma" in ops[i] for i in h):
            continue
        # leave the stacks empty for the next case
        end = []
        for v in "AB":
            end += ['#pragma pop_macro("%s")' % v] * len(st[v])
        yield [ops[i] for i in h] + ["A B"] + end + ["A B", "#undef A", "#undef B"]


def hash3(c):
    return sum(len(x) * (i + 1) for i, x in enumerate(c))


GUARD = ["F", "G", "H", "A", "B", "C", "O", "S", "V", "X", "hash_hash", "mkstr", "in_between", "join", "t"]


def drop(toks):
    """Without the pragmas, which only the compiler proper consumes."""
    out, i = [], 0
    while i < len(toks):
        if toks[i] == "#" and i + 1 < len(toks) and toks[i + 1] == "pragma":
            i += 6
            continue
        out.append(toks[i])
        i += 1
    return out


def main(chk):
    R = ppe.Runner(chk)
    skipped = {"undefined": 0, "gcc_disagrees": 0}
    steps = [0]

    def prepare_hist(lines):
        m, exp = {}, []
        for l in lines:
            if l.startswith("#define "):
                M = cpp.parse_define(l[8:])
                o = m.get(M.name)
                if o and ((o.params, [t.s for t in o.body]) != (M.params, [t.s for t in M.body])):
                    raise cpp.Undefined("incompatible redefinition")
                m[M.name] = M
            elif l.startswith("#undef "):
                m.pop(l[7:], None)
            else:
                c = cpp.Cpp(m.values())
                exp += [t.s for t in c.run(l)]
                steps[0] += c.steps
        return exp

    total = 0
    for fam in (fam_one, fam_two, fam_chain, fam_three, fam_var, fam_paste, fam_str, fam_hist, fam_names, fam_collide):
        items = []
        for c in fam():
            lines = c if isinstance(c, list) else ["#define " + d for d in c.defs] + [c.text]
            try:
                exp = prepare_hist(lines)
            except cpp.Undefined:
                skipped["undefined"] += 1
                continue
            names = {cpp.tokenize(l[8:])[0].s for l in lines if l.startswith("#define ")}
            text = "\n".join(lines + ["#undef " + n for n in sorted(names)])
            items.append(("%s: %s" % (fam.__name__[4:], " | ".join(lines)[:300]), text, exp))

        if fam is fam_gnu:
            continue
        def crosscheck(group):
            ref = R.gcc([c[1] for c in group])
            out = []
            for i, c in enumerate(group):
                if ppe.canon(ref.get(i, ["?"])) == ppe.canon(c[2]):
                    out.append(c)
                elif os.environ.get("SHOW_GCC"):
                    print("gcc:", c[0], "\n   model", c[2], "\n   gcc  ", ref.get(i))
            return out
        kept = [c for g in vlib.pmap(crosscheck, vlib.chunks(items, 500)) for c in g]
        skipped["gcc_disagrees"] += len(items) - len(kept)
        if len(kept) < 0.9 * len(items):
            raise vlib.CheckError("model and gcc disagree on %d of %d cases of %s" % (len(items) - len(kept), len(items), fam.__name__))
        chk.count(0, 0, sample=kept[len(kept) // 2][0])
        R.run(kept)
        chk.extra["cases_" + fam.__name__[4:]] = len(kept)
    items = [("gnu: " + " | ".join(l)[:300], "\n".join(l)) for l in fam_gnu()]

    def reference(group):
        # the same file for both: line numbers and the file's name are part of the result
        f = R.write([c[1] for c in group])
        os.unlink(f)
        import subprocess
        open(f, "w").write(R.batch([c[1] for c in group]))
        p = subprocess.run(["gcc", "-E", "-P", "-w", "-std=gnu17", f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        rc, out = vlib.sh([chk.cc, "-E", f], 30)
        os.unlink(f)
        ref, got = ppe.split(p.stdout.decode("latin1")), ppe.split(out.decode("latin1"))
        for i, c in enumerate(group):
            if "error" in p.stderr.decode("latin1"):
                raise vlib.CheckError("reference: " + p.stderr.decode("latin1")[:500])
            if ppe.canon(drop(ref.get(i, ["?"]))) != ppe.canon(drop(got.get(i, []))):
                R.report((c[0], c[1], ref.get(i)), got.get(i), None if rc == 0 else (rc, out[-300:]), group if len(group) < 30 else None)
                if rc != 0:
                    return
    vlib.pmap(reference, vlib.chunks(items, 100))
    chk.count(len(items), len(items))
    chk.extra["cases_gnu"] = len(items)
    chk.extra.update(skipped)
    chk.states, chk.transitions, chk.traces = chk.ndistinct, steps[0], chk.evaluations


vlib.main(main, "C15", "model_checking",
          rule="every macro body, argument and invocation up to the stated size; expected tokens from an executable "
               "model of 6.10.3 that gcc -E agrees with; compared with the tokens of cc -E",
          assumptions=["cases the standard leaves undefined, or where the model and gcc differ, are not judged"])
