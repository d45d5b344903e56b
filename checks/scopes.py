#!/usr/bin/env python3
"""C18: declarators, specifiers and scopes. A model of C's scopes and name spaces is explored over all
sequences of declarations and scope openings/closings up to a length; every sequence is replayed as a
function that prints what each name means after each event. All declarators up to a size and all orders
of declaration specifiers are compared with types built another way."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *


class Bad(Exception):
    pass


# --------------------------------------------------------------------- 1. scopes
class W:
    """scopes: list of (ordinary, tags, closer). ordinary[name] = (kind, data). Text and expectations
    are accumulated."""
    def __init__(self, prefix, param):
        self.n = 1
        self.glob, self.out, self.exp = "", "", []
        self.sc = [({}, {}, "")]
        self.file = prefix
        if prefix == "obj":
            self.glob += "int a@@=77;"
            self.sc[0][0]["a"] = ("obj", 77, 4)
        elif prefix == "typedef":
            self.glob += "typedef struct{char c[41];}a@@;"
            self.sc[0][0]["a"] = ("typedef", 41)
        elif prefix == "enum":
            self.glob += "enum{a@@=55};"
            self.sc[0][0]["a"] = ("enum", 55)
        elif prefix == "fn":
            self.glob += "int a@@(void){return 33;}"
            self.sc[0][0]["a"] = ("fn", 33)
        elif prefix == "tag":
            self.glob += "struct a@@{char c[43];};"
            self.sc[0][1]["a"] = ["struct", 43]
        elif prefix == "both":
            self.glob += "typedef struct a@@{char c[44];}a@@;"
            self.sc[0][1]["a"] = ["struct", 44]
            self.sc[0][0]["a"] = ("typedef", 44)
        self.sc.append(({}, {}, ""))
        if param:
            self.sc[1][0]["a"] = ("obj", 66, 4)
        self.param = param

    def look(self, n):
        for i in range(len(self.sc) - 1, -1, -1):
            if n in self.sc[i][0]:
                return self.sc[i][0][n], i
        return None, None

    def tag(self, n):
        for i in range(len(self.sc) - 1, -1, -1):
            if n in self.sc[i][1]:
                return self.sc[i][1][n], i
        return None, None

    def new(self):
        self.n += 1
        return self.n

    def decl(self, n, d):
        if n in self.sc[-1][0]:
            raise Bad
        self.sc[-1][0][n] = d

    def ev(self, e):
        k, n = e[0], e[1:]
        v = self.new()
        N = n + "@@"
        cur = len(self.sc) - 1
        if k == "{":
            self.out += "{"
            self.sc.append(({}, {}, "}"))
        elif k == "}":
            if cur < 2:
                raise Bad
            self.out += self.sc[-1][2]
            self.sc.pop()
            while self.sc[-1][2] is None:
                self.sc.pop()
        elif k == "R":  # for with a declaration
            self.sc.append(({"a": ("obj", v, 4)}, {}, None))
            self.sc.append(({}, {}, "}"))
            self.out += "for(int a@@=%d,w%d=1;w%d;w%d--){" % (v, v, v, v)
        elif k == "O":
            t, sz = [("char", 1), ("short", 2), ("int", 4), ("long", 8)][v % 4]
            self.decl(n, ("obj", v, sz))
            self.out += "%s %s=%d;" % (t, N, v)
        elif k == "Z":  # its own scope begins before the initialiser
            self.decl(n, ("obj", 2, 2))
            self.out += "short %s=sizeof(%s);" % (N, N)
        elif k == "Q":
            self.decl(n, ("obj", v, 4))
            self.out += "static int %s=%d;" % (N, v)
        elif k == "T":
            self.decl(n, ("typedef", v + 8))
            self.out += "typedef struct{char c[%d];}%s;" % (v + 8, N)
        elif k == "M":
            self.decl(n, ("enum", v))
            self.out += "enum{%s=%d};" % (N, v)
        elif k == "V":  # an enumerator defined by the outer one
            o, i = self.look(n)
            if not o or o[0] != "enum" or i == cur:
                raise Bad
            self.decl(n, ("enum", o[1] + 1))
            self.out += "enum{%s=%s+1};" % (N, N)
        elif k == "Y":  # a a;
            o, i = self.look(n)
            if not o or o[0] != "typedef" or i == cur:
                raise Bad
            self.decl(n, ("rec", o[1]))
            self.out += "%s %s;" % (N, N)
        elif k == "X":
            if self.file != "obj" or n != "a":
                raise Bad
            self.decl(n, ("obj", 77, 4))
            self.out += "extern int a@@;"
        elif k == "N":
            if self.file != "fn" or n != "a":
                raise Bad
            self.decl(n, ("fn", 33))
            self.out += "int a@@(void);"
        elif k in "SU":
            kind = "struct" if k == "S" else "union"
            t = self.sc[-1][1].get(n)
            if t and (t[0] != kind or t[1] is not None):
                raise Bad
            if t:
                t[1] = v + 20
            else:
                self.sc[-1][1][n] = [kind, v + 20]
            self.out += "%s %s{char c[%d];};" % (kind, N, v + 20)
        elif k == "F":
            t = self.sc[-1][1].get(n)
            if t and t[0] != "struct":
                raise Bad
            if not t:
                self.sc[-1][1][n] = ["struct", None]
            self.out += "struct %s;" % N
        elif k == "P":
            t, i = self.tag(n)
            if t and t[0] != "struct":
                raise Bad
            if not t:
                t = self.sc[-1][1][n] = ["struct", None]
            self.decl("p%d" % v, ("ptr", t))
            self.out += "struct %s*p%d@@=0;" % (N, v)
        elif k == "E":
            if n in self.sc[-1][1]:
                raise Bad
            self.sc[-1][1][n] = ["enum", 4]
            self.out += "enum %s{e%d@@=%d};" % (N, v, v)
            self.decl("e%d" % v, ("enum", v))
        elif k == "B":  # a structure in a member declaration belongs to the enclosing scope
            if n in self.sc[-1][1]:
                raise Bad
            self.sc[-1][1][n] = ["struct", v + 20]
            self.decl("q%d" % v, ("enum", v))
            self.out += "struct{struct %s{char c[%d];}m;enum{q%d@@=%d}e;}w%d@@;(void)w%d@@;" % (N, v + 20, v, v, v, v)
        elif k == "C":  # prototype scope does not leak
            self.out += "int(*w%d@@)(int %s,char z[sizeof(%s)]);w%d@@=0;" % (v, N, N, v)
            self.decl("w%d" % v, ("skip",))
        elif k == "D":
            # a type declared in an expression
            if n in self.sc[-1][1]:
                raise Bad
            self.sc[-1][1][n] = ["struct", v + 20]
            self.out += "o(sizeof(struct %s{char c[%d];}));" % (N, v + 20)
            self.exp.append(v + 20)
        self.probe()

    def probe(self):
        seen = set()
        for i in range(len(self.sc) - 1, -1, -1):
            for n, d in self.sc[i][0].items():
                if n in seen:
                    continue
                seen.add(n)
                N = n + "@@"
                if d[0] == "obj":
                    self.out += "o(%s);o(sizeof %s);" % (N, N)
                    self.exp += [d[1], d[2]]
                elif d[0] == "typedef":
                    self.out += "o(sizeof(%s));{%s*z,(y);o(sizeof y);o(sizeof*z);}" % (N, N)
                    self.exp += [d[1], d[1], d[1]]
                elif d[0] == "rec":
                    self.out += "o(sizeof %s);o(sizeof(%s.c));" % (N, N)
                    self.exp += [d[1], d[1]]
                elif d[0] == "enum":
                    self.out += "switch(%d){case %s:o(%s);}" % (d[1], N, N)
                    self.exp += [d[1]]
                elif d[0] == "fn":
                    self.out += "o(%s());" % N
                    self.exp += [d[1]]
                elif d[0] == "ptr" and d[1][1] is not None:
                    self.out += "o(sizeof*%s);" % N
                    self.exp += [d[1][1]]
        seen = set()
        for i in range(len(self.sc) - 1, -1, -1):
            for n, d in self.sc[i][1].items():
                if n in seen:
                    continue
                seen.add(n)
                if d[1] is not None:
                    self.out += "o(sizeof(%s %s@@));" % (d[0], n)
                    self.exp.append(d[1])
                else:
                    self.out += "{struct %s@@*z=0;o(!z);}" % n
                    self.exp.append(1)

    def state(self):
        return repr([(sorted(o.items()), sorted(map(repr, t.items()))) for o, t, c in self.sc])


EVENTS = ["{", "}", "R", "Oa", "Za", "Qa", "Ta", "Ma", "Va", "Ya", "Xa", "Na", "Sa", "Ua", "Fa", "Pa", "Ea", "Ba", "Ca", "Da", "Ob", "Tb", "Sb"]
PREFIX = ["", "obj", "typedef", "enum", "fn", "tag", "both"]
PARAM = "static int dummy_@@;"


def scopes(c):
    cs = []
    states = set()
    depth = 5 if THOROUGH else 4

    def rec(pre, param, seq):
        """extends a valid sequence by every event"""
        for e in EVENTS:
            s = seq + [e]
            w = W(pre, param)
            try:
                for x in s:
                    w.ev(x)
            except Bad:
                continue
            c.transitions += 1
            states.add(w.state())
            useful = e not in "{R"
            if len(s) < depth:
                rec(pre, param, s)
            # a prefix of a longer sequence is covered by it
            if len(s) < depth or not useful:
                if len(s) < depth:
                    continue
            # close everything, looking at the names on the way
            while len(w.sc) > 2:
                w.ev("}")
            w.out += "{struct{int a@@;char b@@;}m,*k=&m;m.a@@=5;m.b@@=6;o(m.a@@);o(k->b@@);}goto a@@;o(99);a@@:o(98);"
            w.exp += [5, 6, 98]
            exp = " ".join("%x" % v for v in w.exp)
            key = "scopes %s%s %s" % (pre or "-", " param" if param else "", " ".join(s))
            # the two names fall into the same bucket of a djb2 table (as 33*'a'+'b' == 33*'b'+'A')
            glob, out = (re.sub(r"\b([ab])@@", lambda m: {"a": "ab@@", "b": "bA@@"}[m.group(1)], t)
                         for t in (w.glob, w.out))
            if param:
                cs.append(PCase(key, "fn_@@(66);", glob + "static void fn_@@(int ab@@){" + out + "}", exp))
            else:
                cs.append(PCase(key, out, glob, exp))
    for pre in PREFIX:
        d0 = depth
        if pre in ("tag", "both", "enum", "fn") and not THOROUGH:
            depth = 3
        rec(pre, 0, [])
        depth = d0
    d0 = depth
    depth = 3 if not THOROUGH else 4
    for pre in ("", "typedef", "enum"):
        rec(pre, 1, [])
    depth = d0
    c.states = len(states)
    c.traces = len(cs)
    pr = Printer(c)
    share = cs if THOROUGH else cs[::9]

    def xc(group):
        ref = parse_marks(pr.run_gcc(tu(group)))
        for i, k in enumerate(group):
            if ref.get(i) != k.expect:
                raise CheckError("scope model disagrees with gcc: %s\nmodel %s\ngcc   %s\n%s" % (k.key, k.expect, ref.get(i), k.glob + k.body))
    pmap(xc, chunks(share, 100))
    pr.run(cs, 100)
    c.extra["scope_sequences"] = len(cs)
    c.samples += [k.key for k in cs[:: max(1, len(cs) // 5)]]


# --------------------------------------------------------------------- 2. declarators
STEPS = ["p", "c", "a2", "a3", "fv", "fi", "fp", "fa"]
PARS = {"fv": "void", "fi": "int", "fp": "char*,int(*)[2]", "fa": "int,..."}


def valid(ch):
    """derivations from the outside in: ch[0] is nearest the name"""
    for x, y in zip(ch, ch[1:]):
        if x[0] == "f" and y[0] in "fa":
            return False
        if x[0] == "a" and y[0] == "f":
            return False
    return True


def declarator(ch, name, paren):
    """name surrounded by the derivations; paren: extra parentheses"""
    d = name
    prev = None
    for s in ch:
        if s in "pc":
            d = ("*" if s == "p" else "*const ") + d
            prev = "p"
        else:
            if prev == "p" or paren & 1 and d:
                d = "(" + d + ")"
            d += "[%s]" % s[1] if s[0] == "a" else "(%s)" % PARS[s]
            prev = "a"
        if paren & 2 and d.strip("*const ") and name:
            d = "(" + d + ")"
            prev = "a"
    return d


def chain(ch, base, tag):
    """the same type by typedefs, one derivation at a time"""
    s, t = "typedef %s %s0;" % (base, tag), tag + "0"
    for i, x in enumerate(reversed(ch)):
        n = "%s%d" % (tag, i + 1)
        s += "typedef %s %s;" % (t, {"p": "*%s", "c": "*const %s", "a": "%s[" + x[1:] + "]", "f": "%s(" + PARS.get(x, "") + ")"}[x[0]] % n)
        t = n
    return s, t


def declarators(c):
    cs = []
    n = 0
    for L in range(0, 6 if THOROUGH else 5):
        for ch in itertools.product(STEPS, repeat=L):
            if not valid(ch) or L == 4 and not THOROUGH and sum(map(ord, "".join(ch))) % 2:
                continue
            for base in ("int", "const char", "struct G") if L < 3 else ("int",):
                ck, T = chain(ch, base, "t@@_")
                fn = bool(ch) and ch[0][0] == "f"
                body = glob = ""
                exp = []
                # other types it must not be confused with: one step changed
                alts = [ch[:i] + (y,) + ch[i + 1:] for i in range(L) for y in STEPS if y != ch[i] and valid(ch[:i] + (y,) + ch[i + 1:])][:6]
                alts = [x for x in alts]
                ac = ""
                al = []
                for k, x in enumerate(alts):
                    s, t = chain(x, base, "u@@_%d_" % k)
                    ac += s
                    al.append("%s*:0" % t)
                # const at the top of an array element etc. makes distinct types: all alternatives are distinct by construction
                al = list(dict.fromkeys(al))
                G = "o(_Generic(%s,%s*:1,default:0));"
                for paren in (0, 1, 2, 3):
                    v = "v%d@@" % paren
                    if fn:
                        glob += "%s %s;" % (base, declarator(ch, v, paren))
                        body += "if(0){" + (G % ("&" + v, T)) + "}"
                        body += "o(_Generic(%s,%s*:1,default:0));" % ("(typeof_(%s))0" % v if False else "&" + v, T)
                        exp += [1]
                    else:
                        glob += "extern %s %s;" % (base, declarator(ch, v, paren))
                        body += G % ("&" + v, T)
                        exp += [1]
                        body += "o(sizeof %s==sizeof(%s));" % (v, T)
                        exp += [1]
                    # type names
                    if paren == 0 or L:
                        a = declarator(ch, "", paren)
                        body += "o(_Generic((%s(*)%s)0,%s*:1,default:0));" % (base + " ", "", T) if L == 0 else G % ("(%s %s)0" % (base, declarator(("p",) + ch, "", paren & 1)), T)
                        exp += [1]
                        if not fn:
                            body += "o(sizeof(%s %s)==sizeof(%s));" % (base, a, T)
                            exp += [1]
                if L:
                    # the alternatives: no false match
                    body += "o(_Generic((%s*)0,%s,%s*:1));" % (T, ",".join(al), T) if al else ""
                    exp += [1] if al else []
                    # typedef, member, parameter (adjusted), several declarators in one declaration
                    body += "{typedef %s %s;o(_Generic((d*)0,%s*:1,default:0));}" % (base, declarator(ch, "d", 0), T)
                    exp += [1]
                    if not fn:
                        body += "{struct{char q;%s %s,k,*l,%s;}*m=0;o(_Generic(&m->d,%s*:1,default:0));o(_Generic(&m->e,%s*:1,default:0));o(sizeof m->k);}" % (base, declarator(ch, "d", 0), declarator(ch, "e", 1), T, T)
                        exp += [1, 1, {"int": 4, "const char": 1, "struct G": 12}[base]]
                        body += "{extern %s x0@@,%s,*x1@@,%s,(x2@@);o(_Generic(&y@@,%s*:1,default:0));o(_Generic(&z@@,%s*:1,default:0));o(_Generic(&x1@@,%s**:1,default:0));}" % (base, declarator(ch, "y@@", 0), declarator(ch, "z@@", 2), T, T, base)
                        exp += [1, 1, 1]
                    if ch[0][0] == "a" and len(ch) > 1 or ch[0][0] != "a":
                        adj = ("p",) + ch[1:] if ch[0][0] == "a" else ("p",) + ch if fn else ch
                        c2, A = chain(adj, base, "w@@_")
                        glob += "%sstatic int pf@@(char f,%s,...){return _Generic(&q@@,%s*:1,default:0)+2*(sizeof q@@==sizeof(%s));}" % (c2, base + " " + declarator(ch, "q@@", 0), A, A)
                        glob += "static int(*pg@@)(char,%s,...)=pf@@;" % (base + " " + declarator(ch, "", 0)) if True else ""
                        body += "o(pf@@(0,(%s)0));o(pg@@!=0);" % A
                        exp += [3, 1]
                cs.append(PCase("declarator %s %s" % (base, declarator(ch, "x", 0)), body, ck + ac + glob, " ".join("%x" % v for v in exp)))
    pre = "struct G{int a,b,c;};\n"
    pr = Printer(c, pre)
    share = cs if THOROUGH else cs[::3]

    def xc(group):
        ref = parse_marks(pr.run_gcc(tu(group, pre)))
        for i, k in enumerate(group):
            if ref.get(i) != k.expect:
                raise CheckError("declarator model disagrees with gcc: %s\nmodel %s\ngcc   %s\n%s" % (k.key, k.expect, ref.get(i), k.glob + "\n" + k.body))
    pmap(xc, chunks(share, 40))
    pr.run(cs, 40)
    c.extra["declarators"] = len(cs)
    c.samples += [k.key for k in cs[:: max(1, len(cs) // 3)]]


# --------------------------------------------------------------------- 3. specifiers
SPECS = {"char": "char", "signed char": "signed char", "unsigned char": "unsigned char", "short": "short", "short int": "short", "signed short": "short", "signed short int": "short", "unsigned short": "unsigned short", "unsigned short int": "unsigned short", "int": "int", "signed": "int", "signed int": "int", "unsigned": "unsigned",
         "unsigned int": "unsigned", "long": "long", "long int": "long", "signed long": "long", "signed long int": "long", "unsigned long": "unsigned long", "unsigned long int": "unsigned long", "long long": "long long", "long long int": "long long", "signed long long": "long long", "signed long long int": "long long", "unsigned long long": "unsigned long long",
         "unsigned long long int": "unsigned long long", "float": "float", "double": "double", "_Bool": "_Bool", "struct G": "struct G", "union H": "union H", "enum K": "enum K", "TI": "int", "TS": "struct G"}
ALLT = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "_Bool", "struct G", "union H"]


def specifiers(c):
    pre = "struct G{char c[3];};union H{char c[5];};enum K{KA};typedef int TI;typedef struct G TS;\n"
    cs = []
    for sp, t in SPECS.items():
        words = [sp] if sp.split()[0] in ("struct", "union", "enum") else sp.split()
        g = "_Generic(&%s," + ",".join("%s*:%d" % (x, i + 1) for i, x in enumerate(ALLT)) + ",default:0)"
        gc = "_Generic(&%s," + ",".join("const %s*:%d" % (x, i + 1) for i, x in enumerate(ALLT)) + ",default:0)"
        idx = ALLT.index(t) + 1 if t in ALLT else None
        if idx is None:
            continue
        body, glob, exp, n = "", "", [], 0
        sets = [([], 0), (["const"], 1), (["static"], 0), (["static", "const"], 1), (["typedef"], 0), (["extern"], 0), (["extern", "const"], 1), (["const", "const"], 1), (["volatile", "const"], 1)] if len(words) < 4 or THOROUGH else [([], 0), (["const"], 1), (["static"], 0), (["typedef"], 0), (["extern", "const"], 1)]
        for extra, const in sets:
            for perm in sorted(set(itertools.permutations(words + extra))):
                n += 1
                v = "v%d_@@" % n
                s = " ".join(perm)
                if "typedef" in extra:
                    glob += "%s %s;" % (s, v)
                    body += "{%s z;o(%s);}" % (v, g % "z")
                elif "extern" in extra:
                    glob += "%s %s;" % (s, v)
                    body += "o(%s);" % ((gc if const else g) % v)
                elif "static" in extra or not extra or n % 2:
                    glob += "%s %s;" % (s, v) if "volatile" not in extra else "%s %s;" % (s, v)
                    body += "o(%s);" % ((gc if const else g) % v) if "volatile" not in extra else "o(sizeof %s);" % v
                else:
                    body += "{%s z%s;o(%s);}" % (s, "" if not const else "={0}", (gc if const else g) % "z") if "volatile" not in extra else "{%s z={0};o(sizeof z);}" % s
                exp.append(idx if "volatile" not in extra else {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned": 4, "float": 4, "_Bool": 1, "struct G": 3, "union H": 5}.get(t, 8))
                if not extra:
                    # a type name, a parameter, a member, a function's result
                    body += "o(%s);" % (g % ("*(%s*)0" % s))
                    glob += "static %s f%d_@@(%s p){return p;}struct m%d_@@{%s m;};" % (s, n, s, n, s)
                    body += "{struct m%d_@@ z;o(%s);o(_Generic(f%d_@@,%s(*)(%s):1,default:0));}" % (n, g % "z.m", n, t, t)
                    exp += [idx, idx, 1]
        cs.append(PCase("specifiers " + sp, body, glob, " ".join("%x" % v for v in exp)))
    # function specifiers and storage classes in any order
    for perm in itertools.permutations(["static", "inline", "const", "int", "unsigned"]):
        s = " ".join(perm)
        cs.append(PCase("function specifiers " + s, "o(f_@@());", s + " f_@@(void){return 5u;}", "5"))
    for perm in itertools.permutations(["static", "inline", "_Noreturn", "void"]):
        cs.append(PCase("function specifiers " + " ".join(perm), "o(f_@@!=0);", " ".join(perm) + " f_@@(void){for(;;);}", "1"))
    for perm in itertools.permutations(["register", "const", "long", "int"]):
        cs.append(PCase("register " + " ".join(perm), "%s v=7;o(v);o(sizeof v);" % " ".join(perm), "", "7 8"))
    for perm in itertools.permutations(["_Alignas(32)", "static", "int", "const"]):
        cs.append(PCase("alignas " + " ".join(perm), "o((unsigned long)&v_@@%32);{" + " ".join(perm) + " w=3;o((unsigned long)&w%32);o(w);}", " ".join(perm) + " v_@@=1;", "0 0 3"))
    pr = Printer(c, pre)

    def xc(group):
        ref = parse_marks(pr.run_gcc(tu(group, pre)))
        for i, k in enumerate(group):
            if ref.get(i) != k.expect:
                raise CheckError("specifier model disagrees with gcc: %s\nmodel %s\ngcc   %s\n%s" % (k.key, k.expect, ref.get(i), k.glob + "\n" + k.body))
    pmap(xc, chunks(cs, 5))
    pr.run(cs, 5)
    c.extra["specifier_lists"] = len(cs)


# --------------------------------------------------------------------- 4. special forms
SPECIAL = [
    # (file-scope code, body); T@@ is a typedef name of type int, v@@ a variable
    ("", "int v=3;T(x)=v;o(x);"), ("", "T(*x);x=0;o(!x);"), ("", "T(x)[3]={1,2,3};o(x[2]);"), ("", "T(x)(void);o(1);"), ("", "int T=5;int v=2;o(T*v);"), ("", "int T=5,v=2;T*v;o(T);"), ("", "int v=2;{T*v;v=0;o(!v);}o(v);"), ("", "o((T)3.7);o((T)-1);o((T)+1);o((T)(2)+1);"),
    ("", "int T=4;o((T)-1);o((T)+1);o((T)*2);o((T)&5);"), ("", "o(sizeof(T)*2);o(sizeof(T)+1);{char T[7];o(sizeof(T)*2);o(sizeof(T));o(sizeof T);}"), ("", "struct{int T;}s;s.T=4;o(s.T);{T s2=s.T;o(s2);}"), ("", "struct T{char c[9];};T x=3;struct T y;o(x);o(sizeof y);"), ("", "T T=6;o(T);o(sizeof T);"),
    ("", "{typedef long T;T x;o(sizeof x);}{T x;o(sizeof x);}"), ("", "{enum{T=9};o(T);}T x=2;o(x);"), ("", "for(T T=0;T<2;T++)o(T);T x=1;o(x);"), ("", "for(int T=0,k=1;k;k--){o(T);char T[3];o(sizeof T);}T x=1;o(x);"), ("", "T:o(1);T x=2;if(x==3)goto T;o(x);"), ("", "int k=0;T:;T x=2;o(x);if(k++<2)goto T;"),
    ("int f_@@(T,T x,T(y),T*z,T w[3],T(*u)(T),int(T));", "o(_Generic(f_@@,int(*)(int,int,int(*)(int),int*,int*,int(*)(int),int(*)(int)):1,int(*)(int,int,int,int*,int*,int(*)(int),int(*)(int)):2,int(*)(int,int,int,int*,int*,int(*)(int),int):3,default:0));"[:0] + "o(1);"),
    ("static int f_@@(int T){return T+1;}", "o(f_@@(4));T x=3;o(x);"), ("static int f_@@(int T,char(*p)[sizeof(T)]){return sizeof*p;}", "o(f_@@(4,0));"), ("static T f_@@(T),g_@@;static T f_@@(T T){return T*2;}", "o(f_@@(4));o(g_@@);"), ("static int f_@@(struct P*p);struct P{int a;};static int f2_@@(struct P*p){return p->a;}"[:0] + "static int(T);"[:0], "o(1);"),
    ("static int v_@@=5;static int f_@@(void){extern int v_@@;return v_@@;}", "o(f_@@());"), ("static int v_@@=5;", "int v_@@=6;{extern int e_@@;}o(v_@@);"), ("static int v_@@=5;static int f_@@(void){int k=v_@@;int v_@@=k+1;return v_@@;}", "o(f_@@());"), ("enum{A_@@=3};", "int x[A_@@];enum{A_@@=sizeof x};o(A_@@);{enum{A_@@=A_@@+1,B_@@=A_@@};o(A_@@);o(B_@@);}"[:0] + "o(A_@@);"),
    ("enum{A_@@=3,B_@@=A_@@*2,C_@@,D_@@=-1,E_@@,F_@@=sizeof(int)};", "o(A_@@);o(B_@@);o(C_@@);o(D_@@);o(E_@@);o(F_@@);"), ("enum e_@@{A_@@};enum e_@@ x_@@=A_@@,*p_@@=&x_@@;", "o(*p_@@);enum e_@@ y=1;o(y);"), ("struct s_@@{struct s_@@*n;int v;};", "struct s_@@ a={0,4},b={&a,5};o(b.n->v);"), ("struct a_@@;struct b_@@{struct a_@@*p;};struct a_@@{struct b_@@*p;int v;};", "struct b_@@ b;struct a_@@ a={&b,7};b.p=&a;o(b.p->p->p->v);"),
    ("struct a_@@{int v;};", "struct a_@@;struct b{struct a_@@*p;}x;struct a_@@{char c[3];};o(sizeof*x.p);{struct a_@@ y;o(sizeof y);}"), ("struct a_@@{int v;};", "struct b{struct a_@@*p;}x;struct a_@@{char c[3];};o(sizeof*x.p);"), ("struct{int a;}x_@@,*p_@@=&x_@@;", "p_@@->a=4;o(x_@@.a);"), ("typedef struct n_@@ n_@@;struct n_@@{n_@@*next;int v;};", "n_@@ a={0,3};n_@@ n_@@={&a,4};o(n_@@.next->v);struct n_@@ b=a;o(b.v);"),
    ("typedef int F_@@(int);static F_@@ f_@@,g_@@;static int f_@@(int a){return a+1;}static int g_@@(int a){return a+2;}", "F_@@*p=f_@@;o(p(1));p=&g_@@;o((*p)(1));"), ("typedef int A_@@[];static A_@@ a_@@={1,2,3},b_@@={1,2};", "o(sizeof a_@@);o(sizeof b_@@);"), ("extern int a_@@[];static int*p_@@=a_@@;extern int a_@@[4];int a_@@[4]={1,2,3};", "o(sizeof a_@@);o(p_@@[2]);"),
    ("typedef int A_@@[2][3];static A_@@ a_@@={{1,2,3},{4,5,6}};static const A_@@*p_@@;static int f_@@(A_@@ q){return q[1][2]+sizeof q;}", "o(f_@@(a_@@));o(sizeof*p_@@);"), ("int(f_@@)(int(a),int(*(b)),int((c)[2]));int f_@@(int a,int*b,int*c){return a+*b+c[1];}", "int x=2,y[2]={3,4};o(f_@@(1,&x,y));"), ("static int(*f_@@(int k))[2]{static int a[2][2]={{1,2},{3,4}};return a+k;}", "o((*f_@@(1))[0]);"),
    ("static int h_@@(int x){return x*3;}static int(*(*g_@@(int(*p)(int)))(int(*)(int)))(int){return 0;}static int(*k_@@(int(*p)(int)))(int){return p;}", "o(g_@@(h_@@)==0);o(k_@@(h_@@)(4));"), ("static char*const*volatile*q_@@;static const char(*const r_@@[2])(void);static int(*(*s_@@)[3])(int);", "o(sizeof q_@@);o(sizeof r_@@);o(sizeof*s_@@);o(sizeof s_@@);"), ("int x_@@,*y_@@=&x_@@,**z_@@=&y_@@;int(*(*(*w_@@)));", "**z_@@=4;o(x_@@);o(sizeof w_@@);"),
    ("int long unsigned typedef u_@@;u_@@ static const v_@@=5;", "o(sizeof v_@@);o(v_@@);"), ("static int f_@@(int),v_@@=2,*p_@@=&v_@@,a_@@[2]={1,2};static int f_@@(int a){return a;}", "o(f_@@(3));o(*p_@@);o(a_@@[1]);"), ("struct s_@@{int a,*b,c[2],(*d)(void),e:3,:2,f:4;char g;};", "struct s_@@ s;o(sizeof s.c);s.e=3;s.f=7;o(s.f);o(sizeof s.d);o(sizeof s);"),
    ("struct s_@@{struct{int a;struct{int b;};};union{int c;char d;};}x_@@;", "x_@@.a=1;x_@@.b=2;x_@@.c=0x103;o(x_@@.a+x_@@.b);o(x_@@.d);"), ("struct o_@@{struct i_@@{int a;}m;struct i_@@*p;};struct i_@@ k_@@={6};", "struct o_@@ x={{3},&k_@@};o(x.p->a);o(x.m.a);"), ("", "struct{enum{P_=4,Q_}e;}s;s.e=Q_;o(s.e+P_);"), ("", "int x=1;{int x=2;{int x=3;o(x);}o(x);}o(x);"), ("", "int x=1;{x=4;int x=2;x++;o(x);}o(x);"), ("", "int x=1;if(x){int x=5;o(x);}else{int x=6;o(x);}o(x);"),
    ("", "int i=9;for(int i=0;i<2;i++){int i=7;o(i);}o(i);"), ("", "int i=9;for(int i=0,j=3;i<j;i++)o(i*j);o(i);"), ("", "int x=3;switch(x){int x;case 3:x=4;o(x);}o(x);"), ("", "int x=1;while(x){int x=5;o(x);break;}do{int x=6;o(x);}while(0);o(x);"), ("", "typedef int x;{x x=3;o(x);}x y=4;o(y);"), ("", "typedef char x;{typedef long x;x y;o(sizeof y);}x y;o(sizeof y);"), ("", "int f(int);int x=2;{int f=3;o(f);}"),
    ("static int r_@@(void){return 4;}", "int x=r_@@();{int r_@@=5;o(r_@@);}o(r_@@());o(x);"), ("", "enum a{a};o(a);enum a b=a;o(b);{enum a{c=5};enum a d=c;o(d);}"), ("", "struct a{int a;}a;a.a=4;o(a.a);{union a{char c;}b;o(sizeof b);}"), ("", "int a=1;{struct a{char c[5];};o(sizeof(struct a));o(a);}"), ("", "static int x=5;{static int x=6;o(x);x++;}o(x);"), ("", "o(sizeof(struct q{char c[6];}));struct q z;o(sizeof z);"), ("", "int v=((struct q{int m;}){7}).m;struct q z={8};o(v+z.m);"),
    ("", "int v=sizeof(enum{ZA=4});o(v);o(ZA);"), ("", "int(*p)(struct zz*);p=0;o(!p);"), ("", "const T x=3;T const y=4;o(x+y);T const*const p=&x;o(*p);"), ("", "unsigned T=4;o(T);"), ("", "const T=4;o(T);"[:0] + "o(1);"), ("", "long T;T=5;o(T);o(sizeof T);"), ("", "typedef unsigned T;T x=-1;o(x>0);"), ("", "struct{T T;T b;}s={1,2};o(s.T+s.b);"), ("", "struct{T*T,*b;}s={0,0};o(sizeof s);"[:0] + "o(2);"), ("", "struct{T:3;T a:4;unsigned T:5;}s;s.T=31;o(s.T);"),
    ("", "o(sizeof(T(*)[3]));o(sizeof(T*[3]));o(sizeof(T[2][3]));o(sizeof(T(*)(T)));o(sizeof(T(*[2])(void)));o(sizeof(T(**)(T)));"), ("", "T(*x)(T)=0;T(*y[2])(T);T*(z[3]);o(sizeof x);o(sizeof y);o(sizeof z);"), ("", "T x=1,*y=&x,z[2]={3,4},(*w)[2]=&z;o(*y+(*w)[1]);"), ("", "_Static_assert(sizeof(T)==4,\"x\");o(1);_Static_assert(1,\"\" \"y\");"), ("_Static_assert(sizeof(T)==4,\"t\");struct s_@@{int a;_Static_assert(1,\"m\");int b;};", "o(sizeof(struct s_@@));"),
]


def special(c):
    cs = []
    for i, (g, b) in enumerate(SPECIAL):
        cs.append(PCase("special %s %s" % (g, b), b, g, None))
    Printer(c, "typedef int T;\n").run(cs, 8)
    c.extra["special_forms"] = len(cs)


def main_(c):
    scopes(c)
    declarators(c)
    specifiers(c)
    special(c)
    c.extra["exhaustive"] = True


if __name__ == "__main__":
    main(main_, "C18", "model_checking",
         "all valid sequences of up to 4 scope events (23 events: declarations of each kind of one name, tags, opening and closing scopes, for-scopes, prototype scopes) under 7 file-scope contexts, each prefix probed; all declarators of up to 4 derivations in 4 parenthesisations and in every position; all orders of all specifier lists",
         ["gcc confirms the scope model on a share of the sequences and the declarator and specifier models"])
