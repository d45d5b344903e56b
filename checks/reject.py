#!/usr/bin/env python3
"""C20: invalid programs are rejected, valid ones are not. The set of all short token sequences in every
grammatical context, all single-token edits of valid programs, the matrix of operators x operand types, all
constraint violations x the contexts they can stand in, malformed directives and character sequences, and programs
at and beyond the translation limits. Every program is given to the compiler; a second implementation (gcc)
decides what is valid."""
import itertools, os, re, time, struct, subprocess, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import vlib
from mc.vlib import THOROUGH, CheckError

W = os.cpu_count() or 8
CC1 = subprocess.check_output(["gcc", "-print-prog-name=cc1"], text=True).strip()
GARGS = ["-quiet", "-fsyntax-only", "-std=c11", "-pedantic-errors", "-fmax-errors=1", "-fno-diagnostics-show-caret", "@in", "-o", "@out"]

# What gcc diagnoses and this compiler doesn't check (see DESIGN.md): extensions and conversions that gcc itself only
# warns about by default ([-W...]), and constraints the compiler has no diagnostic for.
UNCHECKED = re.compile(
    r"useless type name in empty declaration|empty declaration|declaration does not declare anything|"
    r"with a value, in function returning void|first argument to .* not of type|"
    r"incompatible type for argument \d of .__builtin_va|second argument to .va_arg|"
    r"a label can only be part of a statement|label at end of compound|"
    r"does not support omitting parameter names|parameter name omitted|"
    r"declaration of (static|.extern.) variable .* in .for. loop|cannot reduce alignment|"
    r"is static but declared in inline function|in file scope inline|"
    r"not allowed in other than function prototype scope|"
    r"static or type qualifiers in non-parameter array declarator|non-outermost array|"
    # preprocessor: pedantic diagnostics and undefined behaviour without a constraint
    r"__VA_ARGS__ can only appear|extra tokens at end of|at least one argument for the|\" redefined|line number out of range|"
    r"embedding a directive within macro arguments|backslash-newline at end of file|"
    r"comparison of distinct pointer types|incompatible types when.*.(_Bool|enum \w+).|from a string literal with type|"
    r"has both .* and .* in declaration|"
    r"struct has no|no named members|flexible array member|no previous|"
    r"jump into scope|switch jumps|follows non-static|"
    r"invalid use of void|void value not ignored|"
    r"alignment (of|specified)|for (typedef|bit-field|register|parameter|function|unnamed)|"
    r"restrict|_Noreturn|_Thread_local|_Atomic|_Complex|"
    r"has unknown type name|"
    r"overflow in enumeration|ISO C restricts enumerator|"
    r"initializer element is not (a )?(computable|constant)")
JUDGED_W = re.compile(r"-Wimplicit-function-declaration|-Wimplicit-int")


def excluded(msg):
    first = re.split(r" /dev/shm| compilation terminated|\s\S+: note:", msg)[0]
    if "[-W" in first and not JUDGED_W.search(first):
        return True
    return bool(UNCHECKED.search(first))


def mclass(msg):
    first = re.split(r"\s\S+:\d+:\d+: | compilation terminated", msg)[0]
    return re.sub(r"[‘'][^’']*[’']", "Q", first)[:90].strip()


class Batch:
    def __init__(self, chk):
        self.chk = chk
        self.dir = os.path.join("/dev/shm" if os.access("/dev/shm", os.W_OK) else chk.work, "vf-C20-%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.exe = os.path.join(chk.work, "batch")
        rc, out = vlib.sh(["gcc", "-O1", "-o", self.exe, os.path.join(vlib.VERIF, "mc", "batch.c")])
        if rc:
            raise CheckError("batch: " + str(out))

    def close(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cc, texts, args, ext="c"):
        pack = os.path.join(self.dir, "pack")
        with open(pack, "wb") as f:
            for t in texts:
                b = t if isinstance(t, bytes) else t.encode()
                f.write(struct.pack("<I", len(b)) + b)
        subprocess.check_call([self.exe, cc, ext, str(W), self.dir, pack, os.path.join(self.dir, "res")] + args)
        R = [None] * len(texts)
        for k in range(W):
            with open(os.path.join(self.dir, "res.%d" % k), errors="replace") as f:
                for l in f:
                    a = l.rstrip("\n").split(" ", 3)
                    R[int(a[0])] = (int(a[1]), int(a[2]), a[3].strip() if len(a) > 3 else "")
        if any(r is None for r in R):
            raise CheckError("batch lost results")
        return R

    def ours(self, texts):
        return self.run(self.chk.cc, texts, ["-I", os.path.join(vlib.REPO, "include", "linux"), "@in", "-c", "-o", "@out"])

    def gcc(self, texts):
        r = self.run(CC1, texts, GARGS)
        for s, _, m in r:
            if s not in (0, 1):
                raise CheckError("gcc: status %d: %s" % (s, m))
        return r


def undefined(fam, name, msg):    # undefined behaviour that isn't a constraint violation
    if fam == "operands" and "invalid use of undefined type" in msg:    # 6.3.2.1p2
        return True
    # 6.4p3
    return "missing terminating" in msg and (fam == "directive" and name.startswith('F="') or fam == "characters" and name.endswith(" in 5"))


OUTSIDE = re.compile(r"Parameter can't have type void")     # gcc takes these in declarations


def judge(chk, b, fam, items, both=True):
    """items: (name, source). both: ask gcc about rejected programs too."""
    names = [n for n, _ in items]
    texts = [t for _, t in items]
    stats = collections.Counter()
    R = b.ours(texts)
    ask = [] if both is None else [i for i in range(len(texts)) if R[i][0] == 0 or (both if isinstance(both, bool) else both(items[i]))]
    G = dict(zip(ask, b.gcc([texts[i] for i in ask])))
    chk.count(len(texts), nontrivial=len(set(texts)))
    for i, (st, out, msg) in enumerate(R):
        bad = None
        if st >= 1000:
            bad = "crash", ("killed by signal %d" % (st - 1000) if st < 2000 else "does not end")
        elif st == 0 and not out:
            bad = "no output", "exit status 0 but no output"
        elif st and out:
            bad = "output", "exit status %d but an output file is left" % st
        elif st == 0 and i in G and G[i][0] and not excluded(G[i][2]) and not undefined(fam, names[i], G[i][2]):
            bad = "accepted", "accepted; gcc: " + G[i][2][:200]
        elif st and i in G and not G[i][0] and not OUTSIDE.search(msg):
            bad = "rejected", "valid (gcc) but rejected: " + msg
        stats["accepted" if st == 0 else "rejected"] += 1
        if i in G and G[i][0] and st == 0:
            stats["not judged"] += excluded(G[i][2])
        if bad:
            chk.violation("%s %s %s" % (fam, bad[0], names[i]), bad[1], {"in.c": texts[i]})
            if chk.too_many():
                return stats
    return stats


# ------------------------------------------------------------------ F1: token sequences
ALPHA = "int T x s f 1 ( ) { } [ ] ; , : ? = + * & . -> if else while do for switch case default break continue return goto sizeof typedef static struct \"a\" _Generic".split()
PRE = "typedef int T;struct S{int m;}s;int f(int);int x;\n"
CTX = {"body": "void g(void){%s}\n", "file": "%s\nint zz;\n", "loop": "void g(void){while(1){%s;}}\n",
       "expr": "int g(void){return %s;}\n", "sw": "void g(void){switch(x){%s}}\n", "mem": "struct M{%s};\n",
       "par": "void g(%s);\n", "init": "int y[3]={%s};\n", "decl": "int %s;\n", "args": "int g(void){return f(%s);}\n",
       "enum": "enum E{%s};\n", "cast": "int g(void){return (%s)x;}\n"}


def balanced(t):
    st = []
    for c in t:
        if c in "([{":
            st.append(")]}"["([{".index(c)])
        elif c in ")]}":
            if not st or st.pop() != c:
                return False
    return not st


def f1(chk, b):
    n = 4 if THOROUGH else 3
    for ctx in CTX:
        # ask gcc about rejected sequences up to this length as well
        full = 3 if THOROUGH else 2
        for k in range(n + 1):
            seqs = list(itertools.product(ALPHA, repeat=k))
            for part in range(0, len(seqs), 400000):
                its = [("%s: %s" % (ctx, " ".join(t)), PRE + CTX[ctx] % " ".join(t)) for t in seqs[part:part + 400000]]
                yield "sequences", judge(chk, b, "sequence", its, both=(lambda it: k <= full) if k <= 2 else
                                         (lambda it: k <= full and balanced(it[0].split(": ", 1)[1].split())))
                if chk.too_many():
                    return


# ------------------------------------------------------------------ F2: edits of valid programs
TOK = re.compile(r'\s*("[^"]*"|\'[^\']*\'|[A-Za-z_]\w*|[0-9][\w.]*|->|\+\+|--|<<=|>>=|<<|>>|\.\.\.|&&|\|\||[-+*/%&|^=!<>]=|.)')
SEEDS = [
"typedef int T ; struct S { int m ; T n [ 3 ] ; } s ; int x = 4 ; int f ( int a , T b ) { return a + b * x ; }",
"enum E { A , B = 3 , C } e ; int g ( void ) { int x = A ; switch ( x ) { case A : x = 1 ; break ; case B + 1 : default : x ++ ; } return x ; }",
"int f ( int n ) { int i , s = 0 ; for ( i = 0 ; i < n ; i ++ ) { if ( i % 2 ) continue ; else s += i ; } while ( s ) { s -- ; break ; } do s ++ ; while ( s < 3 ) ; return s ; }",
"struct P { int x , y ; unsigned b : 3 ; int : 0 ; } ; union U { int i ; float f ; struct P p ; } ; int g ( struct P * p , union U u ) { return p -> x + u . p . y + p -> b ; }",
"int a [ ] = { 1 , [ 3 ] = 4 , 5 } ; struct S { int k , v [ 2 ] ; } s = { . k = 1 , . v = { 2 , 3 } } ; char c [ 4 ] = \"ab\" ; char * q = \"cd\" \"e\" ;",
"typedef int ( * F ) ( int , char ) ; int h ( int a , char b ) { return a + b ; } F t [ 2 ] = { h , & h } ; int k ( F p ) { return p ( 1 , 2 ) + ( * p ) ( 3 , 4 ) + t [ 1 ] ( 5 , 6 ) ; }",
"int g ( int n ) { int v [ n ] ; v [ 0 ] = sizeof ( v ) + sizeof v [ 0 ] + sizeof ( int ) ; goto end ; end : return v [ 0 ] ; }",
"double d = 1.5 ; float f ( double a ) { int i = ( int ) a ; return ( float ) a / i - - d ; }",
"int g ( int a , int b ) { return a ? b : a && b || ! a ; } int h ( int a ) { return a << 2 | a >> 1 & ~ a ^ 3 ; }",
"_Static_assert ( sizeof ( int ) == 4 , \"m\" ) ; struct T { int a ; _Static_assert ( 1 , \"x\" ) ; } t ; _Alignas ( 8 ) int z ;",
"int g ( int x ) { return _Generic ( x , int : 1 , char : 2 , default : 3 ) ; }",
"struct S { int a , b ; } ; struct S mk ( int a ) { return ( struct S ) { a , 2 } ; } int g ( void ) { struct S s = mk ( 1 ) ; s = mk ( 2 ) ; return s . a + mk ( 3 ) . b ; }",
"static int x ; extern int y ; static inline int f ( void ) { static int n = 1 ; return n ++ ; } int g ( register int r ) { return r + f ( ) + y + x ; }",
"int g ( const int * p , int * const q ) { * q = * p ; p ++ ; return p [ 0 ] ; } const volatile int v = 1 ;",
"struct N { struct N * next ; int v ; struct { int a ; union { int b ; char c ; } ; } in ; } ; int g ( struct N * n ) { return n -> next -> v + n -> in . b ; }",
"void f ( int a [ 3 ] , int b [ static 2 ] , int ( * c ) [ 4 ] , int d ( int ) ) { a [ 0 ] = ( * c ) [ 1 ] + d ( b [ 1 ] ) ; } int ( * r ( void ) ) ( int ) ;",
"int g ( int x ) { { int x = 1 ; x ++ ; } if ( x ) { int y = x , * p = & y ; * p = 2 ; } a : x -- ; if ( x > 0 ) goto a ; for ( int i = 0 , j = 1 ; i < j ; ) i ++ ; return x , 1 ; }",
"long long l = 1LL ; unsigned char c = 'a' ; _Bool b ; signed short s ; int g ( void ) { c += 3 ; l *= c ; b = l ; s <<= 1 ; l %= 3 ; return c == l != b ; }",
"int a [ 2 ] [ 3 ] = { { 1 , 2 } , { 3 } } ; int ( * p ) [ 3 ] = a ; int g ( int i ) { return a [ i ] [ 1 ] + * * p + ( & a [ 1 ] - p ) ; }",
"int f ( int n , ... ) { return n ; } int g ( void ) { int x = 1 ; return f ( 1 , 2.5 , & x , \"s\" ) + _Alignof ( int ) + __builtin_offsetof ( struct { int a , b ; } , b ) ; }",
"int g ( int n ) { switch ( n ) { case 1 : for ( ; n ; n -- ) { case 2 : if ( n == 3 ) break ; else continue ; } break ; default : while ( n ) switch ( n ) { case 0 : continue ; } } return 0 ; }",
]
EALPHA = "int x f 1 \"a\" ( ) { } [ ] ; , : ? = * & . -> ++ 1.5 struct return T case else static".split()
EALPHA_T = EALPHA + "if while do for switch default break goto sizeof typedef const union enum _Generic += == && ! ~ - % << < extern void char double unsigned inline ... #".split()


def edits(seed, alpha, kind):
    t = TOK.findall(seed)
    n = len(t)
    yield "as is", t
    for i in range(n):
        yield "del %d" % i, t[:i] + t[i + 1:]
        yield "dup %d" % i, t[:i + 1] + t[i:]
        if i + 1 < n:
            yield "swap %d" % i, t[:i] + [t[i + 1], t[i]] + t[i + 2:]
        if i:
            yield "cut %d" % i, t[:i]
        own = list(dict.fromkeys(t)) if kind else []
        for a in list(dict.fromkeys(alpha + own)):
            yield "rep %d %s" % (i, a), t[:i] + [a] + t[i + 1:]
            yield "ins %d %s" % (i, a), t[:i] + [a] + t[i:]
    if kind > 1:     # pairs of deletions
        for i, j in itertools.combinations(range(n), 2):
            yield "del %d %d" % (i, j), t[:i] + t[i + 1:j] + t[j + 1:]


def f2(chk, b):
    its = {}
    for k, s in enumerate(SEEDS):
        for how, t in edits(s, EALPHA_T if THOROUGH else EALPHA, 2 if THOROUGH else 0):
            its.setdefault(" ".join(t), "seed %d %s" % (k, how))
    its = [(n, t) for t, n in its.items()]
    for part in range(0, len(its), 100000):
        yield "edits", judge(chk, b, "edit", its[part:part + 100000])
        if chk.too_many():
            return


# ------------------------------------------------------------------ F3: operators x operand types
VARS = ("struct S{int m;const int k;int bf:3;int ar[2];};struct Q{int m;};union U{int i;float f;};struct I;enum E{EA};typedef int T;"
        "struct S s;const struct S cs={1};struct Q q;union U u;struct I*pi;enum E e;"
        "int i;const int ci=1;char c;unsigned long ul;_Bool bo;float f;double d;"
        "int*p;const int*pc;int*const cp=0;char*pch;void*pv;int**pp;int a[3];const int ca[3];int aa[2][3];int fn(int);int(*pf)(int);void vf(void);struct S*ps;struct S sf(void);\n")
OPER = "i ci c ul bo f d e EA 1 0 1.5 p pc cp pch pv pp a ca aa fn pf ps s cs q u pi *pi vf() fn(1) sf() sf().m s.m s.k s.bf s.ar cs.m &i \"st\" (T)1 (void)0 i++ i=1 (i,i) (bo?i:c) &fn (struct_S){1} sizeof(int) p[1] *p *pp aa[1] *ca".replace("(struct_S)", "(struct*S)").split()
OPER = [o.replace("struct*S", "struct S") for o in OPER]
CORE = "i d p pc pv a fn s q ps c 0 1.5 u vf() pi *p s.bf cs".split()
BIN = "+ - * / % << >> & | ^ && || < <= == != ,".split()
ASG = "= += -= *= /= %= <<= &= ^=".split()
UN = ["+%s", "-%s", "~%s", "!%s", "*%s", "&%s", "++%s", "--%s", "%s++", "%s--", "sizeof %s", "_Alignof(int)+%s", "%s[1]", "1[%s]", "%s.m", "%s->m",
      "%s()", "%s(1)", "%s(1,2)", "fn(%s)", "%s?1:2", "&%s[0]", "**%s", "%s.zz", "&*%s", "*&%s", "sizeof(%s)", "-%s.m"]
TYPES = ["int", "char", "_Bool", "double", "float", "unsigned long", "void", "int*", "void*", "struct S*", "int(*)(int)", "struct S", "struct Q", "union U",
         "int[3]", "int(int)", "enum E", "const int", "struct I", "int(*)[3]"]
USES = ["if(%s);", "while(%s);", "do;while(%s);", "for(;%s;);", "for(%s;;)break;", "for(;;%s)break;", "switch(%s){}", "switch(1){case %s:;}", "%s;", "(void)%s;",
        "int z=%s;", "double z=%s;", "int*z=%s;", "struct S z=%s;", "int z[2]={%s};", "int z[3]=%s;", "struct S z={%s};", "int z[%s];", "static int z=%s;",
        "static int*z=%s;", "static int z[%s];", "struct{int z:%s;}z;", "enum{Z=%s};", "_Static_assert(%s,\"\");", "_Alignas(%s) int z;", "int z[]={[%s]=1};",
        "fn(%s);", "pf(%s);", "i=_Generic(%s,int:1,default:2);", "i=_Generic(1,int:%s);", "char z[3]=%s;", "char*z=%s;", "const int*z=%s;", "void*z=%s;", "int(*z)(int)=%s;",
        "union U z={%s};", "union U z=%s;", "_Bool z=%s;", "struct S*z=%s;"]
RETS = ["int", "void", "double", "int*", "struct S", "void*", "union U", "_Bool", "int(*"]


def f3(chk, b):
    its = []
    o1 = OPER
    o2 = OPER if THOROUGH else CORE

    def fnc(body):
        return VARS + "void g(void){%s}\n" % body

    for op in BIN:
        for x, y in itertools.product(o1 if THOROUGH else CORE, o1 if op in "+ - == , <" or THOROUGH else o2):
            its.append(("(%s) %s (%s)" % (x, op, y), fnc("(void)((%s)%s(%s));" % (x, op, y))))
    for op in ASG:
        for x, y in itertools.product(o1, o1 if THOROUGH or op in ("=", "+=") else o2):
            if x == "bo" and op in ("+=", "-="):
                continue    # gcc takes pointers here, against 6.5.16.2
            its.append(("%s %s (%s)" % (x, op, y), fnc("%s %s (%s);" % (x, op, y))))
    for y, z in itertools.product(o1, o1 if THOROUGH else CORE):
        its.append(("i?%s:%s" % (y, z), fnc("(void)(i?(%s):(%s));" % (y, z))))
    for u, x in itertools.product(UN, o1):
        its.append((u % x, fnc("(void)(%s);" % (u % x))))
        its.append((u % ("(" + x + ")"), fnc("(void)(%s);" % (u % ("(" + x + ")")))))
    for t, x in itertools.product(TYPES, o1):
        its.append(("(%s)%s" % (t, x), fnc("(void)((%s)(%s));" % (t, x))))
    for u, x in itertools.product(USES, o1):
        if x in ("ci", "cs.m", "cp") and u.startswith("static"):
            continue    # gcc folds const variables
        its.append((u % x, fnc(u % x)))
    for r, x in itertools.product(RETS, [""] + o1):
        h = "int(*g(void))(int)" if r == "int(*" else r + " g(void)"
        its.append(("%s return %s" % (r, x), VARS + h + "{return %s;}\n" % x))
    its = list({t: (n, t) for n, t in its}.values())
    for part in range(0, len(its), 60000):
        yield "operands", judge(chk, b, "operands", its[part:part + 60000])
        if chk.too_many():
            return


# ------------------------------------------------------------------ F4: constraint violations x contexts
# (name, kind, invalid, valid): kind e = expression, s = statement, d = declaration (any scope), f = file scope only, m = member list
CV = [
    ("undeclared", "e", "zz+1", "i+1"), ("undeclared call", "e", "zz(1)", "fn(1)"), ("undeclared sizeof", "e", "sizeof zz", "sizeof i"),
    ("few arguments", "e", "fn()", "fn(1)"), ("many arguments", "e", "fn(1,2)", "fn(1)"), ("few via pointer", "e", "pf()", "pf(1)"), ("many via pointer", "e", "(*pf)(1,2)", "(*pf)(2)"),
    ("few variadic", "e", "va()", "va(1,2,3)"), ("nested call count", "e", "fn(fn(1,2))", "fn(fn(1))"), ("void params", "e", "nf(1)", "nf()"),
    ("no member", "e", "s.zz", "s.m"), ("no member ptr", "e", "ps->zz", "ps->m"), ("member of int", "e", "i.m", "s.m"), ("arrow on struct", "e", "s->m", "(&s)->m"),
    ("dot on pointer", "e", "ps.m", "(*ps).m"), ("deref int", "e", "*i", "*p"), ("deref double", "e", "*d", "*&d"), ("index int", "e", "i[1]", "p[1]"), ("call int", "e", "i(1)", "fn(1)"),
    ("call struct", "e", "s(1)", "pf(1)"), ("address of rvalue", "e", "*&(i+1)", "*&i"), ("address of constant", "e", "&1==p", "&i==p"), ("address of call", "e", "&fn(1)==p", "&fn==pf"),
    ("address of bit-field value", "e", "&(i,i)==p", "&i==p"), ("address of register", "e", "({1;})+zz", "i"),
    ("assign rvalue", "e", "(i+1)=2", "i=2"), ("assign constant", "e", "1=i", "i=1"), ("assign call", "e", "fn(1)=2", "*p=2"), ("assign array", "e", "(a=b2)!=0", "(a[0]=b2[0])!=0"), ("assign function", "e", "(fn=pf)!=0", "(pf=fn)!=0"),
    ("assign const", "e", "ci=1", "i=1"), ("assign const member", "e", "s.k=1", "s.m=1"), ("assign member of const", "e", "cs.m=1", "s.m=1"), ("assign through const pointer", "e", "*pc=1", "*p=1"),
    ("assign const pointer", "e", "(cp=p)!=0", "(p=cp)!=0"), ("assign const element", "e", "ca[1]=1", "a[1]=1"), ("compound const", "e", "ci+=1", "i+=1"), ("increment const", "e", "ci++", "i++"), ("preincrement const", "e", "++ci", "++i"),
    ("decrement const deref", "e", "(*pc)--", "(*p)--"), ("assign cast", "e", "(int)i=1", "i=(int)1"), ("increment rvalue", "e", "(i+1)++", "i++"), ("increment cast", "e", "++(int)i", "++i"), ("assign conditional", "e", "(i?i:ci)=1", "*(i?&i:p)=1"),
    ("assign comma", "e", "(i,i)=1", "i,i=1"), ("assign member of rvalue", "e", "sf().m=1", "sf().m==1"), ("const nested", "e", "cs.ar[0]=1", "s.ar[0]=1"), ("const via arrow", "e", "pcs->m=1", "ps->m=1"),
    ("add pointers", "e", "p+p!=0", "p+1!=0"), ("pointer times", "e", "p*1", "i*1"), ("pointer mod", "e", "i%p", "i%3"), ("float mod", "e", "d%2", "i%2"), ("float shift", "e", "d<<1", "i<<1"), ("shift by float", "e", "i<<d", "i<<1"),
    ("float and", "e", "d&1", "i&1"), ("float xor", "e", "i^d", "i^1"), ("bnot float", "e", "~d", "~i"), ("bnot pointer", "e", "~p", "~i"), ("minus pointer", "e", "-p!=0", "-i!=0"), ("struct plus", "e", "s+1", "s.m+1"), ("struct compare", "e", "s==s", "s.m==s.m"),
    ("struct and", "e", "s&&1", "s.m&&1"), ("not struct", "e", "!s", "!s.m"), ("int minus pointer", "e", "(1-p)!=0", "(p-1)!=0"), ("pointer plus float", "e", "(p+d)!=0", "(p+i)!=0"), ("subscript float", "e", "a[d]", "a[i]"),
    ("subtract unrelated", "e", "p-pch", "p-p"), ("struct condition", "e", "s?1:2", "s.m?1:2"), ("conditional struct/int", "e", "(i?s:1).m", "(i?s:s).m"), ("conditional two structs", "e", "(i?s:q).m", "(i?s:s).m"),
    ("conditional pointer/int", "e", "(i?p:1)!=0", "(i?p:0)!=0"), ("compare pointer/int", "e", "p==1", "p==0"), ("cast to struct", "e", "((struct S)i).m", "((struct S){1}).m"), ("cast struct to int", "e", "(int)s", "(int)s.m"),
    ("cast pointer to float", "e", "(double)p", "(double)i"), ("cast float to pointer", "e", "(int*)d!=0", "(int*)ul!=0"), ("cast to array", "e", "((int[1])i)[0]", "((int[1]){1})[0]"), ("struct argument", "e", "fn(s)", "fn(s.m)"), ("int for struct argument", "e", "fs(1)", "fs(s)"),
    ("other struct argument", "e", "fs(q)", "fs(s)"), ("pointer for float argument", "e", "fd(p)", "fd(1)"), ("sizeof incomplete", "e", "sizeof(struct I)", "sizeof(struct S)"), ("sizeof deref incomplete", "e", "sizeof(*pi)", "sizeof(*ps)"), ("sizeof incomplete array", "e", "sizeof(int[])", "sizeof(int[1])"),
    ("member of incomplete", "e", "pi->m", "ps->m"), ("arithmetic on incomplete", "e", "(pi+1)!=0", "(ps+1)!=0"), ("offsetof unknown", "e", "__builtin_offsetof(struct S,zz)", "__builtin_offsetof(struct S,m)"),
    ("generic none", "e", "_Generic(i,char:1)", "_Generic(i,int:1)"), ("generic twice", "e", "_Generic(i,int:1,int:2)", "_Generic(i,int:1,char:2)"), ("too many literal initializers", "e", "((int[1]){1,2})[0]", "((int[2]){1,2})[0]"),
    ("too many struct literal initializers", "e", "((struct Q){1,2}).m", "((struct Q){1}).m"), ("literal designator", "e", "((struct Q){.zz=1}).m", "((struct Q){.m=1}).m"), ("literal index", "e", "((int[2]){[2]=1})[0]", "((int[2]){[1]=1})[0]"), ("negative index", "e", "((int[2]){[-1]=1})[0]", "((int[2]){[0]=1})[0]"),
    ("missing operand", "e", "i+", "i+1"), ("missing left", "e", "*", "*p"), ("two operands", "e", "i i", "i,i"), ("unbalanced", "e", "(i", "(i)"), ("unbalanced close", "e", "i)", "(i)"), ("empty parens", "e", "()", "(i)"), ("empty index", "e", "a[]", "a[0]"), ("conditional without colon", "e", "i?1", "i?1:2"),
    ("conditional empty", "e", "i? :2", "i?1:2"), ("argument comma", "e", "fn(1,)", "fn(1)"), ("empty initializer element", "e", "((int[2]){,1})[0]", "((int[2]){1,})[0]"), ("keyword operand", "e", "while", "i"), ("type operand", "e", "int", "i"), ("sizeof type without parens", "e", "sizeof int", "sizeof(int)"),
    ("bad integer", "e", "1z", "1u"), ("bad suffix", "e", "1uu", "1u"), ("bad octal", "e", "08", "07"), ("bad hex", "e", "0x", "0x1"), ("bad exponent", "e", "1e", "1e1"), ("bad float suffix", "e", "1.5q3", "1.5f"), ("bad lll", "e", "1lll", "1ll"), ("mixed ll", "e", "1lL", "1LL"), ("hex float without exponent", "e", "0x1.8", "0x1.8p1"),
    ("break outside", "s", "break;", "while(1)break;"), ("continue outside", "s", "continue;", "while(0)continue;"), ("case outside", "s", "case 1:;", "switch(i){case 1:;}"), ("default outside", "s", "default:;", "switch(i){default:;}"),
    ("continue in switch", "s", "switch(i){case 1:continue;}", "while(0)switch(i){case 1:continue;}"), ("two defaults", "s", "switch(i){default:;default:;}", "switch(i){default:switch(i){default:;}}"), ("two equal cases", "s", "switch(i){case 3:;case 1+2:;}", "switch(i){case 3:;case 1+3:;}"), ("equal case in loop", "s", "switch(i){case 3:while(i){case 3:;}}", "switch(i){case 3:while(i)switch(i){case 3:;}}"),
    ("equal converted case", "s", "switch(i){case 0x100000003:;case 3:;}", "switch(i){case 0x100000003:;case 4:;}"), ("equal unsigned case", "s", "switch(1u){case -1:;case 4294967295:;}", "switch(1ull){case -1:;case 4294967295:;}"),
    ("generic default twice", "e", "_Generic(i,default:1,default:2)", "_Generic(i,default:1,char:2)"), ("generic default between", "e", "_Generic(i,int:1,default:2,int:3)", "_Generic(i,int:1,default:2,char:3)"),
    ("generic default first", "e", "_Generic(i,default:2,int:1,int:3)", "_Generic(i,default:2,int:1,char:3)"), ("case not constant", "s", "switch(i){case 1+i:;}", "switch(i){case 1+2:;}"),
    ("case float", "s", "switch(i){case 1.0:;}", "switch(i){case (int)1.0:;}"), ("switch on float", "s", "switch(d){}", "switch((int)d){}"), ("switch on pointer", "s", "switch(p){}", "switch(*p){}"), ("switch on struct", "s", "switch(s){}", "switch(s.m){}"),
    ("undefined label", "s", "goto zz;", "goto zz;zz:;"), ("label twice", "s", "zz:;zz:;", "zz:;zy:;"), ("label in two blocks", "s", "{zz:;}{zz:;}", "{zz:;}{zy:;}"), ("goto without label", "s", "goto;", "goto zz;zz:;"), ("goto expression", "s", "goto 1;", "goto zz;zz:;"),
    ("else without if", "s", "else;", "if(i);else;"), ("double else", "s", "if(i);else;else;", "if(i);else if(i);else;"), ("if without condition", "s", "if();", "if(i);"), ("if without parens", "s", "if i;", "if(i);"), ("while without condition", "s", "while();", "while(i);"), ("do without while", "s", "do;", "do;while(0);"),
    ("do without semicolon", "s", "do;while(0)i++;", "do;while(0);i++;"), ("for two parts", "s", "for(;)break;", "for(;;)break;"), ("for four parts", "s", "for(;;;)break;", "for(;;)break;"), ("if struct", "s", "if(s);", "if(s.m);"), ("while struct", "s", "while(s)break;", "while(s.m)break;"), ("for struct", "s", "for(;s;)break;", "for(;s.m;)break;"),
    ("do struct", "s", "do;while(s);", "do;while(0);"), ("missing semicolon", "s", "i=1 i=2;", "i=1;i=2;"), ("missing body", "s", "{if(i)}", "{if(i);}"), ("missing brace", "s", "{i=1;", "{i=1;}"), ("extra brace", "s", "i=1;}", "{i=1;}"), ("nested function", "s", "int nest(void){return 1;}", "int nest(void);"), ("case without colon", "s", "switch(i){case 1;}", "switch(i){case 1:;}"),
    ("case range", "s", "switch(i){case:;}", "switch(i){case 3:;}"), ("declaration as body", "s", "if(i) int zz;", "if(i){int zz;}"), ("declaration as loop body", "s", "while(0) int zz;", "while(0){int zz;}"), ("statement expression type", "s", "int;i+;", "i;"), ("vla initializer", "s", "int zz[i]={1};", "int zz[2]={1};"), ("static vla", "s", "static int zz[i];", "static int zz[2];"),
    ("redeclared local", "s", "{int zz;int zz;}", "{int zz;{int zz;}}"), ("redeclared as other type", "s", "{int zz;char zz;}", "{int zz;{char zz;}}"), ("local and typedef", "s", "{int zz;typedef int zz;}", "{int zz;{typedef int zz;}}"), ("local and enum", "s", "{int zz;enum{zz};}", "{int zz;enum{zy};}"), ("extern local initializer", "s", "extern int zz=1;", "extern int zz;"),
    ("local static function", "s", "static int zz(void);", "int zz(void);"), ("register address", "s", "register int zz=0;&zz;", "int zz=0;&zz;"), ("static initializer variable", "s", "static int zz=i;", "static int zz=1;"), ("static initializer call", "s", "static int zz=fn(1);", "int zz=fn(1);"), ("return missing value", "s", "return;", "return 0;"), ("return struct", "s", "return s;", "return s.m;"),
    ("use before declaration", "s", "zz=1;int zz;", "int zz;zz=1;"), ("use after scope", "s", "{int zz;}zz=1;", "{int zz;zz=1;}"), ("use after for", "s", "for(int zz=0;;)break;zz=1;", "int zz;for(zz=0;;)break;zz=1;"), ("own initializer other scope", "s", "int zz=zy,zy=1;", "int zy=1,zz=zy;"),
    ("two types", "d", "int char zz;", "unsigned char zz;"), ("three longs", "d", "long long long zz;", "long long zz;"), ("signed unsigned", "d", "signed unsigned zz;", "signed int zz;"), ("short long", "d", "short long zz;", "short int zz;"), ("short char", "d", "short char zz;", "short zz;"), ("long float", "d", "long float zz;", "long zz;"), ("unsigned double", "d", "unsigned double zz;", "unsigned zz;"), ("unsigned bool", "d", "unsigned _Bool zz;", "_Bool zz;"), ("signed void", "d", "signed void *zz;", "void *zz;"),
    ("typedef and int", "d", "T int zz;", "T zz;"), ("int struct", "d", "int struct S zz;", "struct S zz;"), ("struct int", "d", "struct S int zz;", "struct S *zz;"), ("two storage classes", "d", "static extern int zz;", "static int zz;"), ("typedef static", "d", "typedef static int zz;", "typedef int zz;"), ("void variable", "b", "void zz;", "void *zz;"), ("incomplete variable", "d", "struct I2 zz[1];", "struct I2 *zz;"), ("void array", "d", "void zz[2];", "void *zz[2];"),
    ("array of functions", "d", "int zz[2](void);", "int (*zz[2])(void);"), ("function returning array", "d", "int zz(void)[2];", "int (*zz(void))[2];"), ("function returning function", "d", "int zz(void)(void);", "int (*zz(void))(void);"), ("array of incomplete arrays", "d", "int (*zz)[][];", "int (*zz)[][2];"), ("negative array", "d", "int zz[-1];", "int zz[1];"), ("negative array computed", "d", "int zz[1-2];", "int zz[2-1];"),
    ("float array size", "d", "int zz[1.5];", "int zz[(int)1.5];"), ("pointer array size", "d", "int zz[(int*)1];", "int zz[sizeof(int*)];"), ("missing declarator", "d", "int *;", "int *zz;"), ("missing name", "d", "int (void);", "int zz(void);"), ("two declarators", "d", "int zz zy;", "int zz,zy;"), ("trailing comma", "d", "int zz,;", "int zz;"), ("initializer missing", "d", "int zz=;", "int zz=1;"), ("empty bracket init", "d", "int zz[2]=1;", "int zz[2]={1};"),
    ("too many initializers", "d", "int zz[2]={1,2,3};", "int zz[3]={1,2,3};"), ("too many in nested", "d", "int zz[2][2]={{1,2,3}};", "int zz[2][3]={{1,2,3}};"), ("too many in struct", "d", "struct Q zz={1,2};", "struct Q zz={1};"), ("too many scalar", "d", "int zz={1,2};", "int zz={1};"), ("too many union", "d", "union U zz={1,2};", "union U zz={1};"), ("too many in inner struct", "d", "struct{struct Q q;int n;}zz={{1,2},3};", "struct{struct Q q;int n;}zz={{1},3};"), ("too long string", "d", "char zz[2]=\"abc\";", "char zz[3]=\"abc\";"),
    ("string for int array", "d", "int zz[3]=\"ab\";", "char zz[3]=\"ab\";"), ("string for pointers", "d", "char*zz[2]=\"ab\";", "char*zz[2]={\"ab\"};"), ("wide for char", "d", "char zz[]=L\"ab\";", "char zz[]=\"ab\";"), ("struct from int", "d", "struct S zz=1;", "struct S zz={1};"), ("designator in scalar", "d", "int zz={.m=1};", "int zz={1};"), ("member designator of array", "d", "int zz[2]={.m=1};", "int zz[2]={[0]=1};"),
    ("index designator of struct", "d", "struct S zz={[0]=1};", "struct S zz={.m=1};"), ("unknown designator", "d", "struct S zz={.zz=1};", "struct S zz={.m=1};"), ("designator out of range", "d", "int zz[2]={[2]=1};", "int zz[2]={[1]=1};"), ("nested designator out of range", "d", "struct{int a[2];}zz={.a[2]=1};", "struct{int a[2];}zz={.a[1]=1};"), ("designator not constant", "d", "int zz[2]={[i]=1};", "int zz[2]={[1]=1};"), ("designator float", "d", "int zz[2]={[1.0]=1};", "int zz[2]={[1]=1};"), ("designator without value", "d", "int zz[2]={[1]};", "int zz[2]={[1]=2};"),
    ("assert fails", "d", "_Static_assert(0,\"m\");", "_Static_assert(1,\"m\");"), ("assert computed", "d", "_Static_assert(sizeof(int)==5,\"m\");", "_Static_assert(sizeof(int)==4,\"m\");"), ("assert wide", "d", "_Static_assert(!0x100000000,\"m\");", "_Static_assert(0x100000000,\"m\");"), ("assert not constant", "d", "_Static_assert(i,\"m\");", "_Static_assert(2,\"m\");"), ("assert message", "d", "_Static_assert(1,2);", "_Static_assert(1,\"2\");"), ("assert semicolon", "d", "_Static_assert(1,\"m\")", "_Static_assert(1,\"m\");"),
    ("alignas 3", "d", "_Alignas(3) int zz;", "_Alignas(4) int zz;"), ("alignas expression", "d", "_Alignas(i) int zz;", "_Alignas(8) int zz;"), ("alignas empty", "d", "_Alignas() int zz;", "_Alignas(int) int zz;"), ("alignas float", "d", "_Alignas(8.0) int zz;", "_Alignas(double) int zz;"),
    ("struct twice", "d", "struct Z{int a;};struct Z{int a;};", "struct Z{int a;};struct Y{int a;};"), ("enum twice", "d", "enum Z{ZA};enum Z{ZB};", "enum Z{ZA};enum Y{ZB};"), ("union and struct", "d", "struct Z{int a;};union Z*zz;", "struct Z{int a;};struct Z*zz;"), ("struct and enum", "d", "struct Z{int a;};enum Z{ZA};", "struct Z{int a;};enum Y{ZA};"), ("enum and struct", "d", "enum Z{ZA};struct Z*zz;", "enum Z{ZA};struct Y*zz;"), ("enumerator twice", "d", "enum{ZA,ZA};", "enum{ZA,ZB};"), ("enumerator and variable", "d", "enum{ZA};int ZA;", "enum{ZA};int ZB;"),
    ("enumerator not constant", "d", "enum{ZA=i};", "enum{ZA=1};"), ("enumerator float", "d", "enum{ZA=1.5};", "enum{ZA=(int)1.5};"), ("enum empty", "d", "enum Z{};", "enum Z{ZA};"), ("enum double comma", "d", "enum Z{ZA,,ZB};", "enum Z{ZA,ZB,};"), ("enum without tag", "d", "enum zz;", "enum Z{ZA}zz;"), ("struct without tag", "d", "struct;", "struct Z;"), ("enumerator value missing", "d", "enum{ZA=};", "enum{ZA=2};"),
    ("typedef redefined", "d", "typedef int zz;typedef char zz;", "typedef int zz;typedef int zz;"), ("typedef and variable", "d", "typedef int zz;int zz;", "typedef int zz;int zy;"), ("typedef as value", "d", "typedef int zz;int zy=sizeof(zz)+zz;", "typedef int zz;int zy=sizeof(zz)+1;"), ("unknown type", "d", "zz zy;", "T zy;"), ("unknown type parameter", "d", "int zy(zz a);", "int zy(T a);"), ("parameter comma", "d", "int zz(int,);", "int zz(int,int);"),  ("parameter void twice", "d", "int zz(void,void);", "int zz(int,int);"),
    ("parameter static", "d", "int zz(static int a);", "int zz(register int a);"), ("parameter same name", "d", "int zz(int a,int a);", "int zz(int a,int b);"), ("parameter initializer", "d", "int zz(int a=1);", "int zz(int a);"), ("ellipsis first", "d", "int zz(...);", "int zz(int,...);"), ("ellipsis middle", "d", "int zz(int,...,int);", "int zz(int,int,...);"), ("function initializer", "d", "int zz(void)=1;", "int (*zz)(void)=0;"), ("conflicting functions", "d", "int zz(int);int zz(char);", "int zz(int);int zz(int);"), ("conflicting result", "d", "int zz(int);char zz(int);", "int zz(int);int zz(const int);"),
    ("function and variable", "d", "int zz(void);extern int zz;", "int zz(void);extern int zy;"), ("conflicting extern", "d", "extern int zz;extern char zz;", "extern int zz;extern int zz;"), ("conflicting array", "d", "extern int zz[2];extern int zz[3];", "extern int zz[2];extern int zz[];"), ("conflicting pointer", "d", "extern int*zz;extern char*zz;", "extern int*zz;extern int*zz;"), ("conflicting const", "d", "extern const int zz;extern int zz;", "extern const int zz;extern const int zz;"), ("conflicting parameters count", "d", "int zz(int);int zz(int,int);", "int zz();int zz(int);"),
    ("conflicting parameter pointers", "d", "int zz(int*);int zz(char*);", "int zz(int[]);int zz(int*);"), ("variadic conflict", "d", "int zz(int,...);int zz(int);", "int zz(int,...);int zz(int,...);"), ("bit-field too wide", "d", "struct{int b:33;}zz;", "struct{int b:32;}zz;"), ("bit-field negative", "d", "struct{int b:-1;}zz;", "struct{int b:1;}zz;"), ("named zero width", "d", "struct{int b:0;}zz;", "struct{int b:1,:0;}zz;"), ("bit-field float", "d", "struct{float b:3;}zz;", "struct{unsigned b:3;}zz;"), ("bit-field pointer", "d", "struct{int*b:3;}zz;", "struct{int b:3;}zz;"), ("bit-field width variable", "d", "struct{int b:i;}zz;", "struct{int b:2;}zz;"),
    ("bit-field width missing", "d", "struct{int b:;}zz;", "struct{int b:2;}zz;"), ("bit-field width float", "d", "struct{int b:1.5;}zz;", "struct{int b:(int)1.5;}zz;"), ("char bit-field too wide", "d", "struct{char b:9;}zz;", "struct{char b:8;}zz;"), ("bool bit-field too wide", "d", "struct{_Bool b:9;}zz;", "struct{_Bool b:1;}zz;"), ("address of bit-field", "e", "&s.bf==p", "&s.m==p"), ("sizeof bit-field", "e", "sizeof(s.bf)", "sizeof(s.m)"),
    ("duplicate member", "d", "struct{int a;char a;}zz;", "struct{int a;char b;}zz;"), ("incomplete member", "d", "struct Z{struct I2 a;}zz;", "struct Z{struct I2*a;}zz;"), ("self member", "d", "struct Z{struct Z a;}zz;", "struct Z{struct Z*a;}zz;"), ("self array member", "d", "struct Z{struct Z a[2];}zz;", "struct Z{struct Z*a[2];}zz;"), ("void member", "d", "struct Z{void a;}zz;", "struct Z{void*a;}zz;"), ("function member", "d", "struct Z{int a(void);}zz;", "struct Z{int(*a)(void);}zz;"), ("incomplete array member first", "d", "struct Z{int a[];int b;}zz;", "struct Z{int b;int a[];}zz;"), ("member initializer", "d", "struct Z{int a=1;}zz;", "struct Z{int a;}zz;"),
    ("member without semicolon", "d", "struct Z{int a;int b}zz;", "struct Z{int a;int b;}zz;"), ("member storage class", "d", "struct Z{static int a;}zz;", "struct Z{int a;}zz;"), ("member typedef", "d", "struct Z{typedef int a;}zz;", "struct Z{const int a;}zz;"), ("member without type", "d", "struct Z{a;}zz;", "struct Z{T a;}zz;"), ("missing semicolon after struct", "d", "struct Z{int a;}int zz;", "struct Z{int a;};int zz;"), ("member vla", "d", "struct Z{int a[i];}zz;", "struct Z{int a[2];}zz;"),
    ("static array parameter outside", "d", "int zz[static 2];", "int zz[2];"), ("qualified array outside", "d", "int zz[const 2];", "int zz[2];"),
    ("function twice", "f", "int zz(void){return 1;}int zz(void){return 1;}", "int zz(void);int zz(void){return 1;}int zz(void);"), ("definition conflict", "f", "int zz(int);char zz(int a){return a;}", "int zz(int);int zz(int a){return a;}"), ("definition parameters conflict", "f", "int zz(int);int zz(char*a){return 1;}", "int zz(int*);int zz(int a[]){return 1;}"), ("variable and function definition", "f", "int zz;int zz(void){return 1;}", "int zy;int zz(void){return 1;}"),
    ("two initializers", "f", "int zz=1;int zz=1;", "int zz;int zz=1;int zz;"), ("initializer variable", "f", "int zz=i;", "int*zz=&i;"), ("initializer call", "f", "int zz=fn(1);", "int(*zz)(int)=fn;"), ("initializer deref", "f", "int zz=*p;", "int*zz=&*&i;"), ("initializer member", "f", "int zz=s.m;", "int*zz=&s.m;"), ("initializer element", "f", "int zz=a[0];", "int*zz=&a[0];"), ("initializer assignment", "f", "int zz=(i=1);", "int zz=(1);"), ("initializer increment", "f", "int zz=i++;", "int zz=+1;"), 
    ("global vla", "f", "int zz[i];", "int zz[3];"), ("global vla pointer", "f", "int(*zz)[i];", "int(*zz)[3];"), ("global register", "f", "register int zz;", "static int zz;"), ("global auto", "f", "auto int zz;", "extern int zz;"), ("statement at file scope", "f", "i=1;", "int i;"), ("expression at file scope", "f", "i+1;", "int zz=1;"), ("block at file scope", "f", "{int zz;}", "int zz;"), ("tentative incomplete", "f", "struct Z zz;", "struct Z zz;struct Z{int a;};"), ("function without body", "f", "int zz(void)int zy;", "int zz(void);int zy;"), ("body on variable", "f", "int zz{return 1;}", "int zz(void){return 1;}"),
    ("body in list", "f", "int zz,zy(void){return 1;}", "int zz;int zy(void){return 1;}"), ("unclosed body", "f", "int zz(void){return 1;", "int zz(void){return 1;}"), ("parameter redeclared", "f", "int zz(int a){int a;return a;}", "int zz(int a){{int a=1;}return a;}"), ("typedef function body", "f", "typedef int zz(void){return 1;}", "typedef int zz(void);"), ("assign parameter const", "f", "int zz(const int a){a=1;return a;}", "int zz(int a){a=1;return a;}"), ("function typedef name", "f", "typedef int zz;int zz(void){return 1;}", "typedef int zz;int zy(void){return 1;}"),
    ("return nothing", "f", "int zz(void){return;}", "void zz(void){return;}"), ("return struct for int", "f", "int zz(void){return s;}", "struct S zz(void){return s;}"), ("return int for struct", "f", "struct S zz(void){return 1;}", "struct S zz(void){return s;}"), ("return pointer for double", "f", "double zz(void){return p;}", "int*zz(void){return p;}"), ("return other struct", "f", "struct Q zz(void){return s;}", "struct Q zz(void){return q;}"), ("enumerator redeclares function", "f", "int zz(void);enum{zz};", "int zz(void);enum{zy};"),
    ("unknown attribute use", "f", "struct __attribute__((packed) Z{int a;};", "struct __attribute__((packed)) Z{int a;};"),
]
CVARS = VARS + "int b2[3];const struct S*pcs;int va(int,...);int nf(void);int fs(struct S);int fd(double);\n"
ECTX = {"return": "int g(int w){return %s;}", "statement": "int g(int w){%s;return 0;}", "if": "int g(int w){if(%s)return 1;return 0;}", "while": "int g(int w){while(%s)w--;return 0;}", "for": "int g(int w){for(;w;%s)w--;return 0;}",
        "argument": "int g(int w){return fn(%s);}", "subscript": "int g(int w){return a[%s];}", "initializer": "int g(int w){int z=%s;return z;}", "element": "int g(int w){int z[2]={0,%s};return z[0];}", "conditional": "int g(int w){return w?(%s):2;}",
        "parens": "int g(int w){return w+((%s));}", "and": "int g(int w){return w&&(%s);}", "comma": "int g(int w){return w,(%s);}", "switch": "int g(int w){switch(%s){default:return 1;}}", "do": "int g(int w){do w--;while(%s);return w;}", "loop block": "int g(int w){for(int k=0;k<w;k++){if(w){int z;z=%s;w-=z;}}return w;}", "case": "int g(int w){switch(w){case 1:w=%s;break;default:;}return w;}",
        "after label": "int g(int w){lab:w=%s;if(w>3)goto lab;return w;}", "void cast": "int g(int w){(void)(%s);return 0;}", "sizeof": "int g(int w){return sizeof(%s);}", "shadowed": "int g(int w){{int fn2=1,zq=2;w=(%s)+fn2+zq;}return w;}", "dead": "int g(int w){return 1;w=%s;}", "second function": "int h(int w){return w;}int g(int w){return h(w)+(%s);}"}
SCTX = {"body": "int g(int w){%s return 0;}", "block": "int g(int w){{%s}return 0;}", "if": "int g(int w){if(w){%s}return 0;}", "else": "int g(int w){if(w);else{%s}return 0;}", "after loop": "int g(int w){while(w)w--;%s return 0;}", "after switch": "int g(int w){switch(w){case 7:break;}%s return 0;}", "second function": "int h(int w){for(;w;)w--;switch(w){default:;}lab:;goto lab;}int g(int w){%s return 0;}"}
SCTX2 = {"loop": "int g(int w){while(w){w--;%s}return 0;}", "for": "int g(int w){for(int k=0;k<w;k++){%s}return 0;}", "switch": "int g(int w){switch(w){case 71:{%s}}return 0;}", "do": "int g(int w){do{%s}while(w--);return 0;}", "nested": "int g(int w){for(;;){switch(w){case 72:if(w){%s}}}return 0;}"}
DCTX = {"file": "%s", "between": "int h0(void){return 1;}%s int h1(void){return 2;}", "body": "int g(int w){%s return 0;}", "block": "int g(int w){if(w){w++;%s}return 0;}", "loop": "int g(int w){for(;w;w--){%s}return 0;}", "case": "int g(int w){switch(w){case 7:{%s}}return 0;}"}


def f4(chk, b):
    its = []
    for name, kind, bad, good in CV:
        ctxs = {"e": ECTX, "s": dict(SCTX, **SCTX2), "d": DCTX, "b": {k: v for k, v in DCTX.items() if "w" in v}, "f": {"file": "%s", "between": "int h0(void){return 1;}\n%s\nint h1(void){return 2;}"}}[kind]
        for cn, c in ctxs.items():
            its.append(("%s in %s" % (name, cn), CVARS + c.replace("%s", bad) + "\n"))
            its.append(("valid counterpart of %s in %s" % (name, cn), CVARS + c.replace("%s", good) + "\n"))
    yield "constraints", judge(chk, b, "constraint", its)


# ------------------------------------------------------------------ F5: directives and characters
DIRS = ["define", "undef", "if", "ifdef", "ifndef", "elif", "else", "endif", "include", "line", "error", "pragma", ""]
PTOK = "M F ( ) , # ## 1 0 + ? : \"s\" 'c' defined ... <h> __VA_ARGS__ 1.5 !".split()
PCTX = ["#%s\nint x;\n", "#define M 1\n#define F(a) a\n#%s\nint x;\n", "#if 1\n#%s\n#endif\nint x;\n", "#if 0\n#%s\n#endif\nint x;\n", "#if 0\n#else\n#%s\n#endif\nint x;\n"]
MUSE = ["F", "F(", "F()", "F(1", "F(1)", "F(1,2)", "F((1)", "F((1,2))", "F F(1)", "M(1)", "M M", "F(F)(1)", "F(M)", "F(\n1\n)", "F(\n#define Q\n)", "F(,)", "G(1)", "G()", "G(,)", "G(1,2,3)", "G(1", "H", "H(", "H()", "H(1)"]
CHARS = ["a", "0", "1", "\"", "'", "\\", "\n", "#", " ", "/", "*", "(", ")", "{", "}", ";", ".", "@", "$", "`", "?", "\x01", "\t", "%:", "<:", "L", "u8", "\\u", "\\x"]
LCTX = ["%s", "int x;%s", "int x;\n%s\nint y;\n", "char s[]=\"%s\";\n", "int c='%s';\n", "#define M %s\nint x=M;\n", "#if %s\n#endif\nint x;\n", "/*%s*/int x;\n", "//%s\nint x;\n"]


def f5(chk, b):
    its = []
    n = 3 if THOROUGH else 2
    for d in DIRS:
        for k in range(n + 1):
            for t in itertools.product(PTOK, repeat=k):
                line = (d + " " + " ".join(t)).strip()
                if d == "pragma" and "F" in t:
                    continue    # whether macros are expanded is implementation-defined
                for j, c in enumerate(PCTX if k < n or THOROUGH else PCTX[1:2]):
                    its.append(("#%s in %d" % (line, j), c.replace("%s", line)))
    # parameter lists of macros
    for k in range(6 if THOROUGH else 5):
        for t in itertools.product(["a", "b", ",", ")", "...", "("], repeat=k):
            its.append(("#define M(%s" % "".join(t), "#define M(%s\nint x;\n" % " ".join(t)))
    for m in ("a", "#a", "a##a", "a##", "##a", "#", "#b", "F(a)", "F", "a F(a)", "(a", "\"", "#a#a", "a #", "a##b"):
        for u in MUSE:
            for ctx in ("int x%s;\n", "%s\n", "#if %s\n#endif\nint y;\n", "%s"):
                its.append(("F=%s: %s" % (m, u), "#define M 1\n#define F(a) %s\n#define G(a,...) a __VA_ARGS__\n#define H() 1\n" % m + ctx.replace("%s", u)))
    # conditional structure
    LINES = ["#if 1", "#if 0", "#ifdef M", "#elif 1", "#elif", "#else", "#endif", "#else x", "#endif x", "#if", "int x;", "#define M", "(", "#"]
    for k in range(5 if THOROUGH else 4):
        for t in itertools.product(LINES, repeat=k):
            its.append(("lines " + " / ".join(t), "\n".join(t) + "\n"))
    its = list({t: (n_, t) for n_, t in its}.values())
    yield "directives", judge(chk, b, "directive", its)
    if chk.too_many():
        return
    its = []
    for k in range(4 if THOROUGH else 3):
        for t in itertools.product(CHARS, repeat=k):
            s = "".join(t)
            for j, c in enumerate(LCTX):
                its.append(("%r in %d" % (s, j), c.replace("%s", s)))
    its = list({t: (n_, t) for n_, t in its}.values())
    # not judged: trigraphs; backslash, space, newline (gcc splices these lines)
    its = [(n_, t) for n_, t in its if not re.search(r"\?\?[=/'()!<>-]|\\[ \t]+\n", t)]
    yield "characters", judge(chk, b, "characters", its)
    if chk.too_many():
        return
    # bytes outside the source character set: any diagnosis or result
    its = []
    for k in (1, 2):
        for t in itertools.product(CHARS + ["\x80", "\xc3", "\xff", "\0"], repeat=k):
            if set(t) & {"\x80", "\xc3", "\xff", "\0"}:
                for j, c in enumerate(LCTX):
                    its.append(("bytes %r in %d" % ("".join(t), j), c.replace("%s", "".join(t)).encode("latin1")))
    yield "bytes", judge(chk, b, "bytes", its, both=None)


# ------------------------------------------------------------------ F6: sizes
def f6(chk, b):
    its, deep = [], []
    S = [1, 2, 8, 16, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025] + ([4095, 4096, 4097, 16384, 40000] if THOROUGH else [4097])

    def gen(n):
        yield "parens", "int x=%s1%s;" % ("(" * n, ")" * n)
        yield "parens in function", "int g(int a){return %sa%s;}" % ("(" * n, ")" * n)
        yield "unary", "int g(int a){return %sa;}" % ("- " * n)
        yield "not", "int g(int a){return %sa;}" % ("!" * n)
        yield "sum", "int g(int a){return %sa;}" % ("a+" * n)
        yield "right nested sum", "int g(int a){return %sa%s;}" % ("a+(" * n, ")" * n)
        yield "conditional chain", "int g(int a){return %s0;}" % "".join("a==%d?%d:" % (i, i) for i in range(n))
        yield "and chain", "int g(int a){return %sa;}" % ("a&&" * n)
        yield "assignments", "int g(int a){%s return a;}" % ("a=a+1;" * n)
        yield "assignment chain", "int g(int a,int b){%s1;return b;}" % ("a=b=" * n)
        yield "comma chain", "int g(int a){return %sa;}" % ("a," * n)
        yield "blocks", "int g(int a){%sa++;%s return a;}" % ("{" * n, "}" * n)
        yield "ifs", "int g(int a){%sa++;return a;}" % ("if(a)" * n)
        yield "if else chain", "int g(int a){%sa++;return a;}" % ("if(a==1)a=2;else " * n)
        yield "loops", "int g(int a){%sa++;return a;}" % ("while(a<9)" * n)
        yield "switches", "int g(int a){%sa++;return a;}" % ("switch(a)case 1:" * n)
        yield "cases", "int g(int a){switch(a){%s}return 0;}" % "".join("case %d:return %d;" % (i, i * 3) for i in range(n))
        yield "labels", "int g(int a){%s goto l0;}" % "".join("l%d:if(a==%d)goto l%d;" % (i, i, (i * 7) % n) for i in range(n))
        yield "locals", "int g(int a){%s return %s;}" % ("".join("int v%d=a;" % i for i in range(n)), "v%d" % (n - 1))
        yield "globals", "".join("int v%d=%d;" % (i, i) for i in range(n))
        yield "functions", "".join("int f%d(void){return %d;}" % (i, i) for i in range(n))
        yield "members", "struct S{%s}s;int g(void){return s.m%d;}" % ("".join("int m%d;" % i for i in range(n)), n - 1)
        yield "enumerators", "enum E{%s};int x=E%d;" % (",".join("E%d" % i for i in range(n)), n - 1)
        yield "initializers", "int a[]={%s};" % ",".join("%d" % i for i in range(n))
        yield "strings", "char*a[]={%s};" % ",".join('"s%d"' % i for i in range(n))
        yield "string length", "char a[]=\"%s\";" % ("x" * n)
        yield "string pieces", "char a[]=%s;" % ("\"x\" " * n)
        yield "identifier", "int %s=1;int g(void){return %s;}" % ("x" * n, "x" * n)
        yield "structs", "%sint a;%s;" % ("struct{" * n, "}s;" * (n - 1) + "}s")
        yield "anonymous structs", "struct{%sint a;%s}s;int g(void){return s.a;}" % ("struct{" * n, "};" * n)
        yield "array rank", "typedef int A0[1];%sA%d v;" % ("".join("typedef A%d A%d[1];" % (i, i + 1) for i in range(n)), n)
        yield "braces", "int a%s=%s1%s;" % ("[1]" * n, "{" * n, "}" * n)
        yield "pointers", "int %sp;int g(void){return !p;}" % ("*" * n)
        yield "pointer functions", "int g(void){return 1;}int h(int(*p)(void)){return (%sp)();}" % ("*" * n)
        yield "declarator parens", "int %sx%s;" % ("(" * n, ")" * n)
        yield "casts", "int g(int a){return %sa;}" % ("(int)" * n)
        yield "sizeofs", "int g(void){return %s1;}" % ("sizeof " * n)
        yield "subscripts", "int a[1];int g(void){return %s0%s;}" % ("a[" * n, "]" * n)
        yield "calls", "int f(int a){return a;}int g(void){return %s0%s;}" % ("f(" * n, ")" * n)
        yield "macros", "".join("#define M%d %d\n" % (i, i) for i in range(n)) + "int x=M%d;\n" % (n - 1)
        yield "macro chain", "#define M0 1\n" + "".join("#define M%d M%d\n" % (i + 1, i) for i in range(n)) + "int x=M%d;\n" % n
        yield "macro calls", "#define F(a) (a)\nint x=%s1%s;\n" % ("F(" * n, ")" * n)
        yield "conditionals", "#if 1\n" * n + "int x;\n" + "#endif\n" * n
        yield "ppif parens", "#if %s1%s\nint x;\n#endif\n" % ("(" * n, ")" * n)
        yield "elifs", "#if 0\n" + "#elif 0\n" * n + "#else\nint x;\n#endif\n"
        yield "continued lines", "int \\\n" * 1 + " \\\n" * n + "x;\n"
        yield "generic", "int g(int a){return %sa%s;}" % ("_Generic(a,default:" * n, ")" * n)
        yield "typedefs", "typedef int T0;" + "".join("typedef T%d T%d;" % (i, i + 1) for i in range(n)) + "T%d x;" % n
        yield "arguments", "#define P(%s) 1\nint x=P(%s);\n" % (",".join("a%d" % i for i in range(min(n, 127))), ",".join("1" for i in range(min(n, 127))))
        m = min(n, 127)     # the limit of C11 5.2.4.1, and of the compiler
        yield "call arguments", "int f(%s){return p0+p%d;}int g(void){return f(%s);}" % (",".join("int p%d" % i for i in range(m)), m - 1, ",".join("%d" % i for i in range(m)))
        yield "double arguments", "double f(%s){return p0+p%d;}double g(void){return f(%s);}" % (",".join("double p%d" % i for i in range(m)), m - 1, ",".join("%d" % i for i in range(m)))

    for n in S:
        for name, t in gen(n):
            # far beyond 5.2.4.1 these need time or stack that grows with the square of the size or more
            if n > 1100 and name in ("assignment chain", "cases", "array rank", "braces", "pointers", "calls", "macro calls"):
                continue
            its.append(("%s %d" % (name, n), t + "\n"))
    # beyond the limits of an implementation: any diagnosis or result
    for n in (128, 129, 200, 300, 1000):
        its2 = ("int f(%s){return p0+p%d;}" % (",".join("int p%d" % i for i in range(n)), n - 1), "int f();int g(void){return f(%s);}" % ",".join("1" * n),
                "int f(%s);" % ",".join("int" for i in range(n)), "#define P(%s) 1\nint x=P(%s);\n" % (",".join("a%d" % i for i in range(n)), ",".join("1" * n)),
                "#define P(...) 1\nint x=P(%s);\n" % ",".join("1" * n), "struct S{char c[%d];};struct S f(struct S a,struct S b){return a;}" % n,
                "int g(void){struct{char c[%d];}a={0},b;b=a;return b.c[%d];}" % (n, n - 1))
        deep += [("over the limit %d %d" % (n, k), t + "\n") for k, t in enumerate(its2)]
    yield "sizes", judge(chk, b, "size", its)
    if chk.too_many():
        return
    yield "over sizes", judge(chk, b, "size", deep, both=None)


FAMS = [globals()[f] for f in os.environ.get("VERIF_FAM", "f4 f3 f6 f2 f5 f1").split()]


def run(chk):
    b = Batch(chk)
    total = collections.Counter()
    try:
        for fam in FAMS:
            for name, st in fam(chk, b):
                for k, v in st.items():
                    total["%s %s" % (name, k)] += v
                if os.environ.get("VERIF_TIME"):
                    print(name, dict(st), round(time.time() - chk.t0), flush=True)
            if chk.too_many():
                break
    finally:
        b.close()
    chk.extra.update({k: v for k, v in sorted(total.items())})
    chk.samples.append("constraint: %s / %s" % CV[0][2:])
    chk.samples.append("sequence in body: " + " ".join(ALPHA[:3]))
    chk.samples.append("edit of: " + SEEDS[0])


if __name__ == "__main__":
    vlib.main(run, "C20", "exploration",
              rule="every token sequence up to length %d over %d tokens in %d contexts, every single-token edit of %d programs, operators x operand types, constraint violations x contexts, directives, character sequences, sizes; non-trivial = distinct program" % (4 if THOROUGH else 3, len(ALPHA), len(CTX), len(SEEDS)),
              assumptions=["gcc 13 -std=c11 -pedantic-errors decides validity; diagnostics gcc only issues as warnings by default and constraints the compiler has no check for are not judged (list in DESIGN.md)"])
