import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *
from abi import *


def explore(c):
    S = []
    K = list(KINDS)
    VK = [k for k in K if k not in "bchstf"]     # kinds that survive default promotion
    # every return kind with every single parameter kind
    for r in [None] + K:
        S.append(Sig(r, ()))
        for k in (K if THOROUGH else ["i", "d", "LD", "LLL"]):
            S.append(Sig(r, (k,)))
    # every pair of parameter kinds
    for a in K:
        for b in K:
            S.append(Sig("l", (a, b)))
    # every register-file state (g general, s SSE registers already used) x next kind x probes after it
    gs = range(0, 8)
    ss = range(0, 10)
    for g in gs:
        for s in ss:
            if not THOROUGH and not (g >= 4 or s >= 6 or (g, s) == (0, 0)):
                continue
            for k in K:
                if not THOROUGH and not (g >= 4 and s in (0, 6, 7, 8, 9) or s >= 6 and g in (0, 5, 6)):
                    continue
                S.append(Sig(None, ("l",) * g + ("d",) * s + (k, "i", "f")))
    # the same with the hidden result pointer
    for g in range(3, 7):
        for k in ("i", "LL", "LD", "C3", "LLL", "DL", "II"):
            for r in ("LLL", "C17", "PK", "LL", "DDDD"):
                S.append(Sig(r, ("l",) * g + (k, "i")))
    # all sequences over one kind of each class
    R = ["i", "d", "LL", "DD", "LD", "DL", "C3", "LLL"]
    for n in (3, 4) if THOROUGH else (3,):
        for t in itertools.product(R, repeat=n):
            S.append(Sig("i" if n == 4 else "DL", t))
    # long lists
    for n in (20, 60, 120):
        S.append(Sig("i", ("c",) * n)); S.append(Sig("d", ("d",) * n)); S.append(Sig("i", ("i", "f") * (n // 2)))
        if n < 120:
            S.append(Sig("LL", ("LLL", "i", "C5") * (n // 3)))
    # variadic: named prefix states x variable prefix x kind x probes
    for g in range(1, 8):
        for s in (0, 1, 7, 8, 9) if g < 3 or THOROUGH else (0,):
            for k in VK if (s in (0, 8) or THOROUGH) else ("d", "i", "LD"):
                S.append(Sig("i", ("i",) * g + ("d",) * s, (k, "i", "d", k)))
    for g in range(0, 7):
        for s in (0, 6, 7, 8):
            for k in VK if THOROUGH or (g, s) in ((4, 0), (5, 0), (5, 7), (6, 8)) else ("i", "d", "LL", "DD", "LD", "DL", "LLL", "C5"):
                S.append(Sig("LD", ("p",), ("l",) * g + ("d",) * s + (k, "d", "l")))
    for t in itertools.product(["i", "d", "LL", "DI", "C3", "LLL"], repeat=3):
        S.append(Sig(None, ("i",), t))
    # small named parameters before ...
    for k in K:
        S.append(Sig("i", (k,), ("i", "d", "l")) if k not in "bchstf" else Sig("i", (k, "i"), ("i", "d", "l")))
    # calls without a prototype
    P = ["i", "d", "f", "p", "LL", "LD", "C3", "LLL"]
    for n in (1, 2, 3, 4) if THOROUGH else (1, 2, 3):
        for t in itertools.product([k for k in P if k in VK], repeat=n):
            S.append(Sig("i", t, old=True))
    for n in range(4, 9):
        for k in VK:
            S.append(Sig("LD", ("d",) * n + ("l",) * (n - 3) + (k, "d", "i"), old=True))
    S = list(dict.fromkeys(S))
    Interop(c).run(S, per=50)
    c.ndistinct = len(S)
    c.extra["signatures"] = len(S)
    c.extra["exhaustive"] = True
    for s in S[::max(1, len(S) // 8)]:
        c.samples.append(s.key())


if __name__ == "__main__":
    main(explore, "C10", "exploration",
         "signatures: return kind x parameter kinds over %d kinds (all pairs, all register-file states x next kind, all triples of class representatives, variadic lists); evaluation = one call direction of one signature compared byte for byte; distinct = signatures" % len(KINDS),
         ["gcc -O0 implements the ABI correctly; registers/stack are observed by an assembly thunk around each call"])
