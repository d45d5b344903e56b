import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
from vlib import *
from abi import *

# The layout of bit-fields isn't part of this property (the reference lays them out like System V); B1 is the same in both.
K = [k for k in KINDS if k not in ("B2", "B3")]
VK = [k for k in K if k not in "bchstf"]     # kinds that survive default promotion
R = ["i", "d", "f", "p", "C3", "II", "F", "D", "LL", "C17", "s"]     # one of each class


def signatures():
    S = []
    # every return kind with every single parameter kind
    for r in [None] + K:
        S.append(Sig(r, ()))
        for k in (K if THOROUGH else R):
            S.append(Sig(r, (k,)))
    # every pair of parameter kinds, at every position in the register sequence and on the stack
    for n in range(0, 6 if THOROUGH else 5):
        for a in K:
            for b in K if THOROUGH or n in (0, 3) else R:
                S.append(Sig(("l", "d", None, "LL", "F", "i")[n], ("i", "d", "p", "f", "c")[:n] + (a, b)))
    # all sequences over one kind of each class
    for n in (3, 4, 5) if THOROUGH else (3, 4):
        for t in itertools.product(R if n < 4 else R[:4] + ["C3", "D"] if THOROUGH or n == 4 else R, repeat=n):
            S.append(Sig(("LLL", "d")[sum(map(len, t)) % 2] if n == 3 else "i", t))
    # kinds behind any number of parameters, with and without the hidden result pointer
    for n in range(0, 10):
        for k in K:
            for r in ("i", "LLL", "f"):
                S.append(Sig(r, ("i", "d") * (n // 2) + ("p",) * (n % 2) + (k, "i", "f")))
    for n in (20, 60, 120):
        S.append(Sig("i", ("c",) * n)); S.append(Sig("d", ("d",) * n)); S.append(Sig("i", ("i", "f") * (n // 2)))
        if n < 120:
            S.append(Sig("LL", ("LLL", "i", "C5") * (n // 3)))
    # variadic: named prefix x variable prefix x kind x probes
    for r in ("i", "LLL", "d"):
        for g in range(1, 6):
            for named in (("i",) * g, ("d",) * g, ("LL",) * g, ("f", "C3", "i", "d", "p")[:g]):
                for s in range(0, 4):
                    for k in VK if THOROUGH or (r == "i" and named[0] in "if" and s < 2) else ("i", "d", "C3", "LL", "F"):
                        S.append(Sig(r, named, ("i", "d", "p")[:s] + (k, "i", "d")))
    for t in itertools.product([k for k in R if k in VK], repeat=4 if THOROUGH else 3):
        S.append(Sig(None, ("i",), t))
        S.append(Sig("C17", ("d",), t))
    for k in K:
        S.append(Sig("i", (k,), ("i", "d", "l")) if k not in "bchstf" else Sig("i", (k, "i"), ("i", "d", "l")))
    # calls without a prototype
    for n in (1, 2, 3, 4) if THOROUGH else (1, 2, 3):
        for t in itertools.product([k for k in R if k in VK], repeat=n):
            S.append(Sig("i", t, old=True))
    for n in range(0, 6):
        for k in VK:
            for r in ("LL", "d"):
                S.append(Sig(r, ("d",) * n + (k, "d"), old=True))
    return list(dict.fromkeys(S))


def explore(c):
    S = signatures()
    Interop(c, ms=True, ccflags=["-fabi=ms"]).run(S, per=50)
    c.ndistinct = len(S)
    c.extra["signatures"] = len(S)
    c.extra["exhaustive"] = True
    for s in S[::max(1, len(S) // 8)]:
        c.samples.append(s.key())


if __name__ == "__main__":
    main(explore, "C11", "exploration",
         "signatures: return kind x parameter kinds over %d kinds (all pairs at every position, all sequences of class representatives, behind every number of parameters, variadic lists, calls without prototype); evaluation = one call direction of one signature compared byte for byte; distinct = signatures" % len(K),
         ["gcc's ms_abi attribute implements the convention at -O0; assembly output (-S) stands for the object code, because the COFF objects can't be run here; layout of bit-fields is not part of this"])
