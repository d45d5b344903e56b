"""A small exact model of C integer expressions on LP64 (used to keep undefined cases out, and as
an oracle for conditional-expression and #if checks)."""
RANK = {"_Bool": 0, "char": 1, "SC": 1, "UC": 1, "short": 2, "US": 2, "int": 3, "UI": 3, "long": 4, "UL": 4, "LL": 5, "ULL": 5}
SIGNED = {"_Bool": 0, "char": 1, "SC": 1, "UC": 0, "short": 1, "US": 0, "int": 1, "UI": 0, "long": 1, "UL": 0, "LL": 1, "ULL": 0}
BITS = {"_Bool": 1, "char": 8, "SC": 8, "UC": 8, "short": 16, "US": 16, "int": 32, "UI": 32, "long": 64, "UL": 64, "LL": 64, "ULL": 64}
UNS = {"int": "UI", "long": "UL", "LL": "ULL"}


class UB(Exception):
    pass


def conv(v, t):
    if t == "_Bool":
        return 1 if v else 0
    b = BITS[t]
    v &= (1 << b) - 1
    if SIGNED[t] and v >> (b - 1):
        v -= 1 << b
    return v


def fits(v, t):
    return conv(v, t) == v


def promote(t):
    return "int" if RANK[t] < 3 else t


def usual(a, b):
    a, b = promote(a), promote(b)
    if a == b:
        return a
    if SIGNED[a] == SIGNED[b]:
        return a if RANK[a] > RANK[b] else b
    u, s = (a, b) if not SIGNED[a] else (b, a)
    if RANK[u] >= RANK[s]:
        return u
    if BITS[s] > BITS[u]:
        return s
    return UNS[s]


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(op, ta, a, tb, b):
    """-> (type, value); raises UB"""
    if op in ("&&", "||"):
        return "int", int((a != 0 and b != 0) if op == "&&" else (a != 0 or b != 0))
    if op in ("<<", ">>"):
        t = promote(ta)
        if b < 0 or b >= BITS[t]:
            raise UB
        if op == ">>":
            return t, a >> b
        if SIGNED[t] and (a < 0 or not fits(a << b, t)):
            raise UB
        return t, conv(a << b, t)
    t = usual(ta, tb)
    a, b = conv(a, t), conv(b, t)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        return "int", int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
    if op in ("/", "%"):
        if b == 0:
            raise UB
        q = cdiv(a, b)
        if SIGNED[t] and not fits(q, t):
            raise UB
        return t, (q if op == "/" else a - q * b)
    v = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]
    if SIGNED[t] and not fits(v, t):
        raise UB
    return t, conv(v, t)


def unop(op, t, v):
    if op == "!":
        return "int", int(v == 0)
    t = promote(t)
    if op == "+":
        return t, v
    if op == "-":
        if SIGNED[t] and not fits(-v, t):
            raise UB
        return t, conv(-v, t)
    return t, conv(~v, t)


def lit(v, t="long"):
    """C spelling of value v."""
    if v == -(1 << 63):
        return "(-0x7fffffffffffffffL-1)"
    if v > (1 << 63) - 1:
        return "%dUL" % v
    if v == -(1 << 31):
        return "(-2147483647-1)"
    if abs(v) >= 1 << 31:
        return ("(%dL)" if v < 0 else "%dL") % v
    return ("(%d)" if v < 0 else "%d") % v


BOUND = {"_Bool": [0, 1], "char": [0, 1, -1, 127, -128, 65], "SC": [0, 3, -1, 127, -128], "UC": [0, 1, 7, 128, 255], "short": [0, -1, 5, 32767, -32768], "US": [0, 1, 31, 32768, 65535],
         "int": [0, 1, -1, 2, -3, 31, 255, 65536, 2**31 - 1, -2**31], "UI": [0, 1, 3, 31, 2**31 - 1, 2**31, 2**32 - 1],
         "long": [0, 1, -1, -5, 33, 63, 2**31, -2**31 - 1, 2**32, 2**63 - 1, -2**63], "UL": [0, 1, 5, 63, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1],
         "LL": [0, -1, 7, 2**32, 2**63 - 1, -2**63], "ULL": [0, 1, 40, 2**32, 2**63, 2**64 - 1]}
TYPES = list(RANK)
OPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||"]
