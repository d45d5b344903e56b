"""C17 6.7.9 as an executable model: which element every part of an initialiser initialises."""
import itertools


class T:
    pass


class Scalar(T):
    def __init__(self, c, kind="int"):
        self.c, self.kind = c, kind          # kind: int, double, ptr, bf

    def decl(self, n):
        return "%s %s" % (self.c, n) if "%" not in self.c else self.c % n


class Arr(T):
    def __init__(self, el, n):
        self.el, self.n = el, n

    def decl(self, n):
        return self.el.decl("%s[%s]" % (n, "" if self.n is None else self.n))

    def is_str(self):
        return isinstance(self.el, Scalar) and self.el.c in ("char", "unsigned char", "signed char")


class Rec(T):
    def __init__(self, kw, tag, members):
        self.kw, self.tag, self.members = kw, tag, members   # members: [(name or None, T)]

    def decl(self, n):
        return "%s %s %s" % (self.kw, self.tag, n)


class Invalid(Exception):
    pass


def members(t):
    return [m[1] for m in t.members]


def path_of(t, name):
    """index path of a (possibly anonymous) member"""
    for i, (n, mt) in enumerate(t.members):
        if n == name:
            return [i]
        if n is None:
            p = path_of(mt, name)
            if p:
                return [i] + p
    return None


def select(t, i):
    if isinstance(t, Arr):
        if t.n is not None and i >= t.n:
            raise Invalid()
        return t.el
    if isinstance(t, Rec):
        if i >= len(t.members):
            raise Invalid()
        return t.members[i][1]
    raise Invalid()


class Obj:
    """values: {path tuple: value}; unions: active member per path"""

    def __init__(self):
        self.v = {}
        self.active = {}
        self.maxidx = -1
        self.overrides = 0
        self.calls = 0

    def clear(self, path):
        k = [p for p in self.v if p[:len(path)] == path]
        for p in k:
            del self.v[p]
            self.overrides += 1
        for p in [p for p in self.active if p[:len(path)] == path]:
            del self.active[p]

    def touch(self, t0, path):
        t = t0
        for d, i in enumerate(path):
            if isinstance(t, Rec) and t.kw == "union":
                k = path[:d]
                if self.active.get(k, i) != i:
                    self.clear(k)
                self.active[k] = i
            t = t.el if isinstance(t, Arr) else t.members[i][1]


def initialise(t0, init):
    o = Obj()
    init_object(o, t0, t0, (), init)
    return o


def init_object(o, t0, t, path, init):
    """the whole object at path gets init: ('v', value) | ('b', [(desigs, init)]) | ('s', string) | ('r', record value)"""
    o.touch(t0, path)
    if init[0] == "b":
        if isinstance(t, Scalar):
            if len(init[1]) != 1 or init[1][0][0] or init[1][0][1][0] != "v":
                raise Invalid()
            o.clear(path)
            o.v[path] = init[1][0][1][1]
            return
        o.clear(path)
        if isinstance(t, Arr) and t.is_str() and len(init[1]) == 1 and not init[1][0][0] and init[1][0][1][0] == "s":
            put_string(o, t, path, init[1][0][1][1])
            return
        brace_list(o, t0, t, path, init[1])
    elif init[0] == "s":
        if isinstance(t, Arr) and t.is_str():
            o.clear(path)
            put_string(o, t, path, init[1])
        else:
            raise Invalid()
    elif init[0] == "r":
        if t is not init[1]:
            raise Invalid()
        o.clear(path)
        o.v[path] = "record"
    else:
        if not isinstance(t, Scalar):
            raise Invalid()
        o.clear(path)
        o.v[path] = init[1]


def put_string(o, t, path, s):
    n = len(s) + 1
    if t.n is not None:
        if len(s) > t.n:
            raise Invalid()
    elif path == ():
        o.maxidx = max(o.maxidx, n - 1)
    for i, ch in enumerate((list(s) + [0])[:t.n] if t.n is not None else list(s) + [0]):
        o.v[path + (i,)] = ch


def brace_list(o, t0, t, path, items):
    cur = None           # path (relative, list) of the element the next item initialises
    for n, (desigs, init) in enumerate(items):
        if desigs:
            p, tt = [], t
            for d in desigs:
                if isinstance(d, int):
                    if not isinstance(tt, Arr):
                        raise Invalid()
                    tt = select(tt, d)
                    p.append(d)
                else:
                    if not isinstance(tt, Rec):
                        raise Invalid()
                    q = path_of(tt, d)
                    if q is None:
                        raise Invalid()
                    for i in q:
                        tt = select(tt, i)
                        p.append(i)
            cur = p
        elif cur is None:
            cur = [0]
            if isinstance(t, Rec) and not t.members:
                raise Invalid()
        else:
            if init[0] == "s":
                # a string after an element of a character array in the middle of it: compilers disagree
                tt = t
                for i in cur[:-1]:
                    tt = select(tt, i)
                if isinstance(tt, Arr) and tt.is_str():
                    raise Invalid()
            cur = advance(t, cur)
            if cur is None:
                raise Invalid()          # excess initialiser
        # descend to the element the initialiser can initialise as a whole
        tt = t
        for i in cur:
            tt = select(tt, i)
        while True:
            if init[0] == "b" or isinstance(tt, Scalar):
                break
            if init[0] == "s" and isinstance(tt, Arr) and tt.is_str():
                break
            if init[0] == "r" and tt is init[1]:
                break
            if isinstance(tt, Arr) and tt.n is None and cur != [0] and len(cur) > 0 and path != ():
                raise Invalid()
            cur = cur + [0]
            tt = select(tt, 0)
        if isinstance(t, Arr) and t.n is None and path == ():
            o.maxidx = max(o.maxidx, cur[0])
        if isinstance(tt, Arr) and tt.n is None:
            raise Invalid()
        init_object(o, t0, tt, path + tuple(cur), init)


def advance(t, cur):
    """next subobject after the one at relative path cur, within t"""
    cur = list(cur)
    while cur:
        tt = t
        for i in cur[:-1]:
            tt = select(tt, i)
        i = cur[-1] + 1
        if isinstance(tt, Arr):
            if tt.n is None or i < tt.n:
                return cur[:-1] + [i]
        elif tt.kw == "struct" and i < len(tt.members):
            return cur[:-1] + [i]
        cur.pop()
    return None


def leaves(o, t, path=(), text=""):
    """[(C expression suffix, path, scalar)] of the readable scalars"""
    if isinstance(t, Scalar):
        return [(text, path, t)]
    r = []
    if isinstance(t, Arr):
        n = t.n if t.n is not None else o.maxidx + 1
        for i in range(n):
            r += leaves(o, t.el, path + (i,), "%s[%d]" % (text, i))
        return r
    for i, (n, mt) in enumerate(t.members):
        if t.kw == "union" and o.active.get(path, 0) != i:
            continue
        r += leaves(o, mt, path + (i,), text + ("." + n if n else ""))
    return r


def value(o, path):
    for k in range(len(path), -1, -1):
        if path[:k] in o.v:
            return o.v[path[:k]]
    return 0
