"""Reads relocatable ELF objects into a form in which two objects can be compared: code as a
list of instructions with their targets resolved, data as bytes plus resolved relocations."""
import os, re, struct, subprocess

R = {1: "64", 2: "PC32", 4: "PC32", 10: "32", 11: "32S"}
RSIZE = {"64": 8, "PC32": 4, "32": 4, "32S": 4}


class Bad(Exception):
    pass


class Obj:
    def __init__(self, path):
        self.path = path
        d = self.d = open(path, "rb").read()
        if d[:4] != b"\x7fELF":
            raise Bad("not ELF")
        shoff, = struct.unpack_from("<Q", d, 40)
        shentsize, shnum, shstr = struct.unpack_from("<HHH", d, 58)
        self.sh = [struct.unpack_from("<IIQQQQIIQQ", d, shoff + i * shentsize) for i in range(shnum)]
        so = self.sh[shstr]
        self.names = [self.cstr(so[4] + s[0]) for s in self.sh]
        self.syms, self.rel = [], {}
        for i, s in enumerate(self.sh):
            if s[1] == 2:
                st = self.sh[s[6]]
                for o in range(s[4], s[4] + s[5], 24):
                    nm, info, other, shn, val, size = struct.unpack_from("<IBBHQQ", d, o)
                    self.syms.append((self.cstr(st[4] + nm), info >> 4, info & 15, shn, val, size))
        for i, s in enumerate(self.sh):
            if s[1] == 4:
                l = self.rel.setdefault(s[7], [])
                for o in range(s[4], s[4] + s[5], 24):
                    off, info, add = struct.unpack_from("<QQq", d, o)
                    t = R.get(info & 0xffffffff)
                    if not t:
                        raise Bad("relocation type %d" % (info & 0xffffffff))
                    l.append((off, t, info >> 32, add))

    def cstr(self, o):
        return self.d[o:self.d.index(b"\0", o)].decode("latin1")

    def sec(self, name):
        return self.names.index(name) if name in self.names else None

    def bytes(self, i):
        s = self.sh[i]
        if s[1] == 8:
            return bytearray(s[5])
        b = bytearray(self.d[s[4]:s[4] + s[5]])
        for off, t, sym, add in self.rel.get(i, ()):
            b[off:off + RSIZE[t]] = bytes(RSIZE[t])
        return b


def disassemble(blobs, work, tag):
    """[bytes] -> [[(offset, text)]] with one run of objdump"""
    p = os.path.join(work, tag + ".bin")
    out = []
    pos, starts = 0, []
    with open(p, "wb") as f:
        for b in blobs:
            starts.append(pos)
            f.write(b + b"\x90" * 32)
            pos += len(b) + 32
    t = subprocess.run(["objdump", "-b", "binary", "-m", "i386:x86-64", "-D", "--no-show-raw-insn", p],
                       capture_output=True, text=True).stdout
    os.unlink(p)
    ins = []
    for l in t.splitlines():
        m = re.match(r"\s*([0-9a-f]+):\t(.*)", l)
        if m:
            ins.append((int(m.group(1), 16), m.group(2).split("#")[0].strip()))
    import bisect
    keys = [a for a, _ in ins]
    for b, s in zip(blobs, starts):
        i = bisect.bisect_left(keys, s)
        cur = []
        while i < len(ins) and ins[i][0] < s + len(b):
            cur.append((ins[i][0] - s, ins[i][1]))
            i += 1
        out.append(cur)
    return out


JUMP = re.compile(r"(j\w+|call\w*|loop\w*)\s+0x([0-9a-f]+)$")


def normal(path, work, tag):
    """-> {"text": [..], section: .., "symbols": ..}; comparable with ==."""
    o = Obj(path)
    res = {}
    ti = o.sec(".text")
    code = bytes(o.bytes(ti)) if ti is not None else b""
    # Disassemble at address 0, so that targets are offsets.
    p = os.path.join(work, tag + ".bin")
    open(p, "wb").write(code)
    t = subprocess.run(["objdump", "-b", "binary", "-m", "i386:x86-64", "-D", "--no-show-raw-insn", p],
                       capture_output=True, text=True).stdout if code else ""
    if os.path.exists(p):
        os.unlink(p)
    ins = []
    for l in t.splitlines():
        m = re.match(r"\s*([0-9a-f]+):\t(.*)", l)
        if m:
            ins.append((int(m.group(1), 16), m.group(2).split("#")[0].strip()))
    index = {a: i for i, (a, _) in enumerate(ins)}
    index[len(code)] = len(ins)
    ends = [a for a, _ in ins[1:]] + [len(code)]

    def where(sec, off):
        if sec == ti:
            return ("text", index.get(off, "inside %d" % off))
        return (o.names[sec], off)

    def target(sym, add):
        name, bind, typ, shn, val, size = o.syms[sym]
        if shn == 0 or shn >= 0xff00:
            return (name if shn == 0 else "special %s %d" % (name, shn), add)
        return where(shn, val + add)
    rels = sorted(o.rel.get(ti, ()))
    k = 0
    text = []
    for i, (a, s) in enumerate(ins):
        e = ends[i]
        here = []
        while k < len(rels) and rels[k][0] < e:
            here.append(rels[k])
            k += 1
        s = re.sub(r"\s+", " ", s)
        m = JUMP.match(s)
        if m and not here:
            text.append((m.group(1), where(ti, int(m.group(2), 16))))
        elif m:
            off, t_, sym, add = here[0]
            text.append((m.group(1), target(sym, add + (e - off)) if t_ == "PC32" else ("bad", t_)))
        else:
            # Where the relocated field is (immediate or displacement, and its size).
            text.append((s, tuple((t_, e - off, target(sym, add)) for off, t_, sym, add in here)))
    res["text"] = text
    for i, n in enumerate(o.names):
        s = o.sh[i]
        if s[1] in (1, 8) and n != ".text" and s[2] & 2 and s[5]:
            res[n] = (bytes(o.bytes(i)), sorted((off, t_, target(sym, add)) for off, t_, sym, add in o.rel.get(i, ())))
            res["align " + n] = max(1, s[8])
    syms = set()
    for name, bind, typ, shn, val, size in o.syms[1:]:
        if bind == 1:
            syms.add((name, None if shn == 0 else where(shn, val)))
    res["symbols"] = sorted(syms, key=repr)
    return res


def differ(a, b):
    """What is different, or None."""
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x == y:
            continue
        if k == "text":
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return "instruction %d: -c has %s, -S has %s" % (i, p, q)
            return "number of instructions: -c has %d, -S has %d" % (len(x), len(y))
        if k == "symbols":
            return "symbols: only -c has %s, only -S has %s" % (
                [s for s in x if s not in y][:4], [s for s in y if s not in x][:4])
        if x and y and not k.startswith("align"):
            if x[0] != y[0]:
                i = next((i for i, (p, q) in enumerate(zip(x[0], y[0])) if p != q), min(len(x[0]), len(y[0])))
                return "%s differs at byte %d (sizes %d, %d): -c has %s, -S has %s" % (
                    k, i, len(x[0]), len(y[0]), x[0][i:i + 8].hex(), y[0][i:i + 8].hex())
            return "%s: relocations: only -c has %s, only -S has %s" % (
                k, [s for s in x[1] if s not in y[1]][:4], [s for s in y[1] if s not in x[1]][:4])
        return "%s: -c has %s, -S has %s" % (k, str(x)[:80], str(y)[:80])
    return None
