"""Generators of record data, messages and RRsets: boundary-rich and seeded."""
import base64, struct
from gen import *

LAYOUT = {1: "ipv4", 2: "name", 3: "name", 4: "name", 5: "name", 6: "name name int32 int32 int32 int32 int32", 7: "name",
          8: "name", 9: "name", 10: "bytes", 11: "int32 int8 bytes", 12: "name", 13: "string string", 14: "name name",
          15: "int16 name", 16: "repstring", 17: "name name", 18: "int16 name", 19: "string", 20: "string string",
          21: "int16 name", 24: "int16 int8 int8 int32 int32 int32 int16 name bytes", 26: "int16 name name", 28: "ipv6",
          30: "name bytes", 33: "int16 int16 int16 name", 35: "int16 int16 string string string name", 36: "int16 name",
          38: "ipv6prefix name", 39: "name", 41: "options", 43: "int16 int8 int8 bytes",
          46: "rrtype int8 int8 int32 int32 int32 int16 name base64", 47: "name bitmap", 48: "int16 int8 int8 base64",
          50: "int8 int8 int16 salt hash bitmap", 51: "int8 int8 int16 salt", 52: "int8 int8 int8 bytes",
          59: "int16 int8 int8 bytes", 60: "int16 int8 int8 base64", 61: "base64", 62: "int32 int16 bitmap",
          64: "int16 name svcparams", 65: "int16 name svcparams", 99: "repstring", 108: "eui48", 109: "eui64",
          256: "int16 int16 text", 257: "int8 string text"}
LAYOUT = {k: v.split() for k, v in LAYOUT.items()}
IN_ONLY = {1, 11, 26, 28, 33, 35, 36, 38, 64, 65, 257}
TYPES = sorted(LAYOUT)
UNKNOWN = [0, 22, 23, 25, 27, 29, 31, 37, 42, 44, 45, 49, 53, 55, 56, 63, 66, 98, 100, 104, 107, 110, 248, 249, 255, 258, 300, 32768, 32769, 65280, 65535]
ASSIGNED = [1, 2, 5, 6, 15, 16, 28, 33, 41, 46, 47, 48, 50, 52, 53, 55, 62, 64, 65, 99, 109, 110, 249, 250, 255, 256, 257, 258, 32768, 32769, 65534, 65535, 0, 7, 8]


def addr6(r):
    k = r.randrange(8)
    if k == 0: return octets(r, 16, 0)
    w = [r.choice([0, 0, 0, 1, 0xffff, 0xabc, 0x10, 0x1000, 0x100, r.randrange(65536)]) for _ in range(8)]
    if k == 1: w[:5] = [0] * 5; w[5] = r.choice([0, 0xffff])
    if k == 2: w[:r.randrange(1, 9)] = []; w = [0] * (8 - len(w)) + w
    if k == 3: n = r.randrange(9); w[n:] = [0] * (8 - n)
    return b"".join(u16(x) for x in w)


def cstring(r, n=None):
    if n is None: n = r.choice([0, 0, 1, 1, 2, 3, 5, 8, 30, 63, 64, 127, 128, 254, 255])
    return bytes([n]) + octets(r, n)


def bitmap(r):
    out = b""
    for w in sorted(r.sample(range(256), r.choice([0, 1, 1, 1, 2, 2, 3])) if r.random() < .7 else r.choice([[0], [0, 1], [0, 255], [1], [128], [255]])):
        n = r.choice([1, 1, 2, 6, 7, 31, 32])
        b = bytearray(r.choice([0, 0, 1, 0x80, 0x40, 0x55, 255, r.randrange(256)]) for _ in range(n))
        if b[-1] == 0: b[-1] = r.choice([1, 128, 16])
        out += bytes([w, n]) + bytes(b)
    return out


def svcparam(r, k=None):
    if k is None: k = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 65534, r.randrange(7, 65535)])
    if k == 0: v = b"".join(u16(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 100, 65534])) for _ in range(r.choice([0, 1, 2, 3])))
    elif k == 1: v = b"".join(cstring(r, r.choice([0, 1, 1, 2, 5, 63, 255])) for _ in range(r.choice([1, 1, 2, 3])))
    elif k == 2: v = b""
    elif k == 3: v = u16(r.choice([0, 1, 80, 443, 65535]))
    elif k == 4: v = b"".join(octets(r, 4, 1) for _ in range(r.choice([0, 1, 1, 2, 3])))
    elif k == 5: v = octets(r, r.choice([0, 1, 1, 2, 3, 4, 5, 30, 191, 192, 193, 255, 256, 400]))
    elif k == 6: v = b"".join(addr6(r) for _ in range(r.choice([0, 1, 1, 2])))
    else: v = octets(r, r.choice([0, 1, 2, 7, 40, 255, 256, 300]))
    return u16(k) + u16(len(v)) + v


def svcparams(r): return b"".join(svcparam(r) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))


def option(r, c=None):
    if c is None: c = r.choice([8, 8, 15, 15, 0, 3, 10, 12, 65001, 65535, r.randrange(65536)])
    if c == 8:
        f = r.choice([1, 1, 2, 2, 0, 3, 257])
        v = u16(f) + octets(r, 2) + octets(r, r.choice([0, 1, 3, 4, 4, 5, 8, 16, 17]) if r.random() < .4 else r.randrange(0, 5 if f == 1 else 17))
        if r.random() < .1: v = v[:r.randrange(4)]
    elif c == 15:
        v = u16(r.choice([0, 1, 3, 23, 24, 25, 26, 300, 65535])) + octets(r, r.choice([0, 0, 1, 5, 30]))
        if r.random() < .1: v = v[:r.randrange(2)]
    else: v = octets(r, r.choice([0, 1, 2, 8, 16, 40]))
    return u16(c) + u16(len(v)) + v


def options(r): return b"".join(option(r) for _ in range(r.choice([0, 1, 1, 2, 3])))


def fld(r, k, nm):
    if k == "name": return nm()
    if k == "int8": return bytes([r.choice([0, 1, 9, 10, 99, 100, 127, 128, 254, 255])])
    if k == "int16": return u16(r.choice([0, 1, 9, 10, 99, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65534, 65535]))
    if k == "rrtype": return u16(r.choice(ASSIGNED))
    if k == "int32": return u32(r.choice([0, 1, 9, 10, 65535, 65536, 99999, 100000, 999999, 1000000, 2**31 - 1, 2**31, 4294967290, 2**32 - 1, r.randrange(2**32)]))
    if k == "ipv4": return bytes(r.choice([0, 1, 9, 10, 99, 100, 199, 200, 255]) for _ in range(4))
    if k == "ipv6": return addr6(r)
    if k == "eui48": return octets(r, 6)
    if k == "eui64": return octets(r, 8)
    if k in ("string", "salt", "hash"): return cstring(r)
    if k == "repstring": return b"".join(cstring(r) for _ in range(r.choice([1, 1, 2, 3])))
    if k == "ipv6prefix":
        p = r.choice([0, 1, 7, 8, 9, 63, 64, 65, 119, 120, 121, 127, 128, r.randrange(129)])
        n = (128 - p + 7) // 8
        return bytes([p]) + (addr6(r)[16 - n:] if n else b"")
    if k == "bitmap": return bitmap(r)
    if k == "svcparams": return svcparams(r)
    if k == "options": return options(r)
    return octets(r, r.choice([0, 1, 1, 2, 3, 4, 5, 6, 20, 57, 300 if r.random() < .1 else 21]))


def rdata(r, t, nm=None):
    nm = nm or (lambda: name(r, r.random() < .7))
    if t not in LAYOUT: return octets(r, r.choice([0, 1, 2, 9, 60]))
    return b"".join(fld(r, k, nm) for k in LAYOUT[t])


def pieces(r, t, nm=None):
    nm = nm or (lambda: name(r, True))
    return [fld(r, k, nm) for k in LAYOUT[t]]


def some_class(r, t): return 1 if r.random() < .85 else r.choice([3, 4, 254, 255, 0, 2, 65535])


class Mb:
    """a message under construction; remembers where names start"""
    def __init__(self, r, counts=None):
        self.r, self.b, self.at = r, bytearray(12), []

    def name(self, ls=None):
        r = self.r
        k = r.random()
        if k < .3 and self.at:
            t = r.choice(self.at)
            return bytes([192 | t >> 8, t & 255])
        ls = labels(r, small=True) if ls is None else ls
        w = b"".join(bytes([len(l)]) + l for l in ls)
        if k < .5 and self.at:
            t = r.choice(self.at)
            return w + bytes([192 | t >> 8, t & 255])
        return w + b"\0"

    def add(self, n):
        """append a name, remembering its label starts"""
        p = len(self.b)
        self.b += n
        q = p
        while q < len(self.b) and q < 16000:
            c = self.b[q]
            self.at.append(q)
            if c == 0 or c >= 192: break
            q += c + 1

    def q(self, n, t, c):
        self.add(n); self.b += u16(t) + u16(c)

    def rr(self, n, t, c, ttl, rd):
        """rd: octets, or a list of (isname, octets)"""
        self.add(n)
        self.b += u16(t) + u16(c) + u32(ttl)
        lp = len(self.b)
        self.b += b"\0\0"
        for isname, x in (rd if isinstance(rd, list) else [(False, rd)]):
            if isname: self.add(x)
            else: self.b += x
        self.b[lp:lp + 2] = u16(len(self.b) - lp - 2)

    def typed(self, n, t, c, ttl):
        """a record with well-formed data whose names may be compressed"""
        r = self.r
        self.add(n)
        self.b += u16(t) + u16(c) + u32(ttl)
        lp = len(self.b)
        self.b += b"\0\0"
        fs = LAYOUT.get(t)
        if fs is None: self.b += rdata(r, t)
        else:
            for k in fs[:len(fs) if r.random() < .93 else r.randrange(len(fs) + 1)]:
                if k == "name": self.add(self.name())
                else: self.b += fld(r, k, None)
        self.b[lp:lp + 2] = u16(len(self.b) - lp - 2)

    def done(self, flags, counts, ident=None):
        self.b[:12] = u16(self.r.randrange(65536) if ident is None else ident) + u16(flags) + b"".join(u16(c) for c in counts)
        return bytes(self.b)


def message(r, maxrr=4, optp=.3, types=None, wellformed=.75):
    m = Mb(r)
    counts = [r.choice([0, 1, 1, 1, 2]), r.randrange(maxrr + 1), r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 2])]
    owners = [labels(r, small=True) for _ in range(2)]

    def owner():
        k = r.random()
        if k < .5:
            ls = r.choice(owners)
            if r.random() < .3: ls = [l.swapcase() for l in ls]
            return wire(ls)
        return m.name()
    ts = types or r.sample(TYPES, 2) + r.sample(UNKNOWN, 1)
    for s in range(4):
        for _ in range(counts[s]):
            if s == 0:
                m.q(owner(), r.choice(ts + [255, 41] if r.random() < .2 else ts), r.choice([1, 1, 3, 255]))
            elif r.random() < optp and s == 3 or r.random() < optp / 8:
                m.rr(b"\0" if r.random() < .8 else m.name(), 41, r.choice([512, 1232, 4096, 0, 65535]),
                     r.choice([0, 0x8000, 0x01008000, 0xff020001, 0x0f550080, 0xffffffff]), options(r))
            else:
                m.typed(owner(), r.choice(ts), some_class(r, 0), r.choice([0, 1, 60, 300, 3600, 86400, 2**31, 2**32 - 1, 65536, 65535]))
    c = list(counts)
    b = bytearray(m.done(r.choice([0, 0x8180, 0x0100, 0x8583, 0xffff, 0x7800, r.randrange(65536)]), c))
    if r.random() > wellformed:
        k = r.randrange(6)
        if k == 0: b = b[:r.randrange(len(b) + 1)]
        elif k == 1: b = bytearray(b[:12]) + bytearray(mutate(r, bytes(b[12:])))
        elif k == 2: s = r.randrange(4); b[4 + 2 * s:6 + 2 * s] = u16(max(0, counts[s] + r.choice([1, 2, 65000, -1])))
        elif k == 3: b += octets(r, r.choice([1, 2, 5, 11]))
        elif k == 4:
            i = r.randrange(12, len(b)) if len(b) > 12 else 0
            b[i] = (b[i] + r.choice([1, -1, 2, -2])) & 255
        else: b = b[:-1]
    return bytes(b)


def _ls(x): return bytes([len(x)]) + x


# every place in record data that holds free octets: type, and the data around them
CARRIERS = [
    (16, lambda x: _ls(x)), (16, lambda x: b"\1q" + _ls(x)), (13, lambda x: _ls(x) + b"\1o"), (13, lambda x: b"\0" + _ls(x)), (19, lambda x: _ls(x)), (20, lambda x: _ls(x) + b"\0"),
    (35, lambda x: b"\0\1\0\2" + _ls(x) + b"\1s\0" + b"\0"), (35, lambda x: b"\0\1\0\2\0\0" + _ls(x) + b"\1b\0"), (99, lambda x: _ls(x)),
    (10, lambda x: x), (11, lambda x: b"\1\2\3\4\6" + x), (256, lambda x: b"\0\1\0\2" + x), (257, lambda x: b"\0\5issue" + x), (257, lambda x: b"\x80" + _ls(x) + b"v"),
    (64, lambda x: b"\0\1\0\0\1" + u16(len(x) + 1) + _ls(x)), (65, lambda x: b"\0\1\0\0\1" + u16(len(x) + 4) + b"\2h2" + _ls(x)), (64, lambda x: b"\0\1\0\0\1" + u16(len(x) + 4) + _ls(x) + b"\2h3"),
    (64, lambda x: b"\0\1\0\0\5" + u16(len(x)) + x), (65, lambda x: b"\0\1\0\0\7" + u16(len(x)) + x), (64, lambda x: b"\0\1\0\x20\x01" + u16(len(x)) + x),
    (2, lambda x: _ls(x) + b"\0"), (15, lambda x: b"\0\1\1m" + _ls(x) + b"\0"), (6, lambda x: b"\0" + _ls(x) + b"\1z\0" + bytes(20)), (47, lambda x: _ls(x) + b"\0\0\1\x40"),
    (51, lambda x: b"\1\0\0\5" + _ls(x)), (50, lambda x: b"\1\0\0\5\1s" + _ls(x) + b"\0\1\x40"), (48, lambda x: b"\1\1\3\5" + x), (43, lambda x: b"\1\1\5\1" + x), (61, lambda x: x),
    (65280, lambda x: x), (52, lambda x: b"\3\1\1" + x)]


def shapes(x):
    """an octet alone, first, in the middle, last, twice, and next to what escapes are made of"""
    b = bytes([x])
    return [b, b + b"a", b"a" + b, b"a" + b + b"a", b + b, b + b"0", b + b"12", b"\\" + b, b + b"\\", b'"' + b, b"," + b, b + b","]


def filler(r, kind, n):
    """exactly n octets of a growable field, or None"""
    if kind in ("bytes", "base64", "text"): return octets(r, n)
    if kind == "repstring":
        out = b""
        while n > 0:
            k = min(255, n - 1) if n != 257 else 254
            out += cstring(r, k); n -= k + 1
        return out
    if kind == "bitmap":
        out, w = b"", 0
        while n > 0:
            k = min(32, n - 2)
            if n - k - 2 in (1, 2): k -= 2
            if k < 1 or w > 255: return None
            out += bytes([w, k]) + bytes(k - 1) + b"\x10"; n -= k + 2; w += 1
        return out
    if kind == "svcparams": return u16(7) + u16(n - 4) + octets(r, n - 4) if n >= 4 else None
    if kind == "options": return u16(65001) + u16(n - 4) + octets(r, n - 4) if n >= 4 else None


def misfits(r):
    """every service parameter with values of every small length, last and before another; and every type with data of every small length"""
    for k in (0, 1, 2, 3, 4, 5, 6, 7, 300):
        for n in range(36 if k in (4, 6) else 12):
            vs = [octets(r, n)]
            if k == 0 and n > 1: vs.append((b"".join(u16(4 + i) for i in range(n // 2)) + b"\0")[:n])
            if k == 1 and n: vs += [bytes([n - 1]) + octets(r, n - 1), bytes([n]) + octets(r, n - 1)] + ([bytes([n - 2]) + octets(r, n - 2) + b"\0", b"\1h" + bytes([n - 2]) + octets(r, n - 3)] if n > 2 else [])
            for v in vs:
                p = u16(k) + u16(n) + v
                yield 64, b"\0\1\0" + p
                yield 65, b"\0\1\0" + p + (u16(400) + u16(0) if k < 400 else b"")
    for t in TYPES + [65280]:
        whole = rdata(r, t)
        for n in range(33):
            yield t, octets(r, n)
            if n <= len(whole): yield t, whole[:n]
        for n in (1, 2, 4): yield t, whole + octets(r, n)


WIDE = [253, 254, 255, 256, 257, 258, 259, 260, 511, 512, 513]
WIDER = [32766, 32767, 32768, 32769, 65534, 65535]


def sized(r, sizes):
    """data whose length - whole, or after each field - sits at the edges of narrower counters"""
    for t in TYPES:
        fs = LAYOUT[t]
        if filler(r, fs[-1], 40) is None: continue
        head = [fld(r, k, lambda: name(r, True)) for k in fs[:-1]]
        for cut in range(len(fs)):
            skip = sum(map(len, head[:cut]))
            for s in sizes:
                whole = s + skip
                rest = whole - sum(map(len, head))
                if whole > 65535 or rest < 1: continue
                x = filler(r, fs[-1], rest)
                if x is not None: yield t, b"".join(head) + x
    for s in sizes:                              # and the counted lists inside service parameters and options
        for k, unit in ((0, 2), (1, 0), (4, 4), (6, 16), (5, 1), (300, 1)):
            if s % max(1, unit) or s > 65500: continue
            v = filler(r, "repstring", s) if k == 1 else b"".join(u16(9 + i) for i in range(s // 2)) if k == 0 else octets(r, s)
            yield 64, b"\0\1\0" + u16(k) + u16(s) + v
            yield 65, b"\0\1\0" + u16(k) + u16(s) + v + u16(400) + u16(0)
        if s <= 65500:
            for k, p in ((8, b"\0\1\x20\0"), (8, b"\0\2\x80\0"), (15, b"\0\3"), (10, b"")):
                for n in {s, s - len(p), s + 1, s + 4, s + 16}: yield 41, u16(k) + u16(n) + p + octets(r, n - len(p)) + u16(15) + u16(2) + b"\0\1"
