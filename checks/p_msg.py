"""P05-P08, P11-P15, P17, P20: messages, record data, RRsets, code points, names files."""
import itertools, json, os, re
from vlib import req
from vbuild import build
from gen_rr import *

T = "T_Message.tla"


def one(r, t, c, rd, ttl=300, owner=b"\x01a\0", pre=None):
    """a message whose only record is given"""
    m = Mb(r)
    if pre: m.q(pre, 1, 1)
    m.rr(owner, t, c, ttl, rd)
    return m.done(0x8000, [1 if pre else 0, 1, 0, 0])


def machine(c, quick):
    c.models([("MessageMachine.tla", "MC_MessageMachine.cfg" if quick else "MC_MessageMachine_deep.cfg")], workers=8, heap="4g" if quick else "12g", timeout=800 if quick else 3000)


def small_messages(c, quick):
    """every small message of MessageMachine with what the specification makes of it"""
    return c.gen("G_Message.tla", "small", "G_Message.cfg", N=2 if quick else 3)


def laws(c, quick, module, heap="4g"):
    c.model(module + ".tla", "MC_%s%s.cfg" % (module, "" if quick else "_deep"), workers=8, heap=heap, timeout=3000)


def cases(c, module, kind, deep):
    """the small cases of a model, to be run in the code"""
    return [x["a"] for x in c.gen(module + ".tla", kind, module + ("_deep.cfg" if deep else ".cfg"), KIND=kind)]


def p05(c, quick):
    w = build("wh")
    machine(c, quick)
    c.replay(w, small_messages(c, quick), keys=["id", "flags", "rcode", "rrs"])
    r, reqs = c.rng, []
    for _ in range(900 if quick else 12000): reqs.append(req("msg", message(r)))
    for n in range(0, 14): reqs.append(req("msg", bytes(n)))
    for _ in range(3 if quick else 30):          # every cut of a message, and every count off by one
        b = message(r, wellformed=1)
        for n in range(len(b)) if len(b) < 120 or not quick else r.sample(range(len(b)), 90): reqs.append(req("msg", b[:n]))
        for s in range(4):
            for d in (-1, 1, 2):
                x = bytearray(b); k = x[5 + 2 * s] + d
                if k >= 0: x[5 + 2 * s] = k; reqs.append(req("msg", bytes(x)))
        for s in range(4):                       # counts that promise more than there is, of every size
            for k in (127, 128, 255, 256, 257, 511, 32767, 32768, 32769, 65279, 65280, 65534, 65535):
                x = bytearray(b); x[4 + 2 * s], x[5 + 2 * s] = k >> 8, k & 255
                reqs.append(req("msg", bytes(x)))
    for _ in range(150 if quick else 3000):      # header damage right at the end of the message
        m = Mb(r)
        m.q(b"\x01q\0", 1, 1)
        t = r.choice(TYPES)
        m.typed(m.name(), t, 1, 5)
        k = r.randrange(0, 14)
        n = m.name()
        m.b += n + (u16(r.choice(TYPES)) + u16(1) + u32(9) + u16(r.choice([0, 1, 2, 4, 5, 16])) + octets(r, r.choice([0, 1, 4, 5, 16])))[:k + r.choice([0, 4, 16])]
        reqs.append(req("msg", m.done(0, [1, 2, 0, 0])))
    for b in big_messages(r): reqs.append(req("msg", b))
    for n in (65535, 65536, 65537, 65548, 66000, 131072 + 12):     # more octets than 2^16
        m = Mb(r)
        m.q(b"\1q\0", 1, 1)
        m.rr(b"\xc0\x0c", 65280, 1, 9, octets(r, 60000))
        m.rr(b"\xc0\x0c", 65281, 1, 9, octets(r, n - len(m.b) - 12 if n < 66000 else 5000))
        m.rr(b"\2zz\xc0\x0c", 2, 1, 9, b"\1n\xc0\x0c")
        b = m.done(0x8000, [1, 3, 0, 0])
        reqs.append(req("msg", b if n < 66000 else (b + bytes(n))[:n]))
        if n < 65548: reqs.append(req("msg", b[:-1]))
    for n in (127, 128, 255, 256, 257, 300):     # long sections
        for s in range(4):
            m = Mb(r)
            for i in range(n): m.q(b"\0", i, 1) if s == 0 else m.rr(b"\0", 65280 + i % 3, 1, i, b"\xc0" if i % 50 == 0 else b"")
            b = m.done(0, [n if k == s else 0 for k in range(4)])
            if n == 300 or (n + s) % 3 == 0: reqs.append(req("msg", b))
            if n in (256, 300): reqs.append(req("msg", b[:-1]))
    c.trace(w, T, reqs, also=build("whm"))


def big_messages(r):
    out = []
    m = Mb(r)                                    # expansion past 65535 octets of stored data
    m.q(exact_name(r, 255), 1, 1)
    m.rr(b"\0", 30, 1, 1, b"\xc0\x0c" + octets(r, 65279))
    out.append(m.done(0, [1, 1, 0, 0]))
    m = Mb(r)
    m.q(exact_name(r, 255), 1, 1)
    m.rr(b"\0", 30, 1, 1, b"\xc0\x0c" + octets(r, 65280))     # 255 + 65280 = 65535: just fits
    out.append(m.done(0, [1, 1, 0, 0]))
    m = Mb(r)
    m.q(exact_name(r, 255), 1, 1)
    m.rr(b"\0", 30, 1, 1, b"\xc0\x0c" + octets(r, 65281))
    out.append(m.done(0, [1, 1, 0, 0]))
    for vl in (65531, 65532, 65533, 65535):      # service parameter lengths near 2^16
        m = Mb(r)
        m.rr(b"\0", 65, 1, 1, u16(1) + b"\0" + u16(9) + u16(vl) + octets(r, 40))
        out.append(m.done(0, [0, 1, 0, 0]))
    return out


def p06(c, quick):
    w = build("wh")
    machine(c, quick)
    c.replay(w, small_messages(c, quick), keys=["sets"])
    r, reqs = c.rng, []
    laws(c, quick, "SetLaws")
    for rs in cases(c, "G_Sets", "records", not quick):
        m = Mb(r)
        for x in rs: m.rr(bytes(x["n"]), x["t"], x["c"], x["ttl"][0] << 16 | x["ttl"][1], bytes(x["d"][0]))
        reqs.append(req("mgroup", m.done(0x8000, [0, len(rs), 0, 0] if len(rs) % 2 else [0, 0, len(rs), 0])))
    for _ in range(900 if quick else 12000):
        m = Mb(r)
        base = labels(r, small=True)
        own = [wire(base), wire([l.swapcase() for l in base]), wire([l.upper() for l in base]), wire(base[1:]), wire(base + [b"x"]),
               wire([bytes(x ^ 32 for x in l) for l in base]), b"\0", wire([b"[a"]), wire([b"{A"]), wire([b"@"]), wire([b"`"])]
        ts = r.sample([1, 2, 16, 65280, 28, 46], 2)
        counts = [r.choice([0, 1, 2, 3]), r.choice([0, 2, 3, 5, 8]), r.choice([0, 0, 2, 3]), r.choice([0, 0, 2])]
        for s in range(4):
            for _ in range(counts[s]):
                o = r.choice(own[:2 + r.randrange(10)])
                t = r.choice(ts + [41] if r.random() < .1 else ts)
                if s == 0: m.q(o, t, 1)
                else: m.rr(o, t, r.choice([1, 1, 1, 3]) if t != 41 else 1, r.choice([0, 1, 2, 255, 256, 65535, 65536, 65537, 2**31 - 1, 2**31, 2**32 - 1, r.randrange(2**32)]),
                           [(False, {1: octets(r, 4), 28: octets(r, 16), 2: wire([octets(r, 2)]), 16: cstring(r, 3), 46: u16(1)}.get(t, octets(r, r.choice([0, 1, 3])) if t != 41 else b""))])
        reqs.append(req("mgroup", m.done(0x8000, counts)))
    for _ in range(300 if quick else 4000): reqs.append(req("mgroup", message(r, 6)))
    for _ in range(500 if quick else 8000):      # sets that differ in one small thing only: one octet of the owner, one bit of type or class
        m = Mb(r)
        base = salted(r) if r.random() < .5 else labels(r, small=True)
        own, t0, c0 = [base, [mixed(r, l) for l in base]] + [tweak(r, base) for _ in range(3)], r.choice([16, 65280, 99, 300]), r.choice([1, 3, 0, 255, 256])
        ts, cs = [t0, t0, t0 ^ 1 << r.randrange(16), t0 ^ 256], [c0, c0, c0 ^ 1 << r.randrange(16), c0 ^ 256]
        n = r.choice([2, 3, 5, 9])
        sec, q = r.choice([1, 2, 3]), r.choice([0, 0, 2, 4])
        for _ in range(q): m.q(wire(r.choice(own)), r.choice(ts), r.choice(cs))
        for _ in range(n): m.rr(wire(r.choice(own)), r.choice(ts), r.choice(cs), r.choice([0, 5, 2**32 - 1]), [(False, b"\0")])
        reqs.append(req("mgroup", m.done(0, [q] + [n if s == sec else 0 for s in (1, 2, 3)])))
    for _ in range(600 if quick else 9000):      # one record and one set, alike or nearly
        base = salted(r) if r.random() < .5 else labels(r, small=r.random() < .7)
        o = r.choice([base, [mixed(r, l) for l in base], tweak(r, base), base[1:]])
        t, cl = r.choice([1, 16, 41, 255, 256, 65280, 65535]), r.choice([1, 3, 254, 255, 256])
        reqs.append(req("cmpset", wire(base), t, cl, wire(o), t ^ r.choice([0, 0, 0, 0, 1 << r.randrange(16)]), cl ^ r.choice([0, 0, 0, 0, 1 << r.randrange(16)])))
    for x in range(256):
        for y in {x ^ 32, x, 65, 97, 90, 122, 64, 91}: reqs.append(req("cmpset", bytes([1, x, 0]), 1, 1, bytes([1, y, 0]), 1, 1))
    x = exact_name(r, 255)
    for i in range(255):
        y = bytearray(x); y[i] ^= r.choice([1, 32, 128])
        if x[i] > 63 or (x[i] < 1): reqs.append(req("cmpset", x, 1, 1, bytes(y), 1, 1))
    for n in (5, 9, 17, 40, 255, 256, 257, 300):  # many sets, each met again after all the others
        for owners in (3, 9, 33):
            m = Mb(r)
            for i in range(n): m.rr(bytes([1, 97 + i % owners % 26, 1, 48 + i % owners // 26, 0]), 65280, 1, 1000 - i, [(False, bytes([i & 255]))])
            if n < 200 or owners == (9 if n % 2 else 33): reqs.append(req("mgroup", m.done(0, [0] + [n if s == 1 + n % 3 else 0 for s in range(3)])))
    for n in (64, 66, 126, 127, 128, 129, 130, 254, 255, 256, 257, 300):      # one set met again after n others, all different
        for back in sorted({0, 1, n // 2}):
            m = Mb(r)
            own = [bytes([2, 97 + i % 26, 48 + i // 26, 0]) for i in range(n + 1)]
            for i in range(n + 1): m.rr(own[i], 65280, 1, 70000 - i, [(False, b"\1")])
            m.rr(mixed_wire(r, own[back]), 65280, 1, r.choice([5, 90000]), [(False, b"\2")])
            m.rr(own[n - 1], 65280, 1, 5, [(False, b"\3")])
            reqs.append(req("mgroup", m.done(0, [0] + [n + 3 if s == 1 + n % 3 else 0 for s in range(3)])))
    c.trace(w, T, reqs, also=build("whm"))


def mixed_wire(r, w): return bytes(x ^ 32 if 65 <= x & 0xdf <= 90 and r.random() < .5 else x for x in w)


def p07(c, quick):
    w = build("wh")
    r, reqs = c.rng, []
    laws(c, quick, "RdataLaws")
    for t, cl, d in cases(c, "G_Rdata", "data", not quick): reqs.append(req("mrdata", one(r, t, cl, bytes(d))))
    for t, cl, d in cases(c, "G_Rdata", "wire", True): reqs.append(req("mrdata", one(r, t, cl, bytes(d), pre=b"\1Q\1z\0")))
    for t in TYPES:
        for _ in range(8 if quick else 120):
            cl = some_class(r, t)
            m = Mb(r)
            m.q(m.name(), 1, 1)
            m.typed(m.name(), t, cl, 7)
            b = m.done(0, [1, 1, 0, 0])
            reqs.append(req("mrdata", b))
        for _ in range(14 if quick else 200):    # length off, one octet off, fields cut
            fs = pieces(r, t)
            d = b"".join(fs)
            k = r.randrange(5)
            if k == 0: d = d[:r.randrange(len(d) + 1)]
            elif k == 1: d = d + octets(r, r.choice([1, 1, 2, 4]))
            elif k == 2: d = mutate(r, d)
            elif k == 3: d = b"".join(fs[:r.randrange(len(fs) + 1)])
            elif d: d = d[:-1]
            m = Mb(r)
            m.q(b"\x03abc\0", 1, 1)
            m.rr(b"\xc0\x0c", t, some_class(r, t), 7, d)
            if r.random() < .7: m.rr(b"\0", 65280, 1, 7, octets(r, 12, 4))     # so that over-reads stay inside the message
            reqs.append(req("mrdata", m.done(0, [1, 2 if r.random() < .8 else 1, 0, 0])))
    for t in UNKNOWN:
        reqs.append(req("mrdata", one(r, t, 1, rdata(r, t))))
        reqs.append(req("mrdata", one(r, t, 3, b"\xc0\x0c\0\xff")))
    for t in sorted(IN_ONLY):
        for cl in (0, 2, 3, 255, 65535): reqs.append(req("mrdata", one(r, t, cl, octets(r, r.choice([0, 1, 3, 5, 17])))))
    for _ in range(200 if quick else 4000):      # names in data: pointers everywhere
        t = r.choice([2, 6, 15, 33, 46, 47, 64, 35, 38, 26, 14, 24, 30])
        m = Mb(r)
        m.q(wire(labels(r, small=True)), 1, 1)
        m.q(wire(labels(r)), 1, 1)
        fs = []
        for k in LAYOUT[t]:
            if k == "name":
                x = r.choice([bytes([192, r.randrange(10, min(255, len(m.b) + 30))]), m.name(), m.name(), b"\xc0", b"\x3f" + octets(r, 5), b"\x40", b"\xc0\x0c\xc0\x0c"])
                fs.append((True, x))
            else: fs.append((False, fld(r, k, None)))
        m.rr(b"\0", t, 1, 1, fs)
        reqs.append(req("mrdata", m.done(0, [2, 1, 0, 0])))
    for k in range(0, 9):                        # service parameters: every key, lengths around what it allows
        for n in (0, 1, 2, 3, 4, 5, 15, 16, 17, 32):
            for v in ([octets(r, n, 0)] + ([bytes([n - 1]) + octets(r, n - 1), bytes([max(0, n - 2)]) + octets(r, n - 1), bytes(n)] if k == 1 and n else [])):
                reqs.append(req("mrdata", one(r, r.choice([64, 65]), 1, b"\0\1\0" + u16(k) + u16(n) + v)))
    for d in (u16(65535) + u16(0), u16(65534) + u16(0), b"\0", u16(3), u16(3) + b"\0", u16(3) + u16(3) + b"ab"):
        reqs.append(req("mrdata", one(r, 64, 1, b"\0\1\0" + d)))
    for n in (0, 1, 2, 31, 32, 33, 64, 255):     # bitmap windows
        for extra in (-1, 0, 1, 2): reqs.append(req("mrdata", one(r, 47, 1, b"\0" + bytes([0, n]) + b"\x40" * max(0, n + extra))))
    for p in range(0, 256, 1):
        n = (128 - p + 7) // 8 if p <= 128 else 2
        reqs.append(req("mrdata", one(r, 38, 1, bytes([p]) + octets(r, n) + b"\1z\0")))
        if p % 4 == 0: reqs.append(req("mrdata", one(r, 38, 1, bytes([p]) + octets(r, n + r.choice([-1, 1]) if n else 0))))
    for b in big_messages(r): reqs.append(req("mrdata", b))
    for t, d in wide(c, quick, 6): reqs.append(req("mrdata", one(r, t, 1, d[:65000], owner=b"\0")))
    for t, d in misfits(r): reqs.append(req("mrdata", one(r, t, 1, d, owner=b"\0")))
    c.trace(w, T, reqs, also=build("whm"))


def wide(c, quick, k):
    """lengths at the edges of narrower counters"""
    ds = list(sized(c.rng, WIDER))
    return list(sized(c.rng, WIDE)) + c.rng.sample(ds, k if quick else min(len(ds), 12 * k))


def p08(c, quick):
    w = build("wh")
    r, reqs = c.rng, []
    laws(c, quick, "RdataLaws")
    for t, cl, d in cases(c, "G_Rdata", "data", not quick): reqs.append(req("rd2s", t, cl, bytes(d)))
    for t in TYPES:
        for _ in range(14 if quick else 250):
            reqs.append(req("rd2s", t, some_class(r, t), rdata(r, t)))
        for _ in range(14 if quick else 250):
            d = rdata(r, t, lambda: name(r, True))
            k = r.randrange(4)
            if k == 0: d = d[:r.randrange(len(d) + 1)]
            elif k == 1: d = mutate(r, d)
            elif k == 2: d = d[:-1]
            else:
                fs = pieces(r, t); d = b"".join(fs[:r.randrange(len(fs) + 1)])
            reqs.append(req("rd2s", t, 1, d[:65535]))
    for t in UNKNOWN:
        for n in (0, 1, 2, 9, 10, 300): reqs.append(req("rd2s", t, r.choice([1, 3]), octets(r, n)))
    for cch in range(256):
        reqs += [req("rd2s", 16, 1, bytes([3, 97, cch, 98])), req("rd2s", 257, 1, bytes([0, 1, cch, cch])), req("rd2s", 10, 1, bytes([cch])),
                 req("rd2s", 64, 1, b"\0\1\0" + u16(1) + u16(3) + bytes([2, cch, 65])), req("rd2s", 2, 1, bytes([2, cch, 97, 0]))]
        if not quick or cch % 4 == 0:
            reqs += [req("rd2s", 1, 1, bytes([cch, 255 - cch, cch, 1])), req("rd2s", 41, 1, u16(7) + u16(1) + bytes([cch])), req("rd2s", 41, 1, u16(15) + u16(3) + bytes([0, cch % 30, cch])),
                     req("rd2s", 47, 1, b"\0" + bytes([cch, 1, 1 << (cch % 8)]))]
    for t, f in CARRIERS:                        # every octet, everywhere it can stand
        for x in range(256):
            for v in shapes(x): reqs.append(req("rd2s", t, 1, f(v)))
    for x in range(256):
        for v in shapes(x)[:4]: reqs += [req("rd2s", 41, 1, u16(15) + u16(2 + len(v)) + b"\0\3" + v), req("rd2s", 41, 1, u16(65001) + u16(len(v)) + v)]
    for x in range(256): reqs.append(req("rd2s", 47, 1, b"\0" + bytes([x, 32]) + b"\xff" * 32))       # every type in a list
    for t in range(0, 260): reqs.append(req("rd2s", t, 1, octets(r, r.choice([0, 4, 16, 20]))))
    for t in range(0, 65536, 257 if quick else 13):      # type lists: every window
        reqs.append(req("rd2s", 46, 1, u16(t) + bytes([5, 2]) + bytes(14) + b"\0"))
    for n in range(0, 13):
        reqs += [req("rd2s", 48, 1, b"\1\0\3\5" + octets(r, n)), req("rd2s", 61, 1, octets(r, n)), req("rd2s", 50, 1, b"\1\0\0\1\0" + bytes([n]) + octets(r, n) + b"\0\1\x40")]
    for ln in (255, 256, 65535 if not quick else 4000):
        reqs += [req("rd2s", 16, 1, bytes([255]) + octets(r, 255) + cstring(r, 255)), req("rd2s", 10, 1, octets(r, ln)), req("rd2s", 61, 1, octets(r, ln)), req("rd2s", 256, 1, u32(1) + octets(r, min(ln, 4000)))]
    for t, d in wide(c, quick, 8): reqs.append(req("rd2s", t, 1, d))
    for t, d in misfits(r): reqs.append(req("rd2s", t, 1, d))
    reqs.append(req("rd2s", 2, 1, exact_name(r, 255)))
    reqs.append(req("rd2s", 2, 1, b"\x3f" + bytes(63) + b"\x3f" + bytes(63) + b"\x3f" + bytes(63) + b"\x3d" + bytes(61) + b"\0"))
    c.trace(w, T, reqs, also=build("whm"))


def p11(c, quick):
    w = build("wh")
    c.replay(w, small_messages(c, quick), keys=["rcode", "edns"])
    r, reqs = c.rng, []
    for _ in range(900 if quick else 12000):
        m = Mb(r)
        counts = [r.choice([0, 1, 2]), r.choice([0, 1, 2]), r.choice([0, 1]), r.choice([0, 1, 2, 3])]
        for s in range(4):
            for _ in range(counts[s]):
                if s == 0: m.q(m.name(), r.choice([1, 41, 255]), r.choice([1, 4096]))
                elif r.random() < (.6 if s == 3 else .25):
                    m.rr(b"\0" if r.random() < .7 else m.name(), 41, r.choice([0, 512, 1232, 65535, r.randrange(65536)]),
                         r.choice([0, 0x8000, 0x7fff, 0x01000000, 0x00010000, 0x00ff0000, 0xff000000, 0xffffffff, r.randrange(2**32)]), options(r) if r.random() < .8 else octets(r, 5))
                else: m.typed(m.name(), r.choice([1, 2, 16, 40, 42, 65280]), 1, r.randrange(2**32))
        b = m.done(r.choice([0x8180, 0x800f, 0, r.randrange(65536)]), counts)
        if r.random() < .1: b = mutate(r, b)
        reqs.append(req("medns", b))
    for rc in range(16):
        for hi in (0, 1, 15, 16, 127, 128, 255):
            reqs.append(req("medns", Mb(r).done(rc, [0, 0, 0, 0])))
            m = Mb(r); m.rr(b"\0", 41, 1232, hi << 24 | 0x8000, b""); reqs.append(req("medns", m.done(0x8000 | rc, [0, 0, 0, 1])))
    for t, d in wide(c, quick, 8):
        if t == 41: reqs += [req("rd2s", 41, 1, d), req("medns", one(r, 41, 1232, d[:65000], owner=b"\0"))]
    for n in (260, 272, 32772, 65531 - 4): reqs += [req("rd2s", 41, 1, u16(8) + u16(n) + u16(f) + b"\x18\0" + octets(r, n - 4)) for f in (1, 2)]       # addresses whose length only looks short
    # the options' text
    for _ in range(250 if quick else 4000):
        d = options(r)
        if r.random() < .2: d = mutate(r, d)
        reqs.append(req("rd2s", 41, 1, d))
    for fam in (0, 1, 2, 3, 256):
        for n in range(0, 22): reqs.append(req("rd2s", 41, 1, u16(8) + u16(4 + n) + u16(fam) + bytes([24, n]) + octets(r, n)))
    for code in range(0, 21):
        for n in range(0, 42 if code in (3, 10) else 10):
            v = octets(r, n)
            reqs += [req("rd2s", 41, 1, u16(code) + u16(n) + v), req("rd2s", 41, 1, u16(code) + u16(n) + v + u16(15) + u16(2) + b"\0\1"), req("rd2s", 41, 1, u16(code) + u16(n + 1) + v)]
    for code in list(range(0, 30)) + [255, 256, 49152, 65535]:
        reqs.append(req("rd2s", 41, 1, u16(15) + u16(4) + u16(code) + b"ok"))
        reqs.append(req("rd2s", 41, 1, u16(code) + u16(2) + b"\x00A" + u16(code + 1 & 65535) + u16(0)))
    for _ in range(120 if quick else 1500):
        m = Mb(r); m.rr(b"\0", 41, r.choice([0, 1232]), r.choice([0, 0x8000, 0x12348765]), options(r))
        if r.random() < .4: m.rr(b"\0", 41, 99, 5, options(r))
        reqs.append(req("render", m.done(0x8000, [0, 0, 0, 2])))
    c.trace(w, T, reqs, also=build("whm"))


def p12(c, quick):
    w = build("wh")
    r, reqs = c.rng, []
    machine(c, quick)
    for v in small_messages(c, True)[::1 if not quick else 4]: reqs.append(req("render", bytes(v["a"][0])))
    for t, cl, d in cases(c, "G_Rdata", "data", False)[::1 if not quick else 3]: reqs.append(req("render", one(r, t, cl, bytes(d))))
    for _ in range(350 if quick else 6000): reqs.append(req("render", message(r, wellformed=.97)))
    for k in range(16): reqs.append(req("render", Mb(r).done(1 << k, [0, 0, 0, 0], ident=1 << k)))
    for k in range(0, 16): reqs.append(req("render", Mb(r).done(k << 11 | k, [0, 0, 0, 0], ident=65535 - k)))
    for rc in list(range(16, 24)) + [0xfff, 0x800]:
        m = Mb(r); m.rr(b"\0", 41, 1232, (rc >> 4) << 24, b""); reqs.append(req("render", m.done(rc & 15, [0, 0, 0, 1])))
    for cl in (0, 1, 2, 3, 4, 5, 253, 254, 255, 256, 65535):
        for t in (1, 16, 65280):
            m = Mb(r); m.q(b"\1a\0", t, cl); m.rr(b"\1b\0", t, cl, 2**32 - 1, {1: b"\1\2\3\4", 16: b""}.get(t, b"x")); reqs.append(req("render", m.done(0, [1, 1, 0, 0])))
    for _ in range(60 if quick else 600):       # many records of one set and long lines
        m = Mb(r); n = r.choice([2, 3, 7, 20])
        for _ in range(n): m.rr(b"\1z\0", 16, 1, r.randrange(2**32), [(False, cstring(r))])
        reqs.append(req("render", m.done(0x8400, [0, n, 0, 0])))
    for n in (255, 256, 257, 300):              # counts past an octet: one set, and as many
        m = Mb(r)
        for i in range(n): m.rr(b"\1z\0" if n != 257 else bytes([1, 97 + i % 26, 1, 97 + i // 26, 0]), 65280, 1, i, [(False, bytes([i & 255]))])
        reqs.append(req("render", m.done(0x8400, [0, 0, n, 0])))
        if n == 300:
            m = Mb(r)
            for i in range(n): m.q(b"\0", i, 1)
            reqs.append(req("render", m.done(0, [n, 0, 0, 0])))
    c.trace(w, T, reqs, also=build("whm"))


def rand_set(r, t=None, cl=None):
    t = r.choice(TYPES + UNKNOWN) if t is None else t
    n = r.choice([0, 1, 1, 2, 2, 3, 5, 9])
    ttl = r.choice([0, 1, 65535, 65536, 2**31, 2**32 - 1, r.randrange(2**32)])
    ds = [rdata(r, t, lambda: name(r, True))[:2000] for _ in range(n)]
    return [name(r, r.random() < .8), t, r.choice([1, 1, 3, 255, 65535]) if cl is None else cl, ttl >> 16, ttl & 65535] + ds


def p13(c, quick):
    w = build("wh")
    r, reqs = c.rng, []
    for _ in range(260 if quick else 4000): reqs.append(req("ser", *rand_set(r)))
    for n in (0, 1, 2, 255, 256, 300):
        reqs.append(req("ser", exact_name(r, 255), 16, 1, 0, 1, *[octets(r, r.choice([0, 1, 2])) for _ in range(n)]))
    for ln in (255, 256, 257, 32768, 65534, 65535): reqs.append(req("ser", b"\0", 65280, 1, 1, 2, octets(r, ln), b"", b"z"))
    for ds in cases(c, "G_Sets", "lists", not quick): reqs.append(req("ser", b"\1A\0", 65280, 1, 0, 9, *map(bytes, ds)))
    for k in range(0, 6 if quick else 8):        # every short body behind every small count
        for tail in itertools.product((0, 1, 2), repeat=k):
            for cnt in (1, 2, 3):
                if tail and not quick or r.random() < .5 or k < 4: reqs.append(req("deser", b"\1\0" + bytes(8) + struct.pack("<H", cnt) + bytes(tail)))
    for n in (2, 3, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000):       # one long datum among many short ones
        for i in sorted({0, 1, n // 2, n - 2, n - 1, 127, 128, 255, 256}):
            if i >= n or quick and n > 3 and r.random() < .5: continue
            ds = [b""] * n if r.random() < .7 else [octets(r, r.choice([0, 1])) for _ in range(n)]
            ds[i] = octets(r, r.choice([256, 32767, 32768, 40000, 65535]))
            reqs.append(req("ser", b"\1a\0", 65280, 1, 1, 2, *ds))
    for n in (2, 3, 5): reqs.append(req("ser", b"\1a\0", 65280, 1, 1, 2, *[octets(r, r.choice([21845, 32768, 65535])) for _ in range(n)]))       # more than 2^16 octets together
    for n in (4095, 4096, 32767, 32768, 65535): reqs.append(req("ser", b"\1a\0", 65280, 1, 1, 2, *([b""] * (n - 1) + [b"z"])))
    for _ in range(500 if quick else 10000):
        k = r.randrange(3)
        nm = name(r, True)
        b = bytes([len(nm)]) + nm + u16(1) + u16(1) + u32(9) + struct.pack("<H", r.choice([0, 1, 2, 3, 255, 65535])) + b"".join(struct.pack("<H", n) + octets(r, n) for n in [r.choice([0, 1, 4])] * r.randrange(4))
        b = b if k == 0 else mutate(r, b) if k == 1 else octets(r, r.randrange(0, 60))
        reqs.append(req("deser", b))
    c.trace(w, T, reqs, also=build("whm"))


def mixed(r, b): return bytes((x ^ 32 if (65 <= x <= 90 or 97 <= x <= 122) and r.random() < .6 else x) for x in b)


def p14(c, quick):
    w = build("wh")
    r, reqs = c.rng, []
    laws(c, quick, "RdataLaws")
    for t, cl, d in cases(c, "G_Rdata", "data", not quick):
        reqs.append(req("foldrd", t, cl, bytes(d)))
        if len(reqs) % 4 == 0: reqs.append(req("fold", b"\1A\1z\0", t, cl, 0, 1, bytes(d), b"", bytes(d)))
    upname = lambda: wire([mixed(r, octets(r, len(l), r.choice([1, 3, 2, 0]))) for l in labels(r, small=r.random() < .8)])
    for t in TYPES + UNKNOWN:
        k = 26 if t in LAYOUT and "name" in LAYOUT[t] else 6
        for _ in range(k if quick else 12 * k):
            d = rdata(r, t, upname)
            d = d[:3000]
            reqs.append(req("foldrd", t, r.choice([1, 1, 1, 3]), d))
            if r.random() < .35: reqs.append(req("foldrd", t, 1, d[:r.randrange(len(d) + 1)]))
            if r.random() < .35: reqs.append(req("foldrd", t, 1, mutate(r, d)))
        for _ in range(2 if quick else 20):
            a = rand_set(r, t, r.choice([1, 1, 3]))
            a[0] = upname()
            a[5:] = [rdata(r, t, upname)[:1000] for _ in range(r.choice([0, 1, 2, 3]))]
            reqs.append(req("fold", *a))
    for x in range(256):
        reqs += [req("foldrd", 2, 1, bytes([2, x, 65, 0])), req("foldrd", 15, 1, bytes([0, x, 1, x, 0])), req("foldrd", 16, 1, bytes([2, x, 65])),
                 req("foldrd", 38, 1, bytes([x]) + bytes([65]) * ((128 - x + 7) // 8 if x <= 128 else 3) + b"\1Q\0")]
    for pre in (0, 64, 128):
        reqs.append(req("foldrd", 38, 1, bytes([pre]) + b"Z" * ((128 - pre) // 8) + b"\2AB\1\0\1C\0"))
    for n in (1, 63):
        reqs.append(req("foldrd", 6, 1, bytes([n]) + b"A" * (n - 1) + b"\0" + b"\0" + b"\1B\0" + b"ABCD" * 5))
    for n in (126, 127, 128, 129, 130, 255, 256, 257, 260):       # every record of a long set, the last too
        ds = [b"\2A" + bytes([65 + i % 26]) + b"\0" for i in range(n)]
        if quick and n not in (129, 257): ds[3:-3] = [b"\1a\0"] * (n - 6)
        reqs.append(req("fold", b"\1Q\0", 2, 1, 0, 1, *ds))
    for n in (32767, 32768, 32769, 65535): reqs.append(req("fold", b"\1Q\0", 2, 1, 0, 1, *([b"\1Z\0"] + [b""] * (n - 2) + [b"\2XY\0"])))
    for t, d in sized(r, WIDE): reqs.append(req("foldrd", t, 1, d))
    for t, d in misfits(r): reqs.append(req("foldrd", t, 1, d))
    for t in (2, 15, 6, 33, 35, 14):             # unterminated and overlong names
        for d in (b"\3ABC", b"\3AB", b"\x3f" + b"A" * 10, b"\x40" + b"A" * 64 + b"\0", b"\xc0\x41", (b"\1A" * 128) + b"\0", b"\0\0\1A"): reqs.append(req("foldrd", t, 1, d))
    c.trace(w, T, reqs, also=build("whm"))


def p15(c, quick):
    w = build("wh")
    r, reqs = c.rng, []
    laws(c, quick, "SetLaws")
    for ds in cases(c, "G_Sets", "lists", not quick): reqs.append(req("sort", b"\1A\0", 65280, 1, 0, 9, *map(bytes, ds)))
    for _ in range(1200 if quick else 15000):
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 8, 13, 30])
        k = r.randrange(4)
        if k == 0: ds = [octets(r, r.choice([0, 1, 2])) for _ in range(n)]
        elif k == 1: ds = [bytes([r.choice([0, 1, 127, 128, 255]) for _ in range(3)]) for _ in range(n)]
        elif k == 2: ds = [b"same" + bytes([r.choice([0, 127, 128, 255])]) * r.choice([0, 1]) for _ in range(n)]
        else: ds = [octets(r, r.choice([1, 255, 256, 257, 300])) for _ in range(min(n, 8))]
        reqs.append(req("sort", name(r, True), r.choice([1, 16, 65280]), 1, r.randrange(65536), r.randrange(65536), *ds))
    for ln in (1, 2, 7, 8, 9, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300):     # data equal but for one octet somewhere
        for _ in range(3 if quick else 40):
            d = octets(r, ln, 4 if r.random() < .5 else None)
            n, ds = r.choice([2, 3, 6]), []
            for _ in range(n):
                x = bytearray(d); i = r.choice([0, ln - 1, ln // 2, r.randrange(ln), r.randrange(ln)]); x[i] = r.choice([x[i] ^ 128, x[i] ^ 1, 0, 255]); ds.append(bytes(x))
            reqs.append(req("sort", b"\0", 65280, 1, 0, 0, *(sorted(ds, reverse=True) if r.random() < .5 else ds)))
    for n in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257):
        reqs.append(req("sort", b"\0", 65280, 1, 0, 0, *[bytes([255 - i % 256, i >> 8]) for i in range(n)]))
    for n in (32767, 32768, 32769, 65535): reqs.append(req("sort", b"\0", 65280, 1, 0, 0, b"z", *([b"m"] * (n - 2)), b"a"))
    for n in (200, 1000):
        reqs.append(req("sort", b"\0", 1, 1, 0, 0, *[octets(r, 2) for _ in range(n)]))
    c.trace(w, T, reqs, also=build("whm"))


def mnemonics():
    txt = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Registry.tla")).read()
    return sorted(set(re.findall(r'<<\d+, "([A-Z0-9-]+)">>', txt)))


def p17(c, quick):
    w = build("wh")
    r, reqs = c.rng, []
    codes = set(range(0, 300)) | {32766, 32767, 32768, 32769, 32770, 65279, 65280, 65534, 65535} | set(r.sample(range(65536), 300 if quick else 65536))
    for n in sorted(codes): reqs.append(req("code", n))
    for n in range(0, 65536, 8192): reqs.append(req("generic", n, n + 8192))
    for n in range(-1, 18): reqs.append(req("restr", n))
    ms = mnemonics()
    words = set(m.encode() for m in ms)
    for m in ms:
        b = m.encode()
        words |= {b.lower(), mixed(r, b), b + b" ", b" " + b, b[:-1], b + b"X", b.replace(b"-", b"_"), b + b"\n", b.capitalize()}
    for p in (b"TYPE", b"CLASS", b"type", b"Class", b"TYP", b"CLAS", b"RCODE", b""):
        for s in (b"", b"0", b"1", b"00", b"007", b"65535", b"65536", b"65537", b"131071", b"4294967296", b"4294967297", b"18446744073709551617", b"99999999999999999999999999", b"-1", b"+1", b"-0", b" 1", b"1 ", b"\t5", b"0x10", b"1a", b"a", b"1.", b"1-", b"065535", b"000000000000000000001"):
            words.add(p + s)
    for _ in range(300 if quick else 8000): words.add(octets(r, r.choice([1, 2, 3, 5]), r.choice([2, 3])).replace(b"\0", b"x"))
    for x in sorted(words):
        if 0 not in x: reqs.append(req("mnem", x))
    reqs.append(req("version"))
    c.trace(w, T, reqs, also=build("whm"))


def p20(c, quick):
    w = build("wh")
    r, reqs = c.rng, []
    good = [b"a.example.", b"A.Example.COM", b".", b"x", b"\\065\\.b.", b"\\000.z", b"with space", b"b.#c", b"x" * 63, b"\\#", b"a" * 63 + b"." + b"B" * 63, b"com", b"\xff\xfe.q", b"w.\\032x"]
    bad = [b"a..b", b".a", b"x" * 64, b"\\25", b"\\256", b"a\\", b"..", b"b" * 63 + (b"." + b"c" * 63) * 3, b"q.\\9"]
    skip = [b"", b"# comment", b"#", b" indented", b"   ", b" a.b", b"#" + b"x" * 1279, b"#" + b"long " * 800, b" " + b"y" * 3000, b"#a..b"]
    for _ in range(900 if quick else 12000):
        ls = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
            k = r.random()
            ls.append(r.choice(good) if k < .6 else r.choice(skip) if k < .92 else r.choice(bad))
        if r.random() < .2: ls.insert(r.randrange(len(ls) + 1), text_name(r))
        b = b"\n".join(ls) + (b"\n" if r.random() < .5 else b"")
        reqs.append(req("names", b, 0))
    for x in (b"", b"\n", b"\n\n\na", b"a", b"a\n", b"\0", b"\0\n", b"a\0b\n", b"\0a.b", b"ok\n\0\nzz\n", b"a\n\0", b"c" * 1278 + b"\n", b"#" + b"c" * 1277 + b"\nx", b"#" + b"c" * 1278 + b"\nx", b"#" + b"d" * 1279 + b"\nx", b"\\a" * 640 + b".b"):
        reqs.append(req("names", x, 0))
    for n in (1270, 1278, 1279, 1280, 1281, 2558): reqs += [req("names", b"#" + b"k" * (n - 1) + b"\nz.\n", 0), req("names", b"k" * n + b"\nz.\n", 0)]
    reqs.append(req("names", b"long.\n" + b"\\065" * 63 + b"." + b"\\066" * 63 + b"." + b"\\067" * 63 + b"." + b"\\068" * 61 + b".\nend", 0))
    for k in (1, 2): reqs += [req("names", b"a.b.\n", k), req("names", b"", k)]
    c.trace(w, T, reqs, also=build("whm"))


def text_name(r):
    out = b""
    for l in labels(r, small=r.random() < .7):
        for ch in l:
            if ch in b".\\": out += b"\\" + bytes([ch])
            elif 32 < ch < 127 and ch != 35 and r.random() < .9: out += bytes([ch])
            else: out += b"\\%03d" % ch
        out += b"."
    return out or b"."


CHECKS = {"P05": p05, "P06": p06, "P07": p07, "P08": p08, "P11": p11, "P12": p12, "P13": p13, "P14": p14, "P15": p15, "P17": p17, "P20": p20}
