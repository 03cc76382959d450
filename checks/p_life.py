"""P16: histories over message and RRset objects."""
import struct
from vlib import req
from vbuild import build
from gen_rr import *

T = "T_Life.tla"


def ser_set(r, t=None, ds=None, nm=None, ttl=None):
    """the octets of an RRset as the current layout has them (what they mean is settled by the code's own reading)"""
    t = r.choice([1, 2, 6, 15, 16, 33, 47, 64, 65280]) if t is None else t
    nm = nm if nm is not None else name(r, True)
    ds = [rdata(r, t, lambda: name(r, True))[:300] for _ in range(r.choice([0, 1, 2, 3, 5]))] if ds is None else ds
    p16 = lambda x: struct.pack("<H", x)
    return bytes([len(nm)]) + nm + p16(t) + p16(1) + struct.pack("<I", r.randrange(2**32) if ttl is None else ttl) + p16(len(ds)) + b"".join(p16(len(d)) + d for d in ds)


def pool(r):
    """0: a message, 1: another, 2, 3: damaged ones, 4: a short one, 5: an RRset, 6: another, 7: a cut one, 8: noise"""
    a, b = message(r, 3, wellformed=1), message(r, 5, wellformed=.9)
    x = message(r, 4, wellformed=1)
    y = bytearray(message(r, 4, optp=.8, wellformed=1))
    cut = x[:r.randrange(12, len(x) + 1)]
    if len(y) > 14:
        i = r.randrange(max(12, len(y) - 30), len(y)); y[i] ^= r.choice([1, 2, 64, 128, 192, 255])
    s = ser_set(r)
    q = ser_set(r)
    return [a, b, cut, bytes(y), x[:r.randrange(12)], s, ser_set(r), q[:r.randrange(len(q))], mutate(r, q)]


def program(r, n):
    out = b""
    for _ in range(n):
        op = r.choice([1] * 6 + [2] * 4 + [3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 9, 10, 10, 10, 11, 11, 12, 12, 13, 14, 15, 16])
        m = r.randrange(2)
        s = r.randrange(3)
        if op == 1: w = (1, m, r.choice([0, 1, 0, 1, 2, 3, 3, 4, 8]), 0)
        elif op == 2: w = (2, s, r.choice([5, 6, 5, 6, 7, 8]), 0)
        elif op in (3, 8, 11, 12, 13, 14, 15): w = (op, m, r.randrange(4), 0)
        elif op == 10: w = (10, m, r.randrange(4), s)
        else: w = (op, s, 0, r.randrange(3))
        out += bytes(w)
    return out


def whole_message(r):
    """every record kind that takes its own path through the parser, in each section, then one that fails"""
    m = Mb(r)
    sets = [(b"\1a\0", 1, octets(r, 4)), (b"\1A\0", 1, octets(r, 4)), (b"\1a\0", 16, cstring(r, 3)), (b"\0", 41, options(r)), (b"\0", 41, b""), (b"\1b\0", 65280, b"")]
    counts = [r.choice([0, 1, 2]), 0, 0, 0]
    for _ in range(counts[0]): m.q(b"\1q\0", 1, 1)
    for s in (1, 2, 3):
        for _ in range(r.choice([0, 1, 2, 4])):
            n, t, d = r.choice(sets)
            m.rr(n, t, 1, r.randrange(100), d); counts[s] += 1
    k = r.randrange(9)
    if k < 7:
        bad = [b"\x40", b"\xc0", b"\1x\0\0\1\0", b"\1x\0" + u16(1) + u16(1) + u32(1) + u16(9) + b"abcd", b"\1x\0" + u16(1) + u16(1) + u32(1) + u16(3) + b"abc",
               b"\1x\0" + u16(15) + u16(1) + u32(1) + u16(4) + b"\0\1\x40a", b"\1x\0" + u16(41) + u16(1) + u32(1) + u16(50)][k]
        m.b += bad; counts[3] += 1
    return m.done(0x8000, counts)


def p16(c, quick):
    w, wm = build("wh"), build("whm")
    c.models([("LifeMachine.tla", "MC_LifeMachine.cfg" if quick else "MC_LifeMachine_deep.cfg")], workers=8, heap="6g")
    r = c.rng
    reqs = []
    for _ in range(500 if quick else 8000):
        reqs.append(req("life", program(r, r.choice([4, 8, 12, 16])), *pool(r)))
    for _ in range(300 if quick else 4000):
        reqs.append(req("life", bytes([1, 0, 0, 0, 1, 1, 1, 0]) + program(r, 5), whole_message(r), whole_message(r), whole_message(r), whole_message(r), b"", *pool(r)[5:]))
    c.trace(w, T, reqs, "histories")
    # histories from the specification: every one of so many steps
    recs = c.gen("G_Life.tla", "life", N=3 if quick else 4)
    greqs = []
    g = __import__("random").Random(7)
    pools = [pool_fixed(g) for _ in range(3)]
    for i, v in enumerate(recs): greqs.append(req("life", bytes(v["prog"]), *pools[i % 3]))
    c.trace(w, T, greqs, "specification histories")
    c.trace(wm, T, reqs[: 300 if quick else 4000] + reqs[500:600] if quick else reqs, "histories, undefined memory tracked")
    # and single calls of every kind with undefined memory tracked
    one = []
    for _ in range(250 if quick else 4000):
        one.append(req("msg", message(r)))
        t = r.choice(TYPES + UNKNOWN)
        d = rdata(r, t, lambda: name(r, True))[:3000]
        k = r.randrange(4)
        if k == 1: d = mutate(r, d)
        elif k == 2: d = d[:r.randrange(len(d) + 1)]
        one.append(req("rd2s", t, 1, d))
        one.append(req("rdtrip", t, 1, d))
        one.append(req("foldrd", t, 1, d))
        one.append(req("deser", mutate(r, ser_set(r))))
    c.trace(wm, T, one, "calls, undefined memory tracked")


def pool_fixed(r):
    m1 = Mb(r); m1.q(b"\1q\0", 1, 1); m1.rr(b"\1a\0", 2, 1, 9, [(False, b"\1Z\0")]); m1.rr(b"\1A\0", 2, 1, 3, [(False, b"\1C\0")]); m1.rr(b"\0", 41, 512, 0, u16(3) + u16(1) + b"x")
    m2 = Mb(r); m2.rr(b"\1b\0", 16, 1, 9, cstring(r, 2))
    bad = m1.done(0x8000, [1, 2, 0, 1])[:-1] + b""
    return [m1.done(0x8000, [1, 2, 0, 1]), m2.done(0, [0, 0, 1, 0]), bad, bad[:20], b"", ser_set(r, 2, [b"\1Y\0", b"\1B\0"], b"\1N\0", 7), ser_set(r, 1, [octets(r, 4)], b"\0", 1), ser_set(r)[:9], b"\1"]


CHECKS = {"P16": p16}
