"""P29-P35: trees, lists, hashes, spool directories, reading, text and time helpers, counters."""
from vlib import req
from vbuild import build
from gen import *

T = "T_Util.tla"


def as_reqs(vecs): return [req(v["op"], *[bytes(x) if isinstance(x, list) else x for x in v["a"]]) for v in vecs]


def p29(c, quick):
    w = build("uh")
    c.models([(m + ".tla", "MC_%s%s.cfg" % (m, "" if quick else "_deep")) for m in ("RBMachine", "SplayMachine")], workers=4)
    r, reqs = c.rng, []
    def prog(n, keys, bias):
        p = b""
        for i in range(n): p += bytes([r.choice(bias), r.choice(keys)])
        return p + b"\x08\0"
    for kind in (0, 1):
        for _ in range(500 if quick else 7000):
            keys = r.choice([range(4), range(12), range(40), range(256), [0, 127, 128, 255]])
            bias = r.choice([[0, 0, 1], [0, 0, 0, 1, 8], [0, 1, 2, 3, 4, 5, 6, 7, 8], [0, 0, 0, 0, 3, 6, 7], [0, 0, 0, 1, 1, 1, 6, 8]])
            reqs.append(req("tree", kind, prog(r.choice([1, 3, 8, 20, 50]), keys, bias)))
        for n in (31, 64, 150, 256):            # ordered, reversed and shuffled fills, emptied in different orders
            for order in (list(range(n)), list(range(n))[::-1], r.sample(range(n), n), [i // 2 if i % 2 else n - 1 - i // 2 for i in range(n)]):
                fill = b"".join(bytes([0, k]) for k in order) + b"\x08\0"
                out = r.sample(order, n // 2)
                reqs.append(req("tree", kind, fill + b"".join(bytes([1, k]) for k in out) + b"\x08\0" + b"".join(bytes([r.choice([3, 6, 7]), r.randrange(n)]) for _ in range(20))))
    c.trace(w, T, as_reqs(c.gen("G_Util.tla", "tree", KIND="tree", N=3 if quick else 4)), label="every short history")
    c.trace(w, T, reqs, also=build("uhm"))


def p30(c, quick):
    w = build("uh")
    c.models([("ListMachine.tla", "MC_ListMachine.cfg" if quick else "MC_ListMachine_deep.cfg")], workers=8)
    r, reqs = c.rng, []
    for _ in range(900 if quick else 12000):
        ls, p = [[], []], b""
        for _ in range(r.choice([2, 5, 12, 30])):
            on, off = ls[0] + ls[1], [x for x in range(16) if x not in ls[0] + ls[1]]
            o = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
            t = r.randrange(2)
            if o in (0, 1, 6, 8, 9) and off:
                x = r.choice(off); ls[t] = [x] + ls[t] if o in (1, 9) else ls[t] + [x]
                p += bytes([o, x, t])
            elif o in (2, 7) and on:
                x = r.choice(on); t = x in ls[1]; ls[t].remove(x); p += bytes([o, x, t])
            elif o in (3, 4) and on and off:
                y, x = r.choice(on), r.choice(off); t = y in ls[1]
                ls[t].insert(ls[t].index(y) + o - 3, x); p += bytes([o | t << 7, x, y])
            elif o == 5:
                ls[t] += ls[1 - t]; ls[1 - t] = []; p += bytes([5, 0, t])
        if p: reqs.append(req("list", p))
    c.trace(w, T, as_reqs(c.gen("G_Util.tla", "list", KIND="list", N=4 if quick else 5)), label="every short history")
    c.trace(w, T, reqs, also=build("uhm"))


def p31(c, quick):
    w = build("uh")
    c.models([("HashLaws.tla", "MC_HashLaws.cfg" if quick else "MC_HashLaws_deep.cfg")], workers=8)
    r, reqs = c.rng, []
    z = bytes(4)
    for n in list(range(0, 50)) + [63, 64, 65, 100, 255, 256, 257] + ([] if quick else [1000, 1023, 1024, 4096, 65535, 65536, 65537]):
        for _ in range(6 if quick else 40 if n < 1000 else 2):
            reqs.append(req("hash", octets(r, n, r.choice([0, 0, 4])), r.choice([z, b"\xff" * 4, octets(r, 4, 0)]), r.choice([z, b"\xff" * 4, octets(r, 4, 0)])))
    reqs += [req("hash", b"", b"\xde\xad\xbe\xef", b"\xde\xad\xbe\xef"), req("hash", b"Four score and seven years ago", z, b"\0\0\0\1")]
    c.replay(w, c.gen("G_Util.tla", "hash", KIND="hash", N=4 if quick else 10), label="every length and octet place")
    c.trace(w, T, reqs, also=build("uhm"))


def p32(c, quick):
    w = build("uh")
    c.models([("SpoolMachine.tla", "MC_SpoolMachine.cfg" if quick else "MC_SpoolMachine_deep.cfg")], workers=8)
    r, reqs = c.rng, []
    names = [b"a", b"b", b"B", b"0", b"c.pcap", b"a b", b"%s", b"-", b"\xff\xfe", b"new\nline", b"n" * 120, b"n" * 128, b"m" * 200, b"m" * 255, b".hid", b"..x", b"a~"]
    for _ in range(450 if quick else 7000):
        ops, ns = [], r.sample(names, r.choice([2, 4, 8]))
        for _ in range(r.choice([3, 8, 16, 30])):
            n = r.choice(ns)
            k = r.choice("++++a-_NNNNNOCFdyII")
            if k in "+a": ops.append(k.encode() + n + b"\0" + octets(r, r.choice([1, 2, 9])))
            elif k in "-_": ops.append(k.encode() + n)
            elif k in "NO": ops.append(k.encode())
            elif k in "CFI": ops.append(k.encode() + bytes([r.choice([1, 1, 2, 2, 3, 4, 6])]))
            elif r.random() < .5: ops.append(k.encode() + b"dir" if k == "d" else b"ylink")
        if len({o for o in ops if o[:1] in b"dy"}) < sum(o[:1] in b"dy" for o in ops): ops = [o for o in ops if o[:1] not in b"dy"]
        reqs.append(req("spool", *(ops + [b"N"] * r.choice([0, 2, 12]))))
    for _ in range(120 if quick else 1500):      # two threads at once
        n = r.choice([1, 2, 3, 5])
        ops = [b"+%d\0x" % i for i in range(n)] + ([b"a%d\0old" % r.randrange(n)] if r.random() < .3 else [])
        reqs.append(req("spool", *(ops + [b"I" + bytes([r.randrange(1, 12)]) for _ in range(r.choice([1, 2, 4]))] + [b"N"] * 3)))
    reqs.append(req("spool", *([b"+f%d\0x" % i for i in range(120)] + [b"N"] * 122)))
    for k in range(4 if quick else 60): reqs.append(req("spthr", r.choice([0, 1, 50, 200]), r.choice([1, 2, 4, 8])))
    c.trace(w, T, as_reqs(c.gen("G_Util.tla", "spool", KIND="spool", N=2 if quick else 3)), label="every short history")
    c.trace(w, T, reqs, also=build("uhm"))


def p33(c, quick):
    w = build("uh")
    r, reqs = c.rng, []
    for _ in range(1500 if quick else 20000):
        n = r.choice([0, 1, 2, 3, 8, 50])
        d = octets(r, n)
        ans = [r.choice([1, 1, 2, 3, 7, 100, -1, -1] + r.choice([[], [], [0], [-2], [-3]])) for _ in range(r.choice([0, 1, 2, 4, 8, 60]))]
        reqs.append(req("read", d, r.choice([n, n, max(0, n - 1), n + 1, 0, n // 2]), *ans))
    c.trace(w, T, as_reqs(c.gen("G_Util.tla", "read", KIND="read", N=4 if quick else 5)), label="every short script")
    c.trace(w, T, reqs, also=build("uhm"))


def p34(c, quick):
    w = build("uh")
    r, reqs = c.rng, []
    for x in range(256): reqs += [req("prstr", bytes([x])), req("prstr", bytes([97, x, 98])), req("getenv", 1, bytes([49, x or 32])), req("getenv", 1, bytes([48, x or 32]))]
    for _ in range(300 if quick else 5000): reqs.append(req("prstr", octets(r, r.choice([0, 2, 5, 40, 300]))))
    for n in (255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 70000): reqs.append(req("prstr", octets(r, n, 1)))
    reqs += [req("getenv", 0, b"1"), req("getenv", 1, b""), req("getenv", 1, b"0"), req("getenv", 1, b"00"), req("getenv", 1, b"08"), req("getenv", 1, b"0x"), req("getenv", 1, b"0xg")]
    vals = {0, 1, 7, 8, 9, 10, 15, 16, 255, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1} | {r.randrange(2**r.randrange(1, 65)) for _ in range(150 if quick else 3000)}
    for v in sorted(vals):
        for t in (b"%d" % v, b"0x%x" % v, b"0X%X" % v, b"0%o" % v): reqs += [req("getenv", 1, t), req("getenv", 1, t + r.choice([b" ", b"x", b"k", b".", b"-", b"\xff", b"L", b"\n"]))]
    ns = [0, 1, 499999999, 500000000, 999999998, 999999999]
    for a in ns:
        for b in ns:
            for _ in range(2 if quick else 30):
                s = lambda: r.choice([0, 1, 2, 1000, 10**9, r.randrange(10**9)])
                reqs.append(req("time", s(), a, s(), b, r.choice([0, 1, 2, 100, 10**6, 2**31 - 1, r.randrange(10**6)]), r.randrange(512), r.choice([0, 0, 1, 2, 7])))
    for _ in range(100 if quick else 2000): reqs.append(req("time", r.randrange(10**9), r.randrange(10**9), r.randrange(10**9), r.randrange(10**9), r.randrange(2**31), r.randrange(512), r.randrange(4)))
    for _ in range(60): reqs.append(req("swap", octets(r, 4)))
    c.trace(w, T, reqs, also=build("uhm"))


def p35(c, quick):
    w = build("uh")
    r, reqs = c.rng, []
    for a in range(10):
        for b in range(10):
            for x in (0, 1, 255, 5): reqs.append(req("atomic", bytes([0, r.choice([0, 1, 255, 5])]) + bytes([a, x, b, r.choice([0, 1, 255])]), r.choice([1, 1, 3, 129, 65536])))
    for _ in range(400 if quick else 6000):
        p = b"".join(bytes([r.choice(list(range(10))), r.choice([0, 1, 2, 255, 254, 127, 128])]) for _ in range(r.choice([3, 10, 40])))
        reqs += [req("atomic", p, r.choice([1, 1, 3, 127, 128, 129, 255, 257, 32768, 65536, 100003])), req("atomic64", r.choice([0, 1, -1, 2**20, -2**20, 3]), p, r.choice([1, 1, 3, 127, 129, 257, 32768, 65536, 100003]))]
    for _ in range(40): reqs.append(req("atptr", octets(r, r.choice([2, 3, 10, 100]))))
    for _ in range(10 if quick else 200): reqs.append(req("atthr", r.choice([1, 100, 20000, 30000])))
    reqs += [req("numrace", k) for k in range(0, 25)]
    c.trace(w, T, reqs, tmo=30)


def p37(c, quick):
    w = build("uh")
    c.models([("RateMachine.tla", "MC_RateMachine.cfg" if quick else "MC_RateMachine_deep.cfg")], workers=4)
    r, reqs, S = c.rng, [], 10**9
    rates = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 16, 24, 25, 30, 60, 99, 100, 101, 128, 250, 999, 1000, 1001, 1024, 31622, 31623, 44100, 65535, 65536, 99999, 10**5, 333333, 10**6, 1234567, 10**7, 2 * 10**8, 333333333, 5 * 10**8, 10**9]
    for rate in rates:
        p = S // rate
        for kind in (0, 1):
            g = 1 if kind == 0 else 1000
            for _ in range(4 if quick else 60):
                a = [kind, rate, r.choice([0, 1, 1000, 10**6]), r.choice([0, g, S - g, p - p % g if p < S else 0, r.randrange(S) // g * g, S - p if p < S else 0])]
                for _ in range(r.choice([1, 3, 8, 20, 40])):
                    k = r.randrange(9)
                    gap = [0, 1, g, p // 2, p - 1, p, p + 1, r.randrange(2 * p + 1), r.randrange(S)][k]
                    late = r.choice([0, 0, 0, 1, p // 3, p - 1, p, p + 1, 3 * p])
                    if gap >= 10 * S or late >= S: late %= S
                    a += [gap // S, gap % S, late, r.choice([0, 0, 0, 0, 1, 2, 5])]
                    if r.random() < .05: a[-4] += r.choice([1, 2, 10, 86400])
                reqs.append(req("paced", *a))
    for kind in (0, 1):                     # every call at once, over the end of a second and more
        for rate in (1, 2, 3, 7, 9, 13, 60, 97): reqs.append(req("paced", kind, rate, 5, 999999000, *([0, 0, 0, 0] * (min(3 * rate, 60)))))
        for rate in (1, 2, 3, 5, 7, 10, 30, 60, 99, 100, 101, 250, 1000, 10000) + (() if quick else (4, 6, 8, 9, 15, 25, 50, 75, 333, 4096, 50000)):
            for f in (1, 2, 5, 10, 100, 1000):
                f = rate if f < rate else f
                n = max(30 * f, 200) * r.choice([1, 1, 10])
                if n <= 60000 if quick else n <= 200000: reqs.append(req("busy", kind, rate, f, n, r.choice([0, 1000, S // rate // 10 // 1000 * 1000])))
                for slow in (2, 3, 100) if rate < 1000 else (): reqs.append(req("idle", kind, rate, f, 500, min(2 * 10**9, slow * S // rate // 1000 * 1000 + 1000) if rate > 1 else 2 * S))
    c.trace(w, T, reqs, also=build("uhm"))


CHECKS = {"P37": p37, "P29": p29, "P30": p30, "P31": p31, "P32": p32, "P33": p33, "P34": p34, "P35": p35}
