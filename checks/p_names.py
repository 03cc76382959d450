"""P01-P04: domain names."""
from vlib import req
from vbuild import build
import gen


def edge_names(r):
    out = [b"\0"]
    for n in (3, 4, 64, 65, 66, 127, 128, 129, 252, 253, 254, 255):
        out.append(gen.exact_name(r, n))
    out.append(b"\x01a" * 127 + b"\0")
    out.append(b"\x3f" + b"Z" * 63 + b"\0")
    for c in range(256):
        out.append(bytes([1, c, 0]))
        out.append(bytes([3, 97, c, 90, 0]))
    return out


def octet_names(lens, thin=None):
    """every octet first, last and in the middle of labels of some lengths, alone and next to other labels"""
    out = []
    for n in lens:
        for x in range(256):
            for k in sorted({0, n // 2, n - 1}):
                b = bytearray(b"m" * n)
                b[k] = x
                b = bytes([n]) + bytes(b)
                c = [b + b"\0", b"\1a" + b + b"\0", b + b"\1z\0", b + b + b"\0"]
                out += c if not thin else [c[(x + k) % 4]]
    return out


def overlong(r):
    """uncompressed label sequences around the 255 limit, ended, unended or cut"""
    out = []
    for tot in (252, 253, 254, 255, 256, 257, 258, 300, 319):
        b, left = b"", tot - 1
        while left > 0:
            n = min(left - 1, r.choice([63, 60, 20, 1]))
            if n < 1: n = 1
            b += bytes([n]) + gen.octets(r, n)
            left -= n + 1
        out += [b + b"\0", b, b[:-1], b + b"\x00\x01a\x00"]
    return out


def p01(c, quick):
    w = build("wh")
    c.model("NameMachine.tla", "MC_NameMachine.cfg" if quick else "MC_NameMachine_deep.cfg", workers=8, heap="8g")
    c.replay(w, c.gen("G_Names.tla", "u", KIND="unpack", N=4 if quick else 6))
    r, reqs = c.rng, []
    for b in overlong(r) + edge_names(r)[:20]:
        reqs.append(req("unpack", b, 0))
        # the same reached through pointers: prefix labels, then a jump into b
        for pre in (1, 2, 3, 63):
            for pl in (0, 1, 2, 3, 50, 61):
                buf = b + bytes([pre]) + gen.octets(r, pre) + bytes([192, pl % max(1, len(b))])
                if r.random() < .25 or not quick: reqs.append(req("unpack", buf, len(b)))
    # pointer chains, self and forward pointers, far pointers
    for n in (1, 2, 3, 10, 60, 126):
        b = b"\0" + b"".join(bytes([192 | (max(0, 2 * i - 1) >> 8), max(0, 2 * i - 1) & 255]) for i in range(n))
        for q in (len(b) - 2, len(b) - 1, 1): reqs.append(req("unpack", b, max(0, q)))
        chain = b"\0" + b"".join(b"\x01" + bytes([65 + i % 26]) + bytes([192 | ((1 + 4 * (i - 1) if i else 0) >> 8), (1 + 4 * (i - 1) if i else 0) & 255]) for i in range(n))
        reqs.append(req("unpack", chain, len(chain) - 4))
    # every near pointer target from one place
    for pos in range(0, 6):
        for t in range(0, 9):
            reqs.append(req("unpack", bytes([1, 97, 0, 1, 98, 0])[:pos] + bytes([192, t]) + b"\0\0", pos))
    for far in (16380, 16381, 16383):
        b = bytes(far) + b"\x02xy\0" + bytes(20000 - far - 4) + bytes([192 | far >> 8, far & 255])
        reqs.append(req("unpack", b, len(b) - 2))
    for b in octet_names((1, 2, 63), quick): reqs.append(req("unpack", b"\0\0" + b + bytes([1, 98, 192, 2]), len(b) + 2))
    for n in (65530, 65534, 65536, 65537, 65540, 131072 + 3):      # buffers and places past 2^16
        b = b"\3abc\0" + bytes(n - 5 - 9) + b"\4wxyz\xc0\0" + b"\1q"
        for at in (len(b) - 9, 0, len(b) - 2): reqs.append(req("unpack", b, at))
    for _ in range(1800 if quick else 30000):
        b, st = gen.compressed(r, big=r.random() < .01)
        for s in set(r.choice(st + [r.randrange(len(b) + 1)]) for _ in range(2)):
            reqs.append(req("unpack", b, s))
            if r.random() < .1: reqs.append(req("unpackm", gen.octets(r, r.choice([1, 2, 12])) + b, r.choice([0, 1, 2, 12, len(b) // 2]), s))
            if r.random() < .05: reqs.append(req("unpackm", b"\1a\0" * 3 + b, r.randrange(10), r.choice([0, 3, 6])))
    c.trace(w, "T_Names.tla", reqs, also=build("whm"))


def p02(c, quick):
    w = build("wh")
    c.model("NameMachine.tla", "MC_NameMachine.cfg" if quick else "MC_NameMachine_deep.cfg", workers=8, heap="8g")
    c.replay(w, c.gen("G_Names.tla", "s", KIND="scan", N=4 if quick else 5))
    r, reqs = c.rng, []

    def all_of(b, s):
        reqs.append(req("copyu", b, s))
        if r.random() < .1: reqs.append(req("copyum", b"\1a\0" * 3 + b, r.randrange(10), r.choice([0, 3, 6, 9, 9 + s])))
        reqs.append(req("skip", b, s))
        reqs.append(req("lenu", b, s))
        if s < len(b) <= 255 + s: reqs.append(req("nlabels", b[s:]))
    for b in overlong(r) + edge_names(r)[:40]: all_of(b, 0)
    for k in (63, 64, 65, 100, 128, 191, 192, 255):
        for n in (k - 1, k, k + 1, k + 2):
            all_of(bytes([k]) + bytes([97]) * max(0, n), 0)
            all_of(b"\x01a" + bytes([k]) + bytes([97]) * max(0, n), 0)
    for b in octet_names((1, 63), quick): all_of(b, 0)
    for n in (65535, 65536, 65537, 65540, 131072):       # extents past 2^16
        all_of(b"\3abc\4wxyz\0" + bytes(n - 10), 0)
        all_of(bytes(n - 10) + b"\3abc\4wxyz\0", n - 10)
    for _ in range(700 if quick else 12000):
        b, st = gen.compressed(r)
        all_of(b, r.choice(st + [r.randrange(len(b) + 1)]))
    c.trace(w, "T_Names.tla", reqs, also=build("whm"))


def texts(r, n):
    out = []
    esc = [b"\\.", b"\\\\", b"\\000", b"\\032", b"\\255", b"\\256", b"\\9", b"\\99", b"\\1a0", b"\\", b"\\a", b"\\Z", b"\\065",
           b"a", b"B", b"-", b".", b"..", b"\x80", b" ", b"\"", b"z9"]
    for _ in range(n):
        out.append(b"".join(r.choice(esc) for _ in range(r.randrange(1, 9))))
    return out


def p03(c, quick):
    w = build("wh")
    c.model("NameLaws.tla", "MC_NameLaws.cfg" if quick else "MC_NameLaws_deep.cfg", workers=8, heap="8g")
    c.replay(w, c.gen("G_Names.tla", "t", KIND="text", N=4 if quick else 5))
    r, reqs = c.rng, []
    names = edge_names(r) + [gen.name(r) for _ in range(500 if quick else 6000)]
    for n in names:
        reqs.append(req("nametrip", n))
        if r.random() < .3: reqs.append(req("d2s", n))
    for b in octet_names((1, 2, 31, 32, 62, 63), quick):
        reqs += [req("nametrip", b), req("d2s", b)]
        if r.random() < .1: reqs.append(req("d2s", (b"\x3f" + b"q" * 63) * 3 + b))
    for n in (1, 2, 61, 62, 63):                 # the same spelled in escapes, in plain, and one too many
        for x in range(1, 256):
            for e in (b"\\%03d" % x, b"\\" + bytes([x]), bytes([x])):
                p, q = r.choice([(b"m" * (n - 1), b""), (b"", b"m" * (n - 1)), (b"m" * (n // 2), b"m" * (n - 1 - n // 2)), (b"m" * n, b"")])
                reqs.append(req("s2n", r.choice([b"", b"a.", b"\\000."]) + p + e + q + r.choice([b"", b".", b".b."]), r.randrange(2)))
    for n in (250, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 32768, 65535, 65536, 65537, 65538, 65792):      # names with much behind them
        for x in (b"\0", b"\1a\0", b"\3abc\1D\0", (b"\x3f" + b"w" * 63) * 3 + b"\x3d" + b"v" * 61 + b"\0"):
            for y in (bytes(1), b"\1", b"z"):
                for k in {n - len(x), n, n + 1, n + 4}:
                    if k > 0 and (n < 1000 or y == b"\1"): reqs.append(req("d2s", x + y * k))
    for b in overlong(r): reqs.append(req("d2s", b[:r.randrange(1, min(len(b), 255) + 1)]))
    txt = texts(r, 1500 if quick else 20000)
    for k in (1, 62, 63, 64, 65, 100, 192, 193, 254, 255, 256, 320):
        for f in (b"%s", b"%s.", b"a.%s", b"a.%s.", b"%s.b", b"\\.%s", b"\\000%s.", b"%s\\065", b"%s\\A."):
            txt.append(f.replace(b"%s", b"x" * k))
            txt.append(f.replace(b"%s", b"\\200" * k))
    for tot in (250, 251, 252, 253, 254, 255, 256, 257):
        for ll in (63, 1, 2, 61):
            s, left = b"", tot
            while left > 0:
                n = min(ll, left - 1) if left > 1 else 1
                s += b"y" * n + b"."
                left -= n + 1
            txt += [s, s[:-1], s + b"a", s[:-1] + b"\\", s[:-2] + b"\\065", s + b"\\."]
    for t in txt:
        if 0 in t: continue
        reqs.append(req("s2n", t, 0))
        reqs.append(req("s2n", t, 1))
    c.trace(w, "T_Names.tla", reqs, also=build("whm"))


def p04(c, quick):
    w = build("wh")
    c.model("NameLaws.tla", "MC_NameLaws.cfg" if quick else "MC_NameLaws_deep.cfg", workers=8, heap="8g")
    r, reqs = c.rng, []
    names = edge_names(r)[:80] + [gen.name(r) for _ in range(500 if quick else 8000)]
    for n in names:
        reqs += [req("rev", n), req("chop", n), req("nlabels", n), req("down", n)]
    pool = [gen.labels(r) for _ in range(60)]
    for _ in range(900 if quick else 12000):
        a = r.choice(pool) if r.random() < .5 else gen.labels(r)
        k = r.randrange(8)
        if k == 0: b = a
        elif k == 1: b = a[1:]
        elif k == 2: b = a[r.randrange(len(a) + 1):]
        elif k == 3: b = [x.swapcase() for x in a[1:]]
        elif k == 4 and a:                      # octet suffix that is no label suffix
            l0 = a[0]; b = ([l0[1:]] if len(l0) > 1 else []) + a[1:]
        elif k == 5:
            # a label whose tail looks like the other name's wire form
            t = gen.labels(r, 40, True); b = t
            wt = gen.wire(t)[:-1]
            a = [b"q" + wt] if 0 < len(wt) < 62 else a
        elif k == 6: b = a + [b"z"] if sum(len(x) + 1 for x in a) < 250 else a
        else: b = gen.labels(r)
        reqs.append(req("sub", gen.wire(a), gen.wire(b)))
        reqs.append(req("sub", gen.wire(b), gen.wire(a)))
    for _ in range(700 if quick else 12000):      # suffixes of every depth, exact or off by one small thing
        a = gen.salted(r) if r.random() < .3 else gen.labels(r, small=r.random() < .5)
        if r.random() < .3: a = [gen.octets(r, r.choice([1, 1, 1, 2])) for _ in range(r.choice([9, 17, 33, 60, 84]))]
        j = r.randrange(len(a) + 1)
        b = a[j:]
        if r.random() < .75: b = gen.tweak(r, b)
        elif a and r.random() < .3: b, a = a[j:], a[:j] + gen.tweak(r, a[j:])
        if sum(len(x) + 1 for x in a) < 255 > sum(len(x) + 1 for x in b): reqs.append(req("sub", gen.wire(a), gen.wire(b)))
    for n in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127):
        a = [bytes([97 + i % 26]) for i in range(n)]
        for j in sorted({0, 1, n // 2, n - 1, n}):
            reqs.append(req("sub", gen.wire(a), gen.wire(a[j:])))
            for i in sorted({j, (j + n) // 2, n - 2, n - 1}):
                if j <= i < n: reqs.append(req("sub", gen.wire(a), gen.wire(a[j:i] + [b"!"] + a[i + 1:])))
    for _ in range(300 if quick else 4000):
        b = gen.mutate(r, gen.name(r, True))
        if not b: continue
        reqs += [req("rev", b), req("chop", b), req("sub", b, gen.name(r, True)), req("sub", gen.name(r, True), b)]
    for b in octet_names((1, 2, 63), quick):
        reqs += [req("rev", b), req("chop", b), req("nlabels", b), req("down", b)]
        i = r.randrange(1, b[0] + 1)
        for b2 in (b, b[:i] + bytes([b[i] ^ 32]) + b[i + 1:], b[:i] + bytes([b[i] ^ 128]) + b[i + 1:]):
            reqs += [req("sub", b"\2zy" + b, b2), req("sub", b, b2), req("sub", b2, b[b[0] + 1:])]
    for c0 in range(0, 256, 1 if not quick else 3):
        reqs.append(req("down", bytes([c0, c0 ^ 32, 255 - c0])))
    c.trace(w, "T_Names.tla", reqs, also=build("whm"))


CHECKS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04}
