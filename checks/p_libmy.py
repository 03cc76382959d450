"""P18, P19, P22-P28: addresses, codecs, containers, checksums, file sets, address ranges, string replacement."""
import base64
from vlib import req
from vbuild import build
from gen import *

T = "T_Libmy.tla"


def addr4s(r, n):
    out = [bytes([x, y, 255 - x, 1]) for x in range(256) for y in (x ^ 0x55,)]
    for k in range(4):
        for x in (0, 1, 9, 10, 11, 19, 20, 99, 100, 101, 109, 110, 199, 200, 209, 210, 249, 250, 255):
            a = bytearray(octets(r, 4)); a[k] = x; out.append(bytes(a))
    return out + [octets(r, 4) for _ in range(n)]


def addr6s(r, n):
    out = []
    ws = [1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0xa0b, 0xabcd]
    for z in range(256):                         # every set of zero groups
        out.append(b"".join(u16(0 if z >> k & 1 else r.choice(ws)) for k in range(8)))
    for pre in (bytes(12), bytes(10) + b"\xff\xff", bytes(10) + b"\xff\xfe", bytes(10) + b"\0\1", bytes(8) + b"\xff\xff\0\0"):
        for t in (bytes(4), b"\0\0\0\1", b"\0\1\0\0", b"\0\0\1\0", b"\1\2\3\4", b"\xff" * 4, b"\0\xff\0\0", b"\1\0\0\0"): out.append(pre + t)
    out += [b"\xff" * 16, b"\xab\xcd" * 8]
    for _ in range(n): out.append(b"".join(u16(r.choice([0, 0, 0, r.choice(ws), r.randrange(65536)])) for _ in range(8)))
    return out


def p18(c, quick):
    w = build("mh")
    c.models([("AddressLaws.tla", "MC_AddressLaws.cfg" if quick else "MC_AddressLaws_deep.cfg")], workers=8)
    r, reqs = c.rng, []
    for a in addr4s(r, 200 if quick else 4000): reqs.append(req("ntop", 4, a, 16))
    for a in addr6s(r, 500 if quick else 9000): reqs.append(req("ntop", 6, a, 46))
    for a in addr4s(r, 0)[::37] + [b"\xff" * 4, bytes(4)]:
        for n in range(0, 20): reqs.append(req("ntop", 4, a, n))
    for a in addr6s(r, 0)[::53] + [b"\xff" * 16, bytes(16), bytes(10) + b"\xff" * 6]:
        for n in list(range(0, 50, 1 if not quick else 3)) + [45, 46, 47, 64]: reqs.append(req("ntop", 6, a, n))
    for wd in list(range(0, 300, 7 if quick else 1)) + list(range(250, 65536, 1237 if quick else 41)):
        a = [r.randrange(1, 65536) for _ in range(8)]; a[r.randrange(8)] = wd
        reqs.append(req("ntop", 6, b"".join(map(u16, a)), 46))
    for af in (0, 1, 3, 5, 7, 255, -1, 99999): reqs.append(req("ntop", af, bytes(16), 46))
    vecs = c.gen("G_Libmy.tla", "addr", KIND="addr", N=2 if quick else 3)
    c.replay(w, vecs, label="address vectors")
    c.trace(w, T, reqs, also=build("mhm"))


def p19(c, quick):
    w = build("mh")
    c.models([("CodecLaws.tla", "MC_CodecLaws.cfg" if quick else "MC_CodecLaws_deep.cfg"), ("Base64Machine.tla", "MC_Base64Machine.cfg" if quick else "MC_Base64Machine_deep.cfg")], workers=4)
    r, reqs = c.rng, []
    def cuts(n):
        k = r.randrange(5)
        if k == 0: return []
        if k == 1: return [1] * min(n, 40)
        return [r.choice([0, 1, 1, 2, 3, 4, 5, 7]) for _ in range(r.randrange(1, 12))]
    for _ in range(500 if quick else 9000):
        n = r.choice(list(range(0, 14)) + [30, 31, 32, 33, 64, 255, 256, 257])
        d = octets(r, n, r.choice([0, 0, 4]))
        reqs.append(req("b64e", d, *cuts(n)))
        t = base64.b64encode(d)
        reqs.append(req("b64d", t, *cuts(len(t))))
        reqs.append(req("b32e", d, 2 * n + 1 if r.random() < .5 else r.randrange(0, 2 * n + 3)))
        t = base64.b32hexencode(d).rstrip(b"=")
        if r.random() < .4: t = t.lower()
        reqs.append(req("b32d", t, r.choice([len(t), len(t) + 1, n, n + 1, max(0, n - 1), 0])))
        if r.random() < .3:
            t = mutate(r, t); reqs.append(req("b32d", t, len(t) + 1))
            reqs.append(req("b64d", mutate(r, base64.b64encode(d)), *cuts(n)))
        reqs.append(req("hexe", d[:40], r.randrange(2), r.choice([1, 2, 3, 2 * n + 1, 2 * n + 2, 2 * n, 2 * n + 9, 4]) or 1))
        t = octets(r, r.choice([0, 1, 2, 4, 5, 8]), 3).hex().encode()
        t = t.upper() if r.random() < .5 else t
        if r.random() < .4: t = mutate(r, t)
        if r.random() < .1: t = t[:-1]
        reqs.append(req("hexd", t))
    for x in range(256):
        reqs += [req("b64v", x), req("b64d", bytes([65, 65, 65, x])), req("b64d", bytes([x, 81, 81, 61])), req("b32d", bytes([x, 48]), 4), req("b32d", bytes([86, x, 48, 48]), 9),
                 req("b64e", bytes([x])), req("b64e", bytes([x, 255 - x]), 1), req("b64e", bytes([1, x ^ 255, x]), 1, 1), req("b32e", bytes([x]), 9), req("hexd", bytes([x, 49])), req("hexd", bytes([102, x])),
                 req("hexe", bytes([x, x ^ 15]), x & 1, 5)]
    for x in list(range(0, 65536, 999 if quick else 37)) + [65535]: reqs.append(req("hex16", x, r.randrange(2)))
    vals = {0, 1, 9, 10, 2**64 - 1, 2**63, 2**32, 2**32 - 1} | {10**k for k in range(20)} | {10**k - 1 for k in range(20)} | {r.randrange(2**r.randrange(1, 65)) for _ in range(100 if quick else 3000)}
    for v in sorted(vals): reqs.append(req("dec", v.to_bytes(8, "big"), r.choice([21, 22, 24, 32, len(str(v)) + 1, len(str(v)), 2, 3, max(2, len(str(v)) - 1)])))
    reqs = [q for q in reqs if not (q.startswith("dec") and int(q.split()[-1]) < 2)]
    vecs = c.gen("G_Libmy.tla", "codec", KIND="codec", N=3 if quick else 4)
    c.replay(w, vecs, label="codec vectors")
    c.trace(w, T, reqs, also=build("mhm"))


def p22(c, quick):
    w = build("mh")
    c.models([("HeapMachine.tla", "MC_HeapMachine.cfg" if quick else "MC_HeapMachine_deep.cfg")], workers=8)
    r, reqs = c.rng, []
    for _ in range(900 if quick else 15000):
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 40])
        keys = r.choice([[0, 1], [0, 1, 2, 3], list(range(256)), [7]])
        bias = r.choice([[0, 0, 0, 1], [0, 1, 2, 3, 4], [0, 0, 1, 1, 2], [0, 0, 0, 0, 0, 2, 1]])
        p = b""
        for i in range(n):
            code = r.choice(bias)
            p += bytes([code, r.choice([0, 1, 2, 3, 9, 255]) if code == 4 else r.choice(keys)])
        reqs.append(req("heap", p))
    for n in (64, 300, 1000):
        reqs.append(req("heap", b"".join(bytes([0, r.randrange(256)]) for _ in range(n)) + bytes([1, 0]) * (n // 2)))
    vecs = c.gen("G_Libmy.tla", "heap", KIND="heap", N=5 if quick else 6)
    c.trace(w, T, [req(v["op"], *[bytes(x) for x in v["a"]]) for v in vecs], label="every short history")
    c.trace(w, T, reqs, also=build("mhm"))


def p23(c, quick):
    w = build("mh")
    c.models([("VarintLaws.tla", "MC_VarintLaws.cfg")], workers=2)
    r, reqs = c.rng, []
    vals = {0, 1} | {v for k in range(1, 65) for v in (2**k - 1, 2**k & (2**64 - 1), (2**k + 1) & (2**64 - 1))}
    vals |= {127 << k & (2**64 - 1) for k in range(64)} | {r.randrange(2**r.randrange(1, 65)) for _ in range(700 if quick else 20000)}
    vals |= {sum((r.choice([0, 1, 127, 64]) << 7 * k) for k in range(r.randrange(1, 10))) & (2**64 - 1) for _ in range(300 if quick else 5000)}
    for v in sorted(vals): reqs.append(req("varint", v.to_bytes(8, "big")))
    for _ in range(600 if quick else 10000):
        n = r.randrange(0, 16)
        b = bytes(r.choice([0, 1, 127, 128, 129, 255, 200, 200, 128]) for _ in range(n))
        reqs.append(req("packed", b, r.randrange(0, n + 1)))
    c.trace(w, T, reqs, also=build("mhm"))


def p24(c, quick):
    w = build("mh")
    c.models([("CrcLaws.tla", "MC_CrcLaws.cfg")], workers=2)
    r, reqs = c.rng, []
    for n in range(0, 41):
        for al in range(0, 8): reqs.append(req("crc", octets(r, n), al))
    for n in range(0, 18):
        for k in range(n): x = bytearray(n); x[k] = 1 << r.randrange(8); reqs.append(req("crc", bytes(x), r.randrange(16)))
    for n in ([63, 64, 65, 255, 256, 257, 1024, 4099] if quick else list(range(41, 400)) + [1024, 4096, 4099, 65536]):
        for al in (0, 1, 5, 7): reqs.append(req("crc", octets(r, n), al))
    for n in range(41, 330 if quick else 700): reqs.append(req("crc", octets(r, n), r.randrange(16)))
    for x in range(256): reqs += [req("crc", bytes([x]), 0), req("crc", bytes([x] * 8), 0), req("crc", bytes([0, 0, 0, 0, x, 0, 0, 0]), 0), req("crc", bytes([1, 2, 3, x, 5, 6, x, 8, x]), 0)]
    for k in range(8):                           # every table entry of every slice
        for x in range(256): b = bytearray(8); b[k] = x; reqs.append(req("crc", bytes(b), 0))
    for m, k in ((256, 256), (256, 2048), (256, 2049), (251, 1044), (64, 8192), (1000, 525), (256, 16384)) + (() if quick else ((256, 1 << 17), (255, 131587), (4096, 4096))):
        for al in (0, r.randrange(1, 8)): reqs.append(req("crcrep", octets(r, m), k, octets(r, r.randrange(12)), al))      # lengths past 2^16, and past 2^16 words
    reqs += [req("crcfirst", b"123456789"), req("crc", b"123456789", 0), req("crc", bytes(32), 0), req("crc", b"\xff" * 32, 0), req("crc", bytes(range(32)), 0)]
    c.trace(w, T, reqs, also=build("mhm"))


def p25(c, quick):
    w = build("mh")
    c.models([("VectorMachine.tla", "MC_VectorMachine.cfg" if quick else "MC_VectorMachine_deep.cfg")], workers=8)
    r, reqs = c.rng, []
    n16 = lambda n: u16(min(n, 65535))
    for _ in range(900 if quick else 15000):
        ops = []
        for _ in range(r.choice([1, 3, 6, 12, 25])):
            k = r.choice("aaAAApprvcszeEdStCfF")
            pl = octets(r, r.choice([0, 1, 2, 3, 7, 20, 64]), r.choice([0, 3, 4]))
            if r.random() < .15: pl += b"\0"
            if r.random() < .02: pl += octets(r, 700)
            if k == "a" or k == "s": pl = bytes([r.choice([0, 10, 32, 65, 255])])
            if k in "rc": pl = n16(r.choice([0, 1, 2, 3, 5, 60, 64, 65, 130, 1000]))
            if k == "F": pl = n16(r.randrange(65536)) + pl
            if k in "SfFE": pl = pl[:2] + bytes(x for x in pl[2:] if x) if k == "F" else bytes(x for x in pl if x)
            ops.append(k.encode() + pl)
        reqs.append(req("ubuf", r.choice([0, 1, 2, 3, 63, 64, 65]), *ops))
    for _ in range(500 if quick else 8000):
        ops = []
        for _ in range(r.choice([1, 3, 6, 12])):
            k = r.choice("aaAArvcczedig")
            pl = octets(r, 5 * r.choice([0, 1, 2, 3, 7, 9]))
            if k == "a": pl = octets(r, 5)
            if k in "rcig": pl = n16(r.choice([0, 1, 2, 3, 4, 5, 8, 20]))
            ops.append(k.encode() + pl)
        reqs.append(req("vec5", r.choice([0, 1, 2, 3, 8]), *ops))
    vecs = c.gen("G_Libmy.tla", "vec", KIND="vec", N=4 if quick else 5)
    c.replay(w, vecs, label="every short history")
    c.trace(w, T, reqs, also=build("mhm"))


def p26(c, quick):
    w = build("mh")
    c.models([("FilesetMachine.tla", "MC_FilesetMachine.cfg" if quick else "MC_FilesetMachine_deep.cfg")], workers=8)
    r, reqs = c.rng, []
    names = [b"a", b"b", b"c", b"ab", b"B", b"a.x", b"zz", b"n" * 60]
    def setfile():
        ls = [r.choice(names) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))]
        if r.random() < .8: ls = list(dict.fromkeys(ls))
        return b"\n".join(ls) + (b"\n" if r.random() < .7 and ls else b"")
    for _ in range(700 if quick else 10000):
        ops = [b"c%d" % r.randrange(4)] if r.random() < .1 else []
        ops += [b"+" + x for x in names if r.random() < .6]
        for _ in range(r.choice([1, 3, 6, 12])):
            ops.append(r.choice([lambda: b"w" + setfile(), lambda: b"n" + setfile(), lambda: b"W" + setfile(), lambda: b"N" + setfile(), lambda: b"x", lambda: b"+" + r.choice(names), lambda: b"-" + r.choice(names), lambda: b"R", lambda: b"R", lambda: b"R", lambda: b"F"])())
            if ops[-1][:1] in b"wnWN" and r.random() < .6: ops.append(b"R")
        reqs.append(req("fileset", *ops))
    for n in (5, 17, 40, 130, 300) if quick else (5, 17, 40, 130, 257, 300, 600):                   # many members, listed in any order, repeated far apart, changing a little each time
        for _ in range(2 if quick else 20 if n < 200 else 4):
            many = [b"m%d" % (i * 7 % n) for i in range(n)]
            ops = [b"+" + x for x in many]
            for _ in range(r.choice([2, 4])):
                ls = r.choice([many, many[::-1], sorted(many), r.sample(many, n), r.sample(many, n - 1), many[1:], many + many[:3], many + many])
                ops += [r.choice([b"w", b"n", b"W", b"N"]) + b"\n".join(ls), b"R"]
                if r.random() < .5: ops += [b"-" + r.choice(many), r.choice([b"w", b"W"]) + b"\n".join(ls), b"R"]
            reqs.append(req("fileset", *ops))
    vecs = c.gen("G_Libmy.tla", "fset", KIND="fileset", N=3 if quick else 4)
    c.trace(w, T, [req(v["op"], *[bytes(x) for x in v["a"]]) for v in vecs], label="every short history")
    c.trace(w, T, reqs, also=build("mhm"))


def p27(c, quick):
    w = build("mh")
    c.models([("AddressLaws.tla", "MC_RangeLaws.cfg")], workers=4)
    r, reqs = c.rng, []
    for _ in range(3 if quick else 60):
        for p in range(33): reqs.append(req("iparith", r.choice([octets(r, 4), bytes(4), b"\xff" * 4, b"\x80\0\0\0"]), p))
        for p in range(129): reqs.append(req("iparith", r.choice([octets(r, 16), bytes(16), b"\xff" * 16, octets(r, 8) + b"\xff" * 8]), p))
    for n in (4, 16):
        for k in range(n + 1): reqs.append(req("iparith", octets(r, n - k) + b"\xff" * k, 8 * (n - k)))
    c.trace(w, T, reqs, also=build("mhm"))


def p28(c, quick):
    w = build("mh")
    c.models([("ReplaceLaws.tla", "MC_ReplaceLaws.cfg")], workers=4)
    r, reqs = c.rng, []
    for _ in range(900 if quick else 12000):
        al = r.choice([b"a", b"ab", b"abc", b"ab\xff "])
        tx = lambda ns: bytes(r.choice(al) for _ in range(r.choice(ns)))
        reqs.append(req("replace", tx([0, 1, 2, 3, 5, 8, 20, 70]), tx([1, 1, 2, 3]), r.choice([tx([0, 1, 2, 5, 40]), b"", b"xyz"])))
    for n in (126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 511, 513, 1000, 4095, 4097, 32767, 32769, 65535, 65536, 65537):
        for _ in range(2):      # long stretches without an occurrence, long patterns, long replacements
            x = lambda m: bytes(r.choice(b"cd") for _ in range(m))
            if n in (32767, 32769, 65535) and quick and r.random() < .6: continue
            reqs += [req("replace", x(n) + b"ab" + x(3) + b"ab", b"ab", b"xyz"), req("replace", b"ab" + x(n) + b"aba", b"ab", b""), req("replace", b"ab" * 3 + x(2), b"ab", x(n))]
            if n < 5000: reqs.append(req("replace", (x(2) + b"a" * n + x(2)) * 2, b"a" * n, b"Q"))
    vecs = c.gen("G_Libmy.tla", "repl", KIND="replace", N=4 if quick else 6)
    c.replay(w, vecs, label="replacement vectors")
    c.trace(w, T, reqs, also=build("mhm"))


CHECKS = {"P18": p18, "P19": p19, "P22": p22, "P23": p23, "P24": p24, "P25": p25, "P26": p26, "P27": p27, "P28": p28}
