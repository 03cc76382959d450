"""P09, P10: record data text."""
from vlib import *
from vbuild import build
from gen_text import *
from p_msg import laws, cases, wide

T = "T_Text.tla"


def p09(c, quick):
    w = build("wh")
    r, reqs = c.rng, []
    laws(c, quick, "ReadLaws", "8g")
    for t, cl, x in cases(c, "G_Rdata", "text", not quick): reqs.append(req("s2rd", t, cl, bytes(x)))
    for t in TYPES:
        k = 26 + 10 * len(LAYOUT[t]) + (90 if "svcparams" in LAYOUT[t] else 30 if t in (38, 50, 46, 16, 10) else 0)
        for _ in range(k if quick else 14 * k):
            reqs.append(req("s2rd", t, 1 if r.random() < .97 else 3, rdtext(r, t)))
        reqs += [req("s2rd", t, 1, x) for x in (b"", b" ", b"\t\n", b"\\# 0", b"\\# 1 00", b"junk", b".", b"0")]
    for t in UNKNOWN:
        for _ in range(6 if quick else 80): reqs.append(req("s2rd", t, r.choice([1, 1, 3, 255]), generic_text(r)))
    for x in (b"", b"\\#", b"\\# ", b"\\#  \t", b"\\# 0", b"\\# 0 ", b"\\# 00", b"\\# 65536", b"\\# 65537 00", b"\\# 1 0", b"\\# 1 0g", b"\\# 1 g", b"\\# 1  a ", b"\\# 2 a b ", b"\\# 1 +a", b"\\# 1 0x", b"\\#0", b"\\#\t1\tff", b"#", b"\\", b"\\# x", b"\\# 1x 00", b"\\# -1 00", b"\\# +1 00", b"\\# 1 -1", b"\\# 4294967297 00", b"\\# 18446744073709551617 00"):
        for t in (65280, 0, 300): reqs.append(req("s2rd", t, 1, x))
    for x in range(1, 256):          # every octet: in strings, escapes, names, numbers and hex
        b = bytes([x])
        reqs += [req("s2rd", 19, 1, b), req("s2rd", 19, 1, b'"' + b + b'"'), req("s2rd", 16, 1, b"a" + b + b"b"), req("s2rd", 19, 1, b"\\" + b), req("s2rd", 19, 1, b"\\%03d" % x),
                 req("s2rd", 19, 1, b"\\" + b + b"00"), req("s2rd", 15, 1, b"1" + b + b" a."), req("s2rd", 10, 1, b"0" + b), req("s2rd", 10, 1, b + b"0"), req("s2rd", 10, 1, b"12" + b + b"a"),
                 req("s2rd", 51, 1, b"1 2 3 a" + b), req("s2rd", 51, 1, b"1 2 3 " + b + b"a"), req("s2rd", 50, 1, b"1 2 3 - " + b), req("s2rd", 50, 1, b"1 2 3 - 0" + b), req("s2rd", 65280, 1, b"\\# 1 a" + b), req("s2rd", 65280, 1, b"\\# 1 " + b + b"a"),
                 req("s2rd", 256, 1, b'1 2 "' + b + b'"'), req("s2rd", 64, 1, b"1 . port=" + b), req("s2rd", 64, 1, b"1 . alpn=\"a\\\\" + b + b"\""), req("s2rd", 108, 1, b"00-11-22-33-44-5" + b),
                 req("s2rd", 64, 1, b"1 . key9" + b + b"=a"), req("s2rd", 64, 1, b"1 . port=1" + b + b"key7=a"), req("s2rd", 62, 1, b"1 2 A" + b + b"NS"), req("s2rd", 61, 1, b"AAA" + b)]
    for t, p, q in ((19, b"", b""), (19, b'"', b'"'), (16, b"k ", b""), (13, b'"', b'" "p"'), (257, b'0 t "', b'"'), (257, b"0 ", b' "v"'), (256, b'1 2 "', b'"'), (64, b'1 . alpn="', b'"'), (64, b'1 . alpn="h2,', b',h3"'), (65, b'1 . alpn=', b''),
                    (64, b'1 . key9="', b'"'), (64, b"1 . key9=", b" key10=z"), (2, b"", b"."), (15, b"1 m.", b""), (35, b'1 2 "" "" "', b'" .'), (50, b"1 0 1 ", b" 00 A"), (50, b"1 0 1 - 0", b" A"), (65280, b"\\# 2 ", b""), (43, b"1 5 1 ", b"")):
        for x in range(1, 256):                  # every octet in every surrounding
            for v in shapes(x): reqs.append(req("s2rd", t, 1, p + v + q))
    for k, v in ((b"mandatory", b"=port"), (b"alpn", b"=h2"), (b"no-default-alpn", b""), (b"port", b"=1"), (b"ech", b"=AAAA"), (b"ipv4hint", b"=1.2.3.4"), (b"ipv6hint", b"=::1"), (b"key7", b"=v"), (b"key5", b"=v"), (b"key65534", b"=v")):
        for i in range(len(k)):                  # names one character away from a name
            for m in {k[:i] + bytes([y]) + k[i + 1:] for y in {k[i] ^ 1, k[i] ^ 32, r.choice(b"abkxyz019-")}} | {k[:i] + k[i + 1:], k[:i] + k[i:i + 1] + k[i:], k + k[i:i + 1]}:
                if 32 < min(m, default=0) and max(m) < 127: reqs += [req("s2rd", 64, 1, b"1 . " + m + v), req("s2rd", 65, 1, b"1 . mandatory=" + m + b" " + k + v)]
    for n in (0, 1, 254, 255, 256, 257, 300, 511, 512):        # length limits of every counted thing
        reqs += [req("s2rd", 16, 1, b"x" * n), req("s2rd", 16, 1, b'"' + b"\\001" * n + b'"'), req("s2rd", 64, 1, b'1 . alpn="' + b"x" * n + b'"'), req("s2rd", 64, 1, b'1 . alpn="b,' + b"x" * n + b',c"'),
                 req("s2rd", 51, 1, b"1 2 3 " + (b"ab" * n or b"-")), req("s2rd", 64, 1, b'1 . ech=' + base64.b64encode(b"q" * n)), req("s2rd", 64, 1, b'1 . key7="' + b"x" * n + b'"'),
                 req("s2rd", 50, 1, b"1 2 3 - " + (b32text(b"\7" * n) or b"0") + b" A"), req("s2rd", 64, 1, b"1 . ipv4hint=" + b",".join([b"1.2.3.4"] * n)),
                 req("s2rd", 65, 1, b"1 . mandatory=" + b",".join(b"key%d" % (10 + i) for i in range(n)))]
    for unit in (b"\\\\\\\\", b"\\\\,", b"\\,", b'\\"', b"\\000", b"\\092\\044", b"\\044", b"\\255", b"a,", b"a\\\\,b"):      # the same limits met through every kind of escape
        for n in (1, 2, 63, 64, 126, 127, 128, 129, 254, 255, 256):
            q = unit * n
            reqs += [req("s2rd", 64, 1, b'1 . alpn="' + q + b'"'), req("s2rd", 65, 1, b'1 . alpn="h2,' + q + b',h3" port=1')]
            if n > 250 or not quick: reqs += [req("s2rd", 16, 1, q), req("s2rd", 16, 1, b'"' + q + b'" "' + q + b'z"'), req("s2rd", 64, 1, b'1 . key9="' + q + b'"'), req("s2rd", 257, 1, b'0 issue "' + q + b'"')]
    for d in (b"k" * 65531, b"k" * 65535, b"k" * 65536, b"k" * 65539):
        reqs += [req("s2rd", 10, 1, d.hex().encode()), req("s2rd", 65280, 1, b"\\# %d %s" % (len(d), d.hex().encode())), req("s2rd", 65280, 1, b"\\# %d %s" % (len(d) & 65535, d.hex().encode())),
                 req("s2rd", 61, 1, base64.b64encode(d))]
    for n in (65524, 65528, 65529, 65531, 65535, 65536, 65537, 65540): reqs.append(req("s2rd", 64, 1, b'1 . key7="' + b"x" * n + b'"'))
    for n in (16381, 16383, 16384, 16385, 32767, 32768): reqs += [req("s2rd", 64, 1, b"1 . ipv4hint=" + b",".join([b"1.2.3.4"] * n))] if n < 16386 else [req("s2rd", 64, 1, b"1 . mandatory=" + b",".join([b"port"] * n))]
    for v in range(0, 132): reqs += [req("s2rd", 38, 1, b"%d ::%x a." % (v, 1)), req("s2rd", 38, 1, b"%d ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff a." % v), req("s2rd", 38, 1, b"%d a." % v)]
    for k in (8, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 72, 128):          # a number that a narrower one would take for another, wherever a number is read
        for x in (0, 1, 3, 4, 7, 65):
            n = b"%d" % ((1 << k) * r.choice([1, 1, 1, 3, 255]) + x)
            reqs += [req("s2rd", 64, 1, b"1 . key%s=ab" % n), req("s2rd", 65, 1, b"1 . mandatory=port,key%s port=1" % n), req("s2rd", 65, 1, b"1 . port=" + n), req("s2rd", 62, 1, b"1 2 A TYPE" + n), req("s2rd", 62, 1, b"1 %s A" % n),
                     req("s2rd", 62, 1, n + b" 2 A"), req("s2rd", 65280, 1, b"\\# %s %s" % (n, b"0a" * x)), req("s2rd", 15, 1, n + b" a."), req("s2rd", 38, 1, n + b" 1:2:3::4 a."), req("s2rd", 43, 1, b"1 %s 1 AB" % n), req("s2rd", 43, 1, n + b" 5 1 AB"),
                     req("s2rd", 24, 1, b"TYPE%s 5 2 300 1700000000 1700000000 7 a. AAAA" % n), req("s2rd", 24, 1, b"A 5 2 300 %s 1700000000 7 a. AAAA" % n)]
    for t1 in (0, 1, 7, 8, 254, 255, 256, 257, 511, 512, 32768, 65535):
        for t2 in (0, 1, 255, 256, 511, 65280, 65535): reqs.append(req("s2rd", 62, 1, b"1 2 TYPE%d TYPE%d" % (t1, t2)))
    c.trace(w, T, reqs, also=build("whm"))


def canonical_rdata(r, t):
    d = b""
    for k in LAYOUT.get(t, ["bytes"]):
        if k == "svcparams":
            for key in sorted({r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 65534, r.randrange(7, 65535)]) for _ in range(r.choice([0, 1, 1, 2, 3]))}):
                p = svcparam(r, key)
                for _ in range(20):
                    if key == 0:
                        ks = sorted({r.choice([1, 2, 3, 4, 5, 6, 7, 100, 65534]) for _ in range(r.choice([1, 2, 3]))})
                        p = u16(0) + u16(2 * len(ks)) + b"".join(u16(x) for x in ks)
                    elif key == 1:
                        ids = [cstring(r, r.choice([1, 1, 2, 5, 63, 255])) for _ in range(r.choice([1, 1, 2, 3]))]
                        p = u16(1) + u16(sum(map(len, ids))) + b"".join(ids)
                    elif key in (4, 5, 6) and len(p) == 4: p = svcparam(r, key); continue
                    break
                d += p
        elif k == "ipv6prefix":
            x = fld(r, k, None)
            p = x[0]
            if p % 8 and len(x) > 1: x = bytes([p, x[1] & 0xff >> (p % 8)]) + x[2:]
            d += x
            if p == 0: return d
        else: d += fld(r, k, lambda: name(r, r.random() < .8))
    return d


def p10(c, quick):
    w = build("wh")
    r, reqs = c.rng, []
    laws(c, quick, "RdataLaws")
    for t, cl, d in cases(c, "G_Rdata", "data", not quick): reqs.append(req("rdtrip", t, cl, bytes(d)))
    for t in TYPES:
        k = 24 + 8 * len(LAYOUT[t]) + (60 if "svcparams" in LAYOUT[t] else 0)
        for _ in range(k if quick else 14 * k):
            d = canonical_rdata(r, t) if r.random() < .9 else rdata(r, t, lambda: name(r, True))
            if len(d) < 3000: reqs.append(req("rdtrip", t, 1, d))
    for t in UNKNOWN:
        for n in (0, 1, 2, 3, 9, 255, 256): reqs.append(req("rdtrip", t, r.choice([1, 1, 3, 255]), octets(r, n)))
    for x in range(256):
        b = bytes([x])
        reqs += [req("rdtrip", 19, 1, b"\1" + b), req("rdtrip", 2, 1, b"\1" + b + b"\0"), req("rdtrip", 16, 1, b"\3a" + b + b"b\1" + b), req("rdtrip", 256, 1, b"\0\1\0\2" + b), req("rdtrip", 257, 1, b"\0\5issue" + b),
                 req("rdtrip", 256, 1, b"\0\1\0\2a" + b + b"c"), req("rdtrip", 64, 1, b"\0\1\0\0\1\0\2\1" + b), req("rdtrip", 64, 1, b"\0\1\0\0\1\0\4\1" + b + b"\1" + b), req("rdtrip", 64, 1, b"\0\1\0\x12\x34\0\1" + b), req("rdtrip", 50, 1, b"\1\2\3\4\1" + b + b"\1" + b + b"\0\1\1"),
                 req("rdtrip", 46, 1, b"\0" + b + b"\5\2" + b"\0" * 14 + b"\0" + b), req("rdtrip", 46, 1, b + b"\1" + b"\5\2" + b"\0" * 14 + b"\0" + b), req("rdtrip", 62, 1, b"\0\0\0\1\0\2" + b + b"\1\x40"), req("rdtrip", 62, 1, b"\0\0\0\1\0\2\0\1" + b), req("rdtrip", 61, 1, b), req("rdtrip", 10, 1, b), req("rdtrip", 65280, 1, b),
                 req("rdtrip", 51, 1, b"\1\2\3\4" + b + octets(r, x)), req("rdtrip", 50, 1, b"\1\2\3\4\0" + b + octets(r, x)), req("rdtrip", 19, 1, b + octets(r, x)), req("rdtrip", 64, 1, b"\0\1\0\0\1" + u16(x + 1) + b + octets(r, x)), req("rdtrip", 64, 1, b"\0\1\0\0\5" + u16(x + 1) + b + octets(r, x))]
    for t, f in CARRIERS:                        # every octet, everywhere it can stand
        for x in range(256):
            for v in shapes(x): reqs.append(req("rdtrip", t, 1, f(v)))
    for x in range(256): reqs.append(req("rdtrip", 47, 1, b"\0" + bytes([x, 32]) + b"\xff" * 32))       # every type in a list
    for p in range(0, 129):
        n = (128 - p + 7) // 8
        a = bytearray(octets(r, n))
        if p % 8: a[0] &= 0xff >> (p % 8)
        reqs += [req("rdtrip", 38, 1, bytes([p]) + bytes(a) + (b"\1a\0" if p else b"")), req("rdtrip", 38, 1, bytes([p]) + b"\0" * n + (b"\0" if p else b""))]
    for n in (190, 191, 192, 193, 300, 1000, 5000): reqs += [req("rdtrip", 64, 1, b"\0\1\0\0\5" + u16(n) + octets(r, n)), req("rdtrip", 64, 1, b"\0\1\0\0\7" + u16(n) + octets(r, n)), req("rdtrip", 256, 1, b"\0\1\0\2" + octets(r, n)), req("rdtrip", 48, 1, b"\0\1\0\2" + octets(r, n)), req("rdtrip", 43, 1, b"\0\1\0\2" + octets(r, n))]
    for t1 in range(0, 300, 1 if not quick else 7): reqs.append(req("rdtrip", 62, 1, b"\0\0\0\1\0\2" + bytes([t1 >> 8, (t1 & 255) // 8 + 1]) + b"\0" * ((t1 & 255) // 8) + bytes([0x80 >> (t1 & 7)])))
    for t, d in wide(c, quick, 8): reqs.append(req("rdtrip", t, 1, d))
    for ls in (1, 2, 63, 254, 255): reqs.append(req("rdtrip", 15, 1, b"\0\1" + exact_name(r, max(3, ls))))
    c.trace(w, T, reqs, also=build("whm"))


CHECKS = {"P09": p09, "P10": p10}
