"""Generators of record data in presentation form: well formed in every spelling, and malformed in every way."""
import base64, ipaddress
from gen import *
from gen_rr import *

MNEM = [b"A", b"NS", b"MX", b"TXT", b"AAAA", b"RRSIG", b"NSEC", b"URI", b"CAA", b"TYPE258", b"TYPE65535", b"TYPE256", b"ANY", b"DLV", b"TA",
        b"TYPE1", b"type2", b"a", b"nS", b"SPF", b"TYPE0", b"TYPE8", b"TYPE7", b"TYPE255", b"TYPE511", b"TYPE512", b"TYPE32767", b"SVCB", b"MB"]
BADMNEM = [b"FAKE", b"TYPE", b"TYPE65536", b"TYPE-1", b"TYPE+1", b"TYPE1x", b"A,", b"0", b"1", b"TYPE99999999999999999999", b"ALPN", b"TYPE 1"]
KEYS = [b"mandatory", b"alpn", b"no-default-alpn", b"port", b"ipv4hint", b"ech", b"ipv6hint"]


def blanks(r): return r.choice([b" "] * 6 + [b"  ", b"\t", b" \t ", b"\n", b"\r\n", b"    "])


def esc(r, b, extra=0.0):
    out = b""
    for c in b:
        if c in b'"\\': out += b"\\" + bytes([c]) if r.random() < .7 else b"\\%03d" % c
        elif 32 <= c < 127 and r.random() >= extra: out += bytes([c])
        else: out += b"\\%03d" % c
    return out


def string_text(r, b=None):
    b = cstring(r)[1:] if b is None else b
    if b and r.random() < .4 and b[0] != 34:
        return esc(r, b, .05).replace(b" ", b"\\032")
    return b'"' + esc(r, b, .05) + b'"'


def bad_string(r):
    return r.choice([b'"open', b'"a\\"', b"a\\", b"\\a", b"\\25", b"\\256", b"\\999", b"\\2 5", b"\\", b'"\\1x1"', b'"x\x01"', b"\x7f", b"\xff", b"y" * 256,
                     b'"' + b"z" * 256 + b'"', b"\\065" * 256, b'"tab\there"', b"\\-1", b"\\300", b'"\\000\\25"', b"\\\xb5"])


def name_text(r):
    out = b""
    ls = labels(r, small=r.random() < .8)
    for i, l in enumerate(ls):
        for ch in l:
            if ch in b".\\": out += b"\\" + bytes([ch])
            elif 32 < ch < 127 and r.random() < .95: out += bytes([ch])
            else: out += b"\\%03d" % ch
        if i < len(ls) - 1 or r.random() < .8: out += b"."
    return out or b"."


def bad_name(r): return r.choice([b"a..b", b".a", b"x" * 64, b"\\256.", b"a\\", b"..", b"\\1", b"c" * 63 + (b"." + b"d" * 63) * 3])


def num(r, mx):
    v = r.choice([0, 1, 9, 10, 99, mx // 2, mx - 1, mx, r.randrange(mx + 1)])
    return (b"0" * r.choice([0, 0, 0, 0, 1, 3, 30])) + b"%d" % v


def bad_num(r, mx):
    return r.choice([b"%d" % (mx + 1), b"%d" % (mx + 2), b"%d" % (2 * mx + 2), b"-1", b"+1", b"1x", b"x", b"0x1", b"1.0", b"", b"4294967296", b"4294967297",
                     b"18446744073709551615", b"18446744073709551616", b"18446744073709551617", b"99999999999999999999999999", b"%d" % (256 * (mx + 1) + 1), b'"1"', b"1,"])


def hexs(r, n):
    s = octets(r, n).hex().encode()
    return s.upper() if r.random() < .3 else bytes(c - 32 if 97 <= c and r.random() < .2 else c for c in s)


def b32text(b):
    s = base64.b32hexencode(b).rstrip(b"=")
    return s


def ip6text(r):
    a = ipaddress.IPv6Address(addr6(r))
    k = r.randrange(5)
    s = a.compressed if k < 2 else a.exploded if k == 2 else ":".join("%x" % int(x, 16) for x in a.exploded.split(":"))
    if k == 4:
        h = a.exploded.split(":")
        s = ":".join(h[:6]) + ":%d.%d.%d.%d" % tuple(a.packed[12:])
    return s.encode() if r.random() < .8 else s.upper().encode()


BAD4 = [b"1.2.3", b"1.2.3.4.5", b"256.1.1.1", b"1.2.3.04", b"1..2.3", b"1.2.3.", b"::1", b"a.b.c.d", b"1.2.3.4x", b"0x1.2.3.4", b"1.2.3.-4", b"01.2.3.4", b"1234", b" ", b"1.2.3.999"]
BAD6 = [b"1:2:3:4:5:6:7", b"1:2:3:4:5:6:7:8:9", b":::", b"1::2::3", b"g::", b"12345::", b"1.2.3.4", b"::1.2.3", b"::1.2.3.256", b":1::", b"1:", b"1:2:3:4:5:6:7:1.2.3.4", b"::1%eth0", b"1:2:3:4:5:6:7:8::", b"::1/64", b"-1::"]
GOOD6 = [b"::", b"::1", b"1::", b"1:2:3:4:5:6:7:8", b"::ffff:1.2.3.4", b"1:2:3:4:5:6:7::", b"::2:3:4:5:6:7:8", b"1:2:3:4:5:6:1.2.3.4", b"fe80::ABCD", b"0:0:0:0:0:0:0:0", b"::1.2.3.4", b"1::8", b"abcd:0001::0010"]


def key_text(r):
    k = r.random()
    if k < .6: return r.choice(KEYS)
    return b"key%d" % r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255, 256, 65533, 65534, r.randrange(65535)])


def bad_key(r): return r.choice([b"key65535", b"key65536", b"key", b"key+5", b"key-1", b"key5x", b"key 5", b"KEY5", b"Alpn", b"alp", b"alpnx", b"key18446744073709551617", b"key65536000", b"key-18446744073709551611", b"", b"key\t5", b"invalid", b"key99999999999999999999"])


def number_of(k): return KEYS.index(k) if k in KEYS else int(k[3:])


def alpn_text(r):
    ids = [bytes(octets(r, r.choice([1, 1, 2, 5, 30, 254, 255] if r.random() < .3 else [1, 2, 3]))) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < .12: ids[r.randrange(len(ids))] = r.choice([b"", b"", b"w" * 256, b"w" * 257, b"w" * 512, b"q" * 300])
    inner = b",".join(i.replace(b"\\", b"\\\\").replace(b",", b"\\,") for i in ids)
    return inner


def param_text(r, k=None):
    k = key_text(r) if k is None else k
    n = number_of(k)
    bad = r.random() < .12
    if n == 2: return k + (b"" if not bad else r.choice([b"=", b"=1", b'=""']))
    if n == 0:
        ks = sorted({key_text(r) for _ in range(r.choice([1, 1, 2, 3]))}, key=number_of)
        if r.random() < .15: r.shuffle(ks)
        v = b",".join(ks) if not bad else r.choice([b"", b",", b"alpn,", b",alpn", b"alpn,,port", bad_key(r), b"alpn," + bad_key(r), b"alpn port", b'"alpn, port"', b'"alpn,port"', b'"alpn\\000"'])
    elif n == 1:
        v = alpn_text(r)
        v = b'"' + esc(r, v, .02) + b'"' if r.random() < .8 or b'"' in v[:1] else esc(r, v, .02).replace(b" ", b"\\032")
        if bad: v = r.choice([b'"a\\\\bc"', b'"a\\,b"', b'""', b'","', b'"a,"', b'",a"', b'"a,,b"', b'"a\\\\"', b'"open', b"a\\\\\\\\b", b'"a\\\\,b"', b"a,b"])
    elif n == 3:
        v = num(r, 65535) if not bad else r.choice([b"", b"+5", b"-0", b"-1", b"65536", b"99999999999999999999", b"5x", b'"443 80"', b'" 443"', b'"443 "', b'"4\\00043"', b"18446744073709551617", b'"443"', b"\\0524", b'"\\009443"', b"4294967739", b'"+443"'])
    elif n == 4:
        v = b",".join(b".".join(b"%d" % r.choice([0, 1, 10, 99, 100, 255]) for _ in range(4)) for _ in range(r.choice([1, 1, 2, 3])))
        if bad: v = r.choice([b"", b",", b"1.2.3.4,", b",1.2.3.4", b"1.2.3.4,,5.6.7.8", b"1.2.3.4," + r.choice(BAD4), r.choice(BAD4), b'"1.2.3.4\\000"', b'"1.2.3.4, 5.6.7.8"', b'"1.2.3.4,5.6.7.8"', b'"1.2.3.4,5.6.7.8\\000,1.1.1.1"'])
    elif n == 5:
        v = base64.b64encode(octets(r, r.choice([1, 2, 3, 4, 30, 190, 191, 192, 193, 300] if r.random() < .3 else [1, 2, 3, 9])))
        if bad: v = r.choice([b"", b'""', b'"AAAA BBBB"', b"A", b"AA=A", b"AA!=", b"AAAA\\000", b"AA"])
        elif r.random() < .2: v = v.rstrip(b"=")
    elif n == 6:
        v = b",".join(ip6text(r) if r.random() < .7 else r.choice(GOOD6) for _ in range(r.choice([1, 1, 2])))
        if bad: v = r.choice([b"", b"::1,", b",::1", b"::1,,::2", r.choice(BAD6), b"::1," + r.choice(BAD6), b'"::1 "'])
    else:
        v = string_text(r, octets(r, r.choice([0, 1, 2, 7, 255, 256, 300] if r.random() < .3 else [1, 3])))
        if bad: v = r.choice([b"", b'"open', b"a\\", bad_string(r)])
    return k + b"=" + v


def params_text(r):
    ps = [param_text(r) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 4]))]
    def order(p):
        k = p.split(b"=")[0]
        try: return number_of(k)
        except Exception: return 0
    if r.random() < .85:
        seen, out = set(), []
        for p in sorted(ps, key=order):
            if order(p) not in seen: out.append(p)
            seen.add(order(p))
        ps = out
    if r.random() < .08: ps.insert(r.randrange(len(ps) + 1), r.choice([bad_key(r), bad_key(r) + b"=1", b"alpn", b"port", b"key7", b"=x", b"key7=", b"ech", b"mandatory"]))
    return b"".join(p + (blanks(r) if r.random() < .98 else b"") for p in ps)


def field_text(r, k):
    if k == "name": return name_text(r)
    if k == "int8": return num(r, 255)
    if k == "int16": return num(r, 65535)
    if k == "int32": return num(r, 2**32 - 1)
    if k == "rrtype": return r.choice(MNEM)
    if k == "ipv4": return b".".join(b"%d" % r.choice([0, 1, 9, 10, 99, 100, 199, 200, 254, 255]) for _ in range(4))
    if k == "ipv6": return ip6text(r) if r.random() < .7 else r.choice(GOOD6)
    if k in ("eui48", "eui64"):
        h = octets(r, 6 if k == "eui48" else 8).hex("-").encode()
        return h.upper() if r.random() < .4 else h
    if k == "string": return string_text(r)
    if k == "repstring": return b"".join(string_text(r) + blanks(r) for _ in range(r.choice([1, 1, 2, 3])))
    if k == "salt": return hexs(r, r.choice([1, 2, 4, 8, 254, 255])) if r.random() < .8 else b"-"
    if k == "hash":
        s = b32text(octets(r, r.choice([1, 2, 3, 4, 5, 20, 20, 20, 32, 254, 255]))) if r.random() < .85 else b"0"
        return s.lower() if r.random() < .4 else s
    if k == "bitmap": return b"".join(r.choice(MNEM if r.random() < .8 else [b"TYPE%d" % r.randrange(65536)]) + blanks(r) for _ in range(r.choice([0, 1, 2, 3, 8])))
    if k == "svcparams": return params_text(r)
    if k == "ipv6prefix":
        p = r.choice([0, 1, 7, 8, 9, 63, 64, 65, 120, 127, 128])
        a = addr6(r)
        if r.random() < .8:
            n = (128 - p + 7) // 8
            a = bytearray(b"\0" * (16 - n) + a[16 - n:])
            if p % 8: a[16 - n] &= 0xff >> (p % 8)
        t = ipaddress.IPv6Address(bytes(a)).compressed.encode()
        return b"%d" % p + (b"" if p == 128 and r.random() < .7 else blanks(r) + t)
    if k == "base64":
        s = base64.b64encode(octets(r, r.choice([0, 1, 2, 3, 4, 5, 6, 20, 57, 100])))
        if r.random() < .2: s = s.rstrip(b"=")
        if len(s) > 4 and r.random() < .3: i = r.randrange(1, len(s)); s = s[:i] + blanks(r) + s[i:]
        return s
    if k == "text": return b'"' + esc(r, octets(r, r.choice([1, 2, 5, 29, 255, 256, 400])), .05) + b'"'
    return hexs(r, r.choice([1, 1, 2, 3, 20, 57]))


def bad_field(r, k):
    if k == "name": return bad_name(r)
    if k in ("int8", "int16", "int32"): return bad_num(r, {"int8": 255, "int16": 65535, "int32": 2**32 - 1}[k])
    if k in ("rrtype", "bitmap"): return r.choice(BADMNEM)
    if k == "ipv4": return r.choice(BAD4)
    if k == "ipv6": return r.choice(BAD6)
    if k in ("eui48", "eui64"):
        h = field_text(r, k)
        i = r.randrange(len(h))
        return r.choice([h[:-1], h + b"0", h + b"-00", h[:i] + b"g" + h[i + 1:], h[:i] + b":" + h[i + 1:], h.replace(b"-", b":"), h[:i] + b" " + h[i + 1:], h.replace(b"-", b""), h + b" ", b"+" + h[1:], h[:3] + b"-" + h[4:]])
    if k in ("string", "repstring"): return bad_string(r)
    if k == "salt": return r.choice([b"--", b"a", b"abc", b"gg", b"0g", b"g0", b"a-", b"-a", b"+1", b"0x", b"ab" * 256, b"0xab", b"ab+1", b"\xff\xff"])
    if k == "hash": return r.choice([b"W", b"!", b"-", b"ABW=", b"ab!c", b"VVVW", b"AA=", b"0" * 409, b"0" * 410, b"V" * 416, b"W0", b"0W", b"\xc1\xc2", b"=", b"ab cd"])
    if k == "svcparams": return bad_key(r) + b"=" + b"1"
    if k == "ipv6prefix": return r.choice([b"129 ::1", b"256 ::", b"257 ::", b"384 ::", b"-1 ::", b"x ::", b"64", b"64 1.2.3.4", b"64 a.example.", b"8 :::", b"+8 ::1", b"8/::1", b"4294967360 ::1", b"127 ", b"128", b"0 :: x.", b"0", b"1e1 ::"])
    if k == "base64": return r.choice([b"A", b"AA=A", b"!!!!", b"AA!A", b"====", b"AAAA=", b"A===", b"AB==CD==", b"\xff\xfe\xfd\xfc", b"AAB="])
    if k == "text": return r.choice([b'""', b'"', b"abc", b'"abc', b'abc"', b'"a"b"', b'"a" "b"', b'"a\\"', b'"\\256"', b'"\\x"', b'"a" ', b'"a\x01"', b"\\034a\"", b'"a"x', b'"\xc3"', b'"a""b"', b'"\\"'])
    return r.choice([b"0", b"0g", b"g0", b"gg", b"0x12", b"1 2", b"12 3 4", b"a b ", b"12 34", b"123", b" +1", b"+1", b"-1", b"1234zz", b"12  34", b"ab\tc", b"\xff\xff", b"1 ", b"12 ", b"12  ", b"a-"])


def rdtext(r, t):
    fs = LAYOUT.get(t)
    if fs is None or fs == ["options"]: return generic_text(r)
    k = r.random()
    i = r.randrange(len(fs))
    parts = [field_text(r, f) for f in fs]
    if .55 < k < .8: parts[i] = bad_field(r, fs[i])
    elif .8 <= k < .86: parts = parts[:i]
    elif .86 <= k < .89: parts = parts + [r.choice([b"x", b"1", b".", b'"z"', b"\\"])]
    elif .89 <= k < .91: parts[i] = b""
    elif .91 <= k < .93 and len(parts) > 1: del parts[i]
    t = b"".join(p + blanks(r) for p in parts)
    if r.random() < .85: t = t.rstrip(b" \t\r\n")
    if r.random() < .1: t = blanks(r) + t
    if k > .93: t = mutate(r, t)
    return t.replace(b"\0", b"0")


def generic_text(r, d=None):
    d = octets(r, r.choice([0, 0, 1, 2, 3, 9, 60, 255, 256])) if d is None else d
    n = len(d)
    h = [d[i:i + 1].hex().encode() for i in range(n)]
    if r.random() < .3: h = [x.upper() for x in h]
    body = (b"".join(x + (r.choice([b"", b" ", b"\t", b"  "])) for x in h) if r.random() < .5 else b"".join(h))
    k = r.random()
    ln = b"%d" % n
    if k < .06: ln = bad_num(r, 65535)
    elif k < .12: ln = b"%d" % (n + r.choice([1, -1, 65536, 2 * 65536, 256]))
    elif k < .15: ln = b"00" + ln
    head = b"\\#" if k < .9 else r.choice([b"", b"#", b"\\", b"\\# \\#", b"\\#\\#", b"\\##", b"/#"])
    t = head + (blanks(r) if k < .97 else b"") + ln + blanks(r) + body
    if r.random() < .15: t = mutate(r, t)
    if r.random() < .06: t = head + b" " + ln + r.choice([b"", b" ", b" 0", b" g0", b" 0g", b" a b", b" 0x", b" +1", b" -1 ", b" 1 1", b" zz"])
    return t.replace(b"\0", b"0")
