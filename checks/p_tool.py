"""P36: the command-line tools."""
import os, sys
from vlib import req
import vbuild
from vbuild import build
from gen_rr import *
from p_msg import rand_set, mixed

T = "T_Tool.tla"


def packet(r, dns, proto=17, etype=0x0800, ihl=5, iplen=None, tail=b"", cut=None):
    """an Ethernet frame around a UDP datagram"""
    ip = bytes([0x40 | ihl, 0]) + u16((20 if ihl < 5 else ihl * 4) + 8 + len(dns) if iplen is None else iplen) + u16(r.randrange(65536)) + u16(0) + bytes([64, proto]) + u16(0) + octets(r, 8, 0)
    p = octets(r, 12, 0) + u16(etype) + ip + octets(r, max(0, ihl * 4 - 20), 0) + u16(53) + u16(1053) + u16(8 + len(dns)) + u16(0) + dns + tail
    return p if cut is None else p[:cut]


def any_packet(r):
    m = message(r, wellformed=.7)
    k = r.randrange(12)
    if k == 0: return packet(r, m, cut=r.randrange(0, 60))
    if k == 1: return packet(r, m, etype=r.choice([0x86dd, 0x0806, 0x8100, 0x0008, 0x0801, 0x0900]))
    if k == 2: return packet(r, m, ihl=r.choice([6, 8, 15, 15]))
    if k == 3: return packet(r, m, iplen=r.choice([0, 19, 20, 27, 28, 39, 40, 41, 28 + len(m) - 1, 28 + len(m) + 1, 65535, r.randrange(20, 60)]))
    if k == 4: return packet(r, m, tail=octets(r, r.choice([1, 6, 18])))
    if k == 5: return packet(r, m, proto=r.choice([6, 1, 0, 16, 18]))
    if k == 6: return packet(r, m[:r.choice([0, 1, 11, 12, 13])])
    if k == 7: return packet(r, m, ihl=15, cut=r.choice([34, 60, 73, 74, 81, 82, 93, 94, 95]))
    if k == 8 and r.random() < .2: return packet(r, m, ihl=r.choice([0, 1, 4]))
    return packet(r, m)


def overread(p):
    """the packets wdns-dump-pcap reads past the end of (known-findings.txt): examples/ is not ours to repair"""
    if len(p) < 14 or p[12:14] != b"\x08\0": return False
    n = len(p) - 14
    if n == 0: return True
    h = 4 * (p[14] & 15)
    return h <= n and (n < 4 or p[16] * 256 + p[17] < h)


# one request for each way of it, the same on every run
def eth(ip): return bytes(12) + b"\x08\0" + ip
FIXED_DNS = b"\0\1" + bytes(3) + b"\1" + bytes(6) + b"\1a\0\0\1\0\1"
KNOWN = [eth(b""), eth(b"\x40\0"), eth(b"\x45\0\0\x0a" + bytes(16) + bytes(8) + FIXED_DNS[:-1]), eth(b"\x45\0\0\x13" + bytes(16) + bytes(8) + FIXED_DNS[:-1])]


def p36(c, quick):
    w = build("th")
    r, reqs = c.rng, []
    v = [int(x) for x in vbuild._version()]
    reqs += [req("tver", *v)] * 2
    for _ in range(220 if quick else 4000):
        m = message(r, wellformed=.8)
        k = r.randrange(3)
        if k == 0: reqs.append(req("tfile", m[:4200], 0))
        else: reqs.append(req(["", "tprint", "tser"][k], m, r.randrange(3)))
    for n in list(range(0, 14)): reqs += [req("tfile", message(r)[:n], 0), req("tprint", bytes(n) or b"\0", 0)]
    for n in (4094, 4095, 4096, 4097, 4098, 8192, 9000):
        for t in (65280, 16):
            m = Mb(r)
            k = n - 12 - 11
            m.rr(b"\0", t, 1, 5, octets(r, k) if t == 65280 else b"".join(cstring(r, min(255, k - i - 1)) for i in range(0, k, 256)))
            b = m.done(0x8000, [0, 1, 0, 0])
            reqs.append(req("tfile", b, 0))
            reqs.append(req("tfile", (message(r, wellformed=1) + bytes(n))[:n], 0))
    for k in range(1, 5): reqs += [req("tfile", message(r, wellformed=1), k), req("tfile", b"", k)]
    # sets
    for _ in range(160 if quick else 3000):
        s = rand_set(r)
        if r.random() < .5: s[0] = wire([mixed(r, l) for l in labels(r)])
        if sum(map(len, s[5:])) > 20000: continue
        if s[1] == 41: s[1] = 42 if r.random() < .5 else 41
        reqs.append(req("tset", r.choice([2, 3]), r.randrange(3), *s))
    upname = lambda: wire([mixed(r, octets(r, len(l), 1)) for l in labels(r, small=True)])
    for t in TYPES:
        for _ in range(1 if quick else 10):
            reqs.append(req("tset", 3, 0, upname(), t, 1, 0, 9, rdata(r, t, upname)[:2000], rdata(r, t, upname)[:2000]))
            reqs.append(req("tset", 2, 1, upname(), t, 1, 1, 9, rdata(r, t, upname)[:2000]))
    for _ in range(100 if quick else 2000):
        nm = name(r, True)
        b = bytes([len(nm)]) + nm + u16(1) + u16(1) + u32(9) + struct.pack("<H", r.choice([0, 1, 2, 3, 255])) + b"".join(struct.pack("<H", n) + octets(r, n) for n in [r.choice([0, 1, 4])] * r.randrange(4))
        k = r.randrange(3)
        b = b if k == 0 else mutate(r, b) if k == 1 else octets(r, r.randrange(1, 60))
        if b: reqs.append(req("traw", r.choice([2, 3]), r.randrange(3), b))
    # text that is no hexadecimal, and the wrong number of arguments
    ok = message(r, wellformed=1).hex().encode()
    for k in range(4):
        for x in (b"", b"0", b"000", ok[:-1], ok + b"0", b"g0", b"0g", b" 00", b"00 ", b"0x00", b"-1", b"\xff\xfe", b"0 ", b"\n0", ok[:10] + b"zz" + ok[10:], ok + b"\n\n", b":0", b"@0", b"/0", b"`0", b"G0", b"[0"): reqs.append(req("tbad", k, x, 2))
        reqs += [req("tbad", k, ok, 1), req("tbad", k, ok, 3)]
    for x in range(1, 256):
        if x not in b"0123456789abcdefABCDEF": reqs += [req("tbad", 0, b"00" * 12 + bytes([x, 48]), 2), req("tbad", x % 4, b"00" * 12 + bytes([48, x]), 2)]
    # captures
    reqs += [req("tpcap", 0, 0, 0, p) for p in KNOWN]
    tpcap = lambda *a: req("tpcap", *a[:3], *[p for p in a[3:] if not overread(p)])
    for _ in range(200 if quick else 3500):
        n = r.choice([0, 1, 1, 2, 3, 5, 8])
        reqs.append(tpcap(r.choice([0, 0, 0, 0, 0, 0, 4, 0]), r.choice([0, 0, 0, 1, 3]), r.choice([0, 0, 1, 1000]), *[any_packet(r) for _ in range(n)]))
    m = message(r, wellformed=1)
    full = packet(r, m)
    for n in list(range(0, 56)) + [len(full) - 1, len(full)]: reqs.append(tpcap(0, 0, 0, packet(r, m), full[:n], packet(r, m)))
    big = packet(r, m, ihl=15)
    for n in range(70, 96): reqs.append(tpcap(0, n % 2, 0, big[:n]))
    for n in range(0, 60, 1 if not quick else 2): reqs.append(tpcap(0, 0, 0, packet(r, m, iplen=n), packet(r, b"\xff" * n)))
    for ihl in range(0, 16): reqs.append(tpcap(0, 3, 5, packet(r, m, ihl=ihl)))
    for k in range(1, 5): reqs += [tpcap(k, 0, 0, full), tpcap(k, 0, 0)]
    reqs += [tpcap(0, 2, 0, full), tpcap(0, 2, 0)]
    reqs.append(tpcap(0, 0, 0, *[packet(r, m) for _ in range(40 if quick else 300)]))
    c.trace(w, T, reqs)


CHECKS = {"P36": p36}
