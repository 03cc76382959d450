"""P39: zone files."""
from vlib import req
from vbuild import build
from gen import *

T = "T_Zone.tla"
NAMES = [b"zone", b"zone.gz", b"a b.gz", b"it's.gz", b"a;touch x.gz", b"$(touch y).gz", b"`touch w`.gz", b"-c.gz", b"a\"b.gz", b"a\\b.gz", b"*.gz", b".gz", b"gz", b"zone.gzx", b"z.Gz", b"#z.gz", b"a&b.gz", b"a|cat.gz", b"a>q.gz", b"a\nb.gz", b"~.gz", b"zonegz"]


def a_line(r):
    name = r.choice([b"@", b"a", b"b.c", b"w" * r.choice([1, 30, 60]), b"x.", b"a.b.", b"www.example.", b".", b" ", b"\t", b"  "])
    ttl = r.choice([b"", b"", b"%d " % r.choice([0, 1, 300, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 32)])])
    k = r.random()
    if k < .1: return b"$ORIGIN " + r.choice([b"o.", b"p.q.", b".", b"example.", b"bad", b"", b"x. y."])
    if k < .18: return b"$TTL " + r.choice([b"0", b"60", b"86400", b"4294967295", b"bad", b"", b"1 2"])
    if k < .28: return r.choice([b"", b"; c", b"   ", b" ;x", b"\t", b";"])
    if k < .33: return r.choice([b"?", b"a", b"a A", b"a A x", b"a MX 1", b"A 1", b"a 1 2 A 3", b"@", b"a A 1 2", b"$ORIGIN", b"$INCLUDE f"])
    if k < .37: return name + b" " + ttl + b"SOA %d" % r.choice([0, 1, 2 ** 31, 2 ** 32 - 1])
    return name + b" " + ttl + b"A %d" % r.randrange(1000) + r.choice([b"", b"", b" ", b" ; note", b";"])


def p39(c, quick):
    w = build("zh")
    c.models([("ZoneLaws.tla", "MC_ZoneLaws.cfg" if quick else "MC_ZoneLaws_deep.cfg")], workers=8)
    c.trace(w, T, [req(v["op"], *[bytes(x) if isinstance(x, list) else x for x in v["a"]]) for v in c.gen("G_Zone.tla", "zone", N=3 if quick else 4)], label="every short file")
    r, reqs = c.rng, []
    for _ in range(2500 if quick else 60000):
        soa = r.choice([b"@", b"z.", b"a", b"example.com.", b" z."]) + r.choice([b" ", b" 60 ", b"\t"]) + b"SOA %d" % r.choice([0, 1, 2019010101, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])
        pre = [r.choice([b"; c", b"", b"$ORIGIN o.p.", b"$ORIGIN .", b"$TTL 77", a_line(r)]) for _ in range(r.choice([0, 0, 1, 2, 4]))]
        lines = pre + ([soa] if r.random() < .93 else []) + [a_line(r) for _ in range(r.choice([0, 1, 2, 5, 12, 40]))]
        if r.random() < .15: lines.append(soa)
        text = b"\n".join(lines) + (b"\n" if r.random() < .75 else b"")
        n = r.choice([0, 1, 3, len(lines) + 3, len(lines) + 3])
        calls = bytes(r.choice(b"rrrrrrsdc") for _ in range(n))
        kind = r.choice([0] * 8 + [1, 1, 2, 3])
        name = r.choice(NAMES) if kind else r.choice([x for x in NAMES if not x.endswith(b".gz")])
        if kind in (1, 3) and not name.endswith(b".gz"): name = b"z" + name + b".gz"
        reqs.append(req("zone", kind, name, text, calls))
    for name in NAMES:
        for kind in (1, 2, 3, 4) if name.endswith(b".gz") else (0, 2, 4):
            for text in (b"@ SOA 1\na A 2\n", b"", b"a A 2\n", b"@ SOA 1"): reqs.append(req("zone", kind, name, text, b"rdscrrc"))
    # long files, and files longer than a pipe holds that are not read to the end
    text = b"@ SOA 1\n" + b"".join(b"h%d A %d\n" % (i, i) for i in range(300))
    reqs += [req("zone", 0, b"zone", text, b"r" * 310 + b"c"), req("zone", 1, b"zone.gz", text, b"r" * 310 + b"c")]
    text = b"@ SOA 1\n" + (b"; " + b"f" * 900 + b"\n") * 90 + b"a A 1\n"
    reqs += [req("zone", 1, b"zone.gz", text, b"rc"), req("zone", 1, b"zone.gz", text, b"rrr"), req("zone", 0, b"zone", text, b"rrr")]
    c.trace(w, T, reqs, also=build("zhm"))


CHECKS = {"P39": p39}
