"""P38: command-line arguments."""
import re
from vlib import req
from vbuild import build
from gen import *

T = "T_Args.tla"
BOOL, BOOL_NEG, BOOL_ARG, CHAR, TEXT, SHORT, U_SHORT, INT, U_INT, LONG, U_LONG, FLOAT, DOUBLE, BIN, OCT, HEX, INCR, SIZE, U_SIZE, BOOL_INT, BOOL_INT_NEG, BOOL_INT_ARG = range(1, 23)
FLAGS = [BOOL, BOOL_NEG, INCR, BOOL_INT, BOOL_INT_NEG]
MAND, MAYBE, OR, XOR = 254, 253, 252, 251
CLOSE, TOGGLE, MULTI, AFTER, ENV, NOTABLE, NOENV = 1, 2, 4, 8, 16, 32, 64
LETTERS = b"abcdefvxLN"
NAMES = [b"all", b"alpha", b"beta", b"bet", b"config", b"delete", b"verbose", b"version", b"usage", b"size", b"argv-x", b"n", b"long-name-with-dashes", b"x y"]
SIZES = (300).to_bytes(2, "big") + (300).to_bytes(2, "big")


def entry(letter, ty, array=0, must=0, novar=0, name=None):
    return bytes([letter, ty, array | must << 1 | novar << 2 | (name is not None) << 3]) + (name or b"")


def table(r):
    """entries as (letter, type, array, name)"""
    t, names, letters = [], r.sample(NAMES, len(NAMES)), list(r.sample(LETTERS, len(LETTERS)))
    sep = r.choice([0, 0, OR, XOR])
    for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8])):
        ty = r.choice(FLAGS + [TEXT, TEXT, INT, CHAR]) if r.random() < .5 else r.randrange(1, 23)
        arr = ty not in FLAGS and r.random() < .25
        nm = names.pop() if r.random() < .5 and names else None
        le = letters.pop() if (r.random() < .85 or nm is None) and letters else r.choice(b"ab") if nm is None else 0
        if t and t[-1][0] < 251 and sep and r.random() < .5: t.append((sep if r.random() < .9 else r.choice([OR, XOR]), 0, 0, 0, None))
        t.append((le, ty, arr, r.random() < .08, nm))
    def rest(letter, array_ok):
        ty = r.choice([TEXT, TEXT, INT, SIZE, DOUBLE, BOOL, HEX, LONG]) if r.random() < .8 else r.randrange(1, 23)
        return (letter, ty, array_ok and ty not in FLAGS and r.random() < .5, 0, names.pop() if r.random() < .1 and names else None)
    k, pos = r.choice([0, 0, 1, 2, 3]), []
    for i in range(k):
        pos.append(rest(MAND, i == k - 1))
    if not (pos and pos[-1][2]):
        k = r.choice([0, 0, 1, 2])
        for i in range(k): pos.append(rest(MAYBE, i == k - 1))
    if r.random() < .5: t += pos
    else:
        # among the options, in order
        for x in pos[::-1]:
            at = 0
            t.insert(at, x)
        if r.random() < .5 and len(pos) == 1 and len(t) > 2: t.insert(r.choice([i for i in range(len(t) + 1) if not ((i and t[i - 1][0] in (OR, XOR)) or (i < len(t) and t[i][0] in (OR, XOR)))] or [0]), t.pop(0))
    if r.random() < .06 and t:
        i = r.randrange(len(t)); x = list(t[i])
        t[i] = (r.choice([MAND, MAYBE, OR, XOR, x[0]]), x[1] or TEXT, r.random() < .5, x[3], x[4])
        if t[i][0] in (OR, XOR): t[i] = (t[i][0], 0, 0, 0, None)
    return t


def text_for(r, ty):
    n = lambda k: b"%d" % r.choice([0, 1, 7, 10, 42, 255, 1000, 9999, 10 ** k - 1, r.randrange(10 ** k), r.randrange(10 ** r.randint(1, k))])
    sg = r.choice([b"", b"", b"", b"-", b"+", b" ", b"00"])
    if r.random() < .06: return r.choice([b"", b"abc", b"1x", b"-", b"--", b"-a", b"=", b"a=b", b"999999999999999999999", b"yes", b"\xff", b"F", b"0x", b"1 2"])
    wide = {SHORT: 2 ** 15, U_SHORT: 2 ** 16, INT: 2 ** 31, U_INT: 2 ** 32, INCR: 2 ** 31, LONG: 2 ** 63, U_LONG: 2 ** 63}.get(ty)
    if wide and r.random() < .3: return sg + b"%d" % r.choice([wide - 1, wide - 2, wide // 2, wide // 2 - 1, wide // 256 * 3 % wide, 10 ** (len(str(wide)) - 1), r.randrange(wide)])
    if ty in (SHORT, U_SHORT): return sg + n(4)
    if ty in (INT, U_INT, INCR): return sg + n(9)
    if ty in (LONG, U_LONG): return sg + n(18)
    if ty in (SIZE, U_SIZE) and r.random() < .4:
        k = r.randrange(4)
        return r.choice([b"", b"", b"-"]) + b"%d" % r.choice([2 ** 32, 2 ** 31, 5 * 10 ** 9, (2 ** 63 - 1) >> (10 * k), ((2 ** 63 - 1) >> (10 * k)) + 1, r.randrange(2 ** (63 - 10 * k))]) + [b"", b"k", b"M", b"g"][k]
    if ty in (SIZE, U_SIZE): return sg + n(r.choice([2, 4, 9])) + r.choice([b"", b"b", b"B", b"k", b"K", b"m", b"M", b"g", b"G", b"x", b"kb"])
    if ty == FLOAT: return sg + n(r.choice([1, 3, 5])) + r.choice([b"", b".", b".5", b".25", b".750", b".1"])
    if ty == DOUBLE: return sg + n(r.choice([1, 4, 8])) + r.choice([b"", b".", b".5", b".25", b".123456", b".000001", b".999999", b"e3"])
    if ty == BIN: return r.choice([b"", b" "]) + b"".join(r.choice([b"0", b"1"]) for _ in range(r.choice([1, 3, 8, 20, 30]))) + r.choice([b"", b"", b"2"])
    if ty == OCT: return b"".join(b"%d" % r.randrange(8) for _ in range(r.choice([1, 3, 8, 10]))) + r.choice([b"", b"", b"8"])
    if ty == HEX: return r.choice([b"", b"0x", b"0X", b"0"]) + b"".join(r.choice([b"%x", b"%X"]) % r.randrange(16) for _ in range(r.choice([1, 3, 6, 7]))) + r.choice([b"", b"", b"g"])
    if ty in (BOOL, BOOL_NEG, BOOL_ARG, BOOL_INT, BOOL_INT_NEG, BOOL_INT_ARG): return r.choice([b"t", b"T", b"true", b"yes", b"Y", b"1", b"0", b"no", b"false", b"n", b"on", b"", b"2", b"10"])
    if ty == CHAR: return r.choice([b"q", b"xyz", b"\x01", b"\xff", b"'", b"\\", b"7"])
    return r.choice([b"file", b"a b", b"", b"v\"q", b"t\tu", b"\x1b[", b"x=y", b"w" * 40, bytes(r.randrange(1, 256) for _ in range(6)), b"/etc/x", b"%s", b"1"])


def line(r, t, n, files=True):
    """words that mostly fit the table, and the option entries asked for"""
    ws, wait = [], []
    opts = [e for e in t if e[0] < 251]
    pos = [e for e in t if e[0] in (MAND, MAYBE)]
    for _ in range(n):
        k = r.random()
        if wait and k < .55:
            ws.append(text_for(r, wait.pop(0)))
        elif opts and k < .75:
            e = r.choice(opts)
            att = b"=" + text_for(r, e[1]) if r.random() < .4 else None
            if e[4] is not None and (e[0] == 0 or r.random() < .5):
                cut = len(e[4]) if r.random() < .6 else r.randint(1, len(e[4]))
                w = b"--" + e[4][:cut]
                if e[1] not in FLAGS and att is None: wait.append(e[1])
            elif e[0]:
                g = [e]
                while r.random() < .35: g.append(r.choice([x for x in opts if x[0]]))
                w = b"-" + bytes(x[0] for x in g)
                if att is None: wait += [x[1] for x in g if x[1] not in FLAGS]
            else: continue
            ws.append(w + (att or b""))
        elif pos and k < .9:
            ws.append(text_for(r, r.choice(pos)[1]))
        elif k < .93: ws.append(b"--")
        elif k < .95 and files: ws.append(r.choice([b"--argv-file=F", b"--argv-file=E", b"--argv-f", b"--argv-file", b"--a=F", b"--argv-file=G"]))
        elif k < .97: ws.append(r.choice([b"--usage", b"--help", b"-?", b"--v", b"--h", b"--argv-display", b"--usage-all", b"--usage-lon"]))
        elif k < .985: ws.append(r.choice([b"-", b"-=", b"--=", b"--=x", b"-z", b"--zzz", b"-5", b"-1.5", b"--argv-files", b"-a-b", b"-\xfe", b"", b"extra", b"=", b"-1-"]))
        else: ws.append(text_for(r, r.randrange(1, 23)))
    while wait and r.random() < .9: ws.append(text_for(r, wait.pop(0)))
    return ws


def good(r, t):
    """words the table takes"""
    groups, k = [], 0
    while k < len(t):                               # one of each group of rivals, at most
        g = [k]
        while k + 2 < len(t) and t[k + 1][0] in (OR, XOR): g.append(k + 2); k += 2
        k += 1
        groups.append(g)
    use = []
    for g in groups:
        g0 = [i for i in g if t[i][0] < 251]
        need = [i for i in g0 if t[i][3]] or (len(g) > 1 and any(t[j + 1][0] == XOR for j in g[:-1]))
        if g0 and (need or r.random() < .5): use.append(r.choice(need if isinstance(need, list) and need else g0))
    for i in list(use):
        while r.random() < .35: use.append(i)
    r.shuffle(use)
    plain = [e[1] for e in t if e[0] == MAND] + [e[1] for e in t if e[0] == MAYBE and r.random() < .7]
    for e in t:
        if e[0] in (MAND, MAYBE) and e[2] and plain and plain[-1] == e[1]: plain += [e[1]] * r.choice([0, 1, 3, 9, 10, 12])
    ws, i = [], 0
    def word(ty):
        for _ in range(20):
            x = text_for(r, ty)
            if not x.startswith(b"-") or x == b"-" or ty in (SHORT, INT, LONG, FLOAT, DOUBLE) and r.random() < .5: return x
        return b"x"
    while i < len(use) or plain:
        if i < len(use) and (not plain or r.random() < .6):
            e = t[use[i]]; i += 1
            att = r.random() < .4
            if e[4] is not None and (e[0] == 0 or r.random() < .5): w = b"--" + (e[4] if r.random() < .5 else e[4][:max(3, len(e[4]) - r.randrange(4))]); tys = [e[1]]
            elif e[0]:
                g = [e]
                while not att and i < len(use) and t[use[i]][0] and r.random() < .4: g.append(t[use[i]]); i += 1
                w = b"-" + bytes(x[0] for x in g); tys = [x[1] for x in g]
            else: continue
            if att: ws.append(w + b"=" + text_for(r, e[1]))
            else: ws += [w] + [word(ty) for ty in tys if ty not in FLAGS]
        else:
            ws.append(word(plain.pop(0)))
    if r.random() < .15: ws.insert(r.choice([0, len(ws)]), b"--")
    return ws


def asks(r, t, ws, fl, F=b"", E=b"", env=b"", sizes=SIZES, prog=None):
    return req("args", fl, r.randrange(3) if prog is None else prog, F, E, env, sizes, len(t), *[entry(e[0], e[1], int(e[2]), int(e[3]), 0, e[4]) for e in t], *[w.replace(b"\0", b"") for w in ws])


def p38(c, quick):
    w = build("ah")
    c.models([("ArgLaws.tla", "MC_ArgLaws.cfg" if quick else "MC_ArgLaws_deep.cfg")], workers=8)
    c.trace(w, T, [req(v["op"], *[bytes(x) if isinstance(x, list) else x for x in v["a"]]) for v in c.gen("G_Args.tla", "args", N=2 if quick else 3)], label="every short line")
    r, reqs = c.rng, []
    drop = lambda ws, ns: [x for x in ws if not any(x == n or x.endswith(b"=" + n) for n in ns)]     # files do not take themselves in
    def file(text, ns):
        return b"" if any(x == n or x.endswith(b"=" + n) for n in ns for x in re.sub(rb"[\"'\\]", b"", text).split()) else text
    clean = lambda ws: [x for x in ws if x and not any(ch in x for ch in b" \t\n")]
    for _ in range(4000 if quick else 60000):
        t = table(r)
        fl = r.choice([CLOSE | MULTI] * 4 + [MULTI, CLOSE, CLOSE | TOGGLE | MULTI, TOGGLE]) | r.choice([ENV, 0]) | r.choice([0, 0, AFTER]) | r.choice([0, NOENV])
        ws = good(r, t) if r.random() < .6 else line(r, t, r.choice([0, 1, 2, 3, 5, 8, 14]))
        F = b"\n".join(drop(line(r, t, r.choice([0, 2, 5])), [b"F"])) if r.random() < .3 else b""
        E = b"\n".join(drop(line(r, t, r.choice([1, 3, 15]), files=False), [b"F", b"E"])) + b"\n" if r.random() < .3 else b""
        cut = r.randrange(len(ws) + 1)
        if r.random() < .15: F, ws = b"\n".join(ws[cut:]) + b"\n", ws[:cut] + [r.choice([b"--argv-file=F", b"--argv-f=F"])]
        F, E = file(F, [b"F"]), file(E, [b"F", b"E"])
        env = r.choice([b" ", b"  ", b"\t"]).join(clean(line(r, t, r.choice([0, 1, 4])))) if r.random() < .35 else b""
        if r.random() < .05: env = b" "
        s = r.choice([1, 2, 3, 5, 10, 40, 300]).to_bytes(2, "big") + r.choice([2, 3, 5, 8, 12, 20, 300, 300, 300]).to_bytes(2, "big")
        if not t and r.random() < .5: fl |= NOTABLE
        reqs.append(asks(r, t, ws, fl, F.replace(b"\0", b""), E.replace(b"\0", b""), env.replace(b"\0", b""), s))
    # many options at once: awaiting more values than there are words, long arrays, long files, long lines
    for k in (1, 5, 9, 10, 11, 20, 30, 64, 200):
        t = [(97, TEXT, 1, 0, b"all"), (98, INT, 1, 0, None), (118, INCR, 0, 0, None), (MAND, LONG, 1, 0, None)]
        vals = [b"%d" % (i * 7) for i in range(k)]
        for ws in ([b"-" + b"a" * k] + vals + [b"1"], [b"-" + b"ab" * k] + vals + vals + [b"1"], vals, [b"-" + b"v" * k] + vals, [b"-a=%d" % i for i in range(k)] + [b"1"],
                   [b"--argv-file=F"] + vals, [b"--argv-file", b"-a", b"F"] + vals, [b"-" + b"a" * k] + vals[1:] + [b"1"]):
            reqs.append(asks(r, t, ws, CLOSE | MULTI | ENV, b"\n".join([b"-b"] * k + vals), b"", b" ".join([b"-b"] * (k % 7) + vals[:k % 7])))
    # every type, every kind of value, attached and not
    for ty in range(1, 23):
        for _ in range(12 if quick else 120):
            v = text_for(r, ty)
            for ws in ([b"-a=" + v], [b"-a", v], [b"--all=" + v], [b"-a"], [b"-aa"], [b"-a=" + v, b"-a"], [b"-aa=" + v]):
                reqs.append(asks(r, [(97, ty, 0, 0, b"all")], ws, r.choice([CLOSE | MULTI, CLOSE | MULTI, MULTI, CLOSE])))
            if ty not in FLAGS: reqs.append(asks(r, [(97, ty, 1, 0, b"all")], [b"-a", v, b"-a=" + text_for(r, ty), b"--al", text_for(r, ty)], CLOSE | MULTI))
            reqs.append(asks(r, [(MAND, ty, 0, 0, None), (MAYBE, ty, 0, 0, None)], [v, text_for(r, ty)], CLOSE | MULTI))
    for e in ((97, TEXT, 0, 0, 1), (MAND, TEXT, 1, 0, 1), (97, INT, 1, 0, 1), (97, BOOL, 1, 0, 0), (97, INCR, 1, 0, 1)):
        reqs.append(req("args", 5, 0, b"", b"", b"", SIZES, 1, entry(e[0], e[1], e[2], e[3], e[4]), b"-a"))
    NL = re.compile(rb"[\n\0]")
    def shown(t, r):
        return [bytes([e[0], e[1], int(e[2]) | int(e[3]) << 1 | (8 if e[4] is not None else 0) | r.choice([0, 0, 16, 32, 48])]) + (e[4] or b"") for e in t]
    LABELS = [b"", b"f", b"file", b"count-of-things", b"l" * 30, b"c" * 120, b"%s%n", b"two words"]
    for _ in range(150 if quick else 4000):
        t = [e for e in table(r)]
        if r.random() < .4: t = [(ch, r.choice(FLAGS), 0, 0, None) for ch in r.sample(range(48, 123), r.choice([20, 60, 63, 64, 65, 70, 75]))] + t
        if r.random() < .4: t += [(ch, r.choice([TEXT, INT, BOOL_ARG]), 0, 0, None) for ch in r.sample(range(48, 123), r.choice([2, 5, 12, 40]))]
        if r.random() < .2: t += [(r.choice([0, 33]), r.choice(FLAGS + [TEXT, BOOL_ARG]), 0, 0, b"n" * r.choice([1, 9, 20, 25, 26, 27, 28, 29, 30, 31, 40]))]
        reqs.append(req("ausage", r.randrange(8), r.randrange(8), r.choice(LABELS + [b"v" * r.randrange(1, 60)]), *shown(t, r)))
    # the program run by hand: help of every kind, refusals, and lines that pass
    WISHES = [b"--usage", b"--u", b"--help", b"--h", b"-?", b"--usage-short", b"--usage-s", b"--usage-long", b"--usage-l", b"--usage-all", b"--usage-a", b"--version", b"--vers", b"--argv-display", b"--argv-d"]
    for _ in range(400 if quick else 6000):
        t = table(r)
        ws = good(r, t) if r.random() < .75 else line(r, t, r.choice([0, 1, 2, 5]), files=False)
        if r.random() < .6: ws.insert(r.choice([0, len(ws), len(ws), r.randrange(len(ws) + 1)]), r.choice(WISHES + [b"--argv-display"] * 6))
        reqs.append(req("arun", r.choice([CLOSE | MULTI] * 3 + [CLOSE | TOGGLE, MULTI]), r.randrange(7), r.randrange(7), r.choice([3, 5, 64]), r.choice(LABELS), r.choice([b"", b"1.2.3"]), len(t),
                        *shown(t, r), *[NL.sub(b"", w) for w in ws if b"argv-f" not in w and not w.startswith(b"--a=") and not re.fullmatch(rb"--a(r(g(v(-(f(i(le?)?)?)?)?)?)?)?", w)]))
    reqs += [req("adefault")] + [req("atype", k) for k in list(range(70)) + [0x2000 | 5, 0x4000 | 8, 0x4000]]
    c.trace(w, T, reqs, also=build("ahm"))
    # settings from the environment, each read by a process that has read none
    reqs = []
    VALUES = [b"disable", b"off", b"no", b"0", b"enable", b"on", b"yes", b"1", b"none", b"before", b"after", b"see", b"short", b"shortrem", b"long", b"all", b"reject", b"accept"]
    KEYS = [b"close", b"lasttog", b"env", b"error", b"multi", b"usage"]
    for k in KEYS:
        for v in VALUES + [b"", b"On", b"offf", b"2", b"short=", b"=on"]:
            for z in (0, 1): reqs.append(req("asetting", z, z, z, z, 3, z, 3, k + b"=" + v))
    for _ in range(150 if quick else 2000):
        ws = [r.choice(KEYS + [b"closed", b"Env", b"", b"x"]) + r.choice([b"=", b"=", b"=", b"=", b"", b"=="]) + r.choice(VALUES) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]
        reqs.append(req("asetting", *[r.randrange(2) for _ in range(4)], r.randrange(7), r.randrange(2), r.randrange(7), b"".join(w + r.choice([b" ", b",", b":", b"\t", b", ", b" : "]) for w in ws)))
    c.trace(w, T, reqs, label="settings read")

CHECKS = {"P38": p38}
