"""Input generators shared by the checks: boundary-rich and seeded."""
import random, struct


def u16(n): return struct.pack(">H", n & 0xffff)
def u32(n): return struct.pack(">I", n & 0xffffffff)


LABEL_LENS = [1, 1, 1, 2, 2, 3, 4, 7, 15, 31, 62, 63]
SPECIAL = [0, 1, 9, 10, 13, 31, 32, 33, 34, 36, 40, 41, 44, 46, 47, 48, 57, 58, 59, 64, 65, 90, 91, 92, 93, 96, 97, 122, 123, 126, 127, 128, 159, 160, 191, 192, 193, 223, 224, 254, 255]


def octets(r, n, mode=None):
    m = mode if mode is not None else r.randrange(5)
    if m == 0: return bytes(r.randrange(256) for _ in range(n))
    if m == 1: return bytes(r.choice(SPECIAL) for _ in range(n))
    if m == 2: return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz0123456789-_") for _ in range(n))
    if m == 3: return bytes(r.choice(b"aAbBzZ@[`{.\\") for _ in range(n))
    return bytes([r.randrange(256)]) * n


def labels(r, maxlen=255, small=False):
    out, tot = [], 1
    k = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 127] if not small else [0, 1, 1, 2, 2, 3])
    for _ in range(k):
        n = r.choice(LABEL_LENS if not small else [1, 1, 2, 3, 5])
        if k == 127: n = 1
        if tot + 1 + n > maxlen: break
        out.append(octets(r, n))
        tot += 1 + n
    return out


def wire(ls): return b"".join(bytes([len(l)]) + l for l in ls) + b"\0"


def name(r, small=False): return wire(labels(r, small=small))


def exact_name(r, total):
    """a valid name of exactly `total` octets (1, or 3..255)"""
    ls, left = [], total - 1
    while left:
        n = min(left - 1, r.choice([63, 63, 62, 31, 1]))
        if left - 1 - n == 1: n -= 1 if n > 1 else -1
        n = max(1, min(63, n))
        ls.append(octets(r, n))
        left -= n + 1
    return wire(ls)


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(6)
        if k == 0 and b: del b[r.randrange(len(b)):]
        elif k == 1 and b: b[r.randrange(len(b))] = r.choice(SPECIAL)
        elif k == 2 and b: b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        elif k == 3: b.insert(r.randrange(len(b) + 1), r.choice(SPECIAL))
        elif k == 4 and b: del b[r.randrange(len(b))]
        elif b:
            i = r.randrange(len(b)); b[i] = (b[i] + r.choice([1, -1, 2, 63, 64])) & 255
    return bytes(b)


def compressed(r, big=False):
    """a buffer full of labels, roots and (mostly backward) pointers, and the positions worth reading"""
    b = bytearray(octets(r, r.choice([0, 1, 2, 12, 12, 12]) if not big else r.choice([255, 256, 257, 12, 16380])))
    starts = []
    for _ in range(r.choice([1, 2, 3, 4, 6, 10])):
        starts.append(len(b))
        for l in labels(r, small=r.random() < .6):
            starts.append(len(b))
            b += bytes([len(l)]) + l
        k = r.randrange(12)
        if k < 5 and len(b) < 16384:
            t = r.choice(starts)
            if r.random() < .3: t = r.randrange(len(b) + 1) if len(b) < 16383 else t
            if r.random() < .15: t = len(b) + r.choice([-1, 0, 1, 2])
            t = max(0, min(16383, t))
            starts.append(len(b))
            b += bytes([192 | t >> 8, t & 255])
        elif k < 10: b.append(0)
        elif k == 10: b.append(r.choice([64, 65, 127, 128, 191, 192, 255]))
    if r.random() < .15: b = bytearray(mutate(r, b))
    if len(b) and r.random() < .2: del b[r.randrange(len(b)):]
    return bytes(b), [s for s in starts if s <= len(b)]


def tweak(r, ls):
    """a label sequence that differs from `ls` in one small way (one octet, one bit, letter case, one cut moved)"""
    ls = [bytes(l) for l in ls]
    if not ls: return [r.choice([b"a", b"\0"])]
    i = r.choice([0, len(ls) - 1, r.randrange(len(ls))])
    l = bytearray(ls[i])
    k, j = r.randrange(6), r.choice([0, len(l) - 1, r.randrange(len(l))])
    if k < 2: l[j] ^= 1 << r.randrange(8)
    elif k == 2: l[j] ^= 32
    elif k == 3: l[j] = r.choice(SPECIAL)
    elif k == 4 and len(l) > 2:                 # two labels whose wire form is the one label's but for the length octets
        m = r.randrange(1, len(l) - 1)
        return ls[:i] + [bytes(l[:m]), bytes(l[m + 1:])] + ls[i + 1:]
    elif k == 5 and len(l) < 63 and sum(map(len, ls)) + len(ls) < 253: l.insert(j, r.choice(SPECIAL))
    return ls[:i] + [bytes(l)] + ls[i + 1:]


def salted(r, small=True):
    """labels with zero octets inside, so that comparisons that stop at one show"""
    return [bytes(b if r.random() < .6 else 0 for b in l) for l in labels(r, small=small)]
