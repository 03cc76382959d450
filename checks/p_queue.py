"""P21: the single-producer/single-consumer queue."""
from vlib import *
from vbuild import build

T = "T_Queue.tla"


def p21(c, quick):
    qh, qs = build("qh"), build("qs")
    c.models([("QueueMachine.tla", x) for x in (["MC_QueueMachine.cfg", "MC_QueueMachine_4.cfg"] if quick else ["MC_QueueMachine.cfg", "MC_QueueMachine_deep.cfg"])], workers=4)
    r, reqs = c.rng, []
    # every schedule of a few calls with a bounded number of preemptions, from every state of the ring
    for impl in (0, 1, 2):
        for n in (2, 4):
            for turn in range(n):
                for fill in range(n):
                    pre = b"ir" * turn + b"i" * fill
                    for np, nc in ((1, 1), (2, 2)) if quick else ((1, 1), (1, 2), (2, 1), (2, 2), (3, 3)):
                        for null in (0, 1) if np == 1 else (0,):
                            bound = 3 if quick else (4 if np + nc == 2 else 3 if np + nc < 5 else 2)
                            reqs.append(req("queue", impl, n, r.choice([1, 2, 3, 4]) if np + nc > 2 else 2, pre, np, nc, bound, null, 0 if quick else 1 if np + nc > 2 else 2))
        for n, size in ((8, 1), (16, 2), (2, 8), (4, 16), (8, 9)):
            for _ in range(1 if quick else 6):
                pre = bytes(r.choice(b"iiirr") for _ in range(r.randrange(3 * n)))
                reqs.append(req("queue", impl, n, size, pre, r.choice([1, 2, 3]), r.choice([1, 2, 3]), 2 if not quick or size < 4 else 1, 0, 0))
    c.trace(qh, T, reqs, label="scheduled programs", tmo=120, tally="runs")
    # sequential histories: exact contents, results and counts
    reqs = []
    for impl in (0, 1, 2):
        for n in (0, 1, 3, 5, 6, 7, 9, 12, 1000, 65535, 2**30 - 1, 2**30 + 2**29): reqs.append(req("qseq", impl, n, r.choice([1, 4, 8]), b"ir", 0))
        for n in (2, 4, 8, 16, 64, 1024):
            for size in (1, 3, 4, 8, 17, 64) if quick else (1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 64, 100):
                for null in (0, 1):
                    k = min(3 * n, 300)
                    s = b"i" * (n if n <= 64 else 8) + b"r" * (n + 1 if n <= 64 else 4) if null else b""
                    w = r.choice([b"ir", b"iir", b"irr"])
                    s += bytes(r.choice(w) for _ in range(k))
                    if len(s) * size > 6000: s = s[:max(8, 6000 // size)]
                    reqs.append(req("qseq", impl, n, size, s, null))
        for s in ([b"i" * 2000, b"ir" * 1100] if quick else [b"i" * 3000, b"ir" * 2100, b"iir" * 1000]): reqs.append(req("qseq", impl, 1024, 1, s, 1))
        reqs += [req("qhuge", impl, 4, 32768, 0), req("qhuge", impl, 8, 16384, 1), req("qhuge", impl, 2, 65535, 65535)]
    c.trace(qh, T, reqs, label="sequential histories", tmo=60)
    # rings with more elements than a narrow counter holds: runs that fill, empty and go round them
    reqs = []
    for impl in (0, 1, 2):
        for n in (256, 512, 65536, 131072) if quick else (2, 128, 256, 512, 1024, 32768, 65536, 131072, 262144, 1 << 20):
            for _ in range(2 if quick else 6):
                script, inside = [], 0
                for _ in range(r.randrange(6, 14)):
                    kind = r.randrange(2) if 0 < inside < n - 1 else int(inside > 0)
                    most = (n - 1 - inside) if kind == 0 else inside
                    k = r.choice([most, most + 3, max(1, most - 1), r.randrange(1, most + 2), max(1, min(most, 255 + r.randrange(3))), max(1, min(most, 65535 + r.randrange(3)))])
                    inside += min(k, most) if kind == 0 else -min(k, most)
                    script += [kind, k]
                reqs.append(req("qbulk", impl, n, *script))
    c.trace(qh, T, reqs, label="long runs on big rings", tmo=60)
    reqs = []
    for impl in (0, 1, 2):
        for n, size, k in ((2, 3, 20000), (4, 8, 50000), (256, 8, 300000), (16, 100, 50000)):
            reqs.append(req("qstress", impl, n, size, k if quick else 10 * k))
    c.trace(qs, T, reqs, label="real threads", tmo=120, chunks=2)


CHECKS = {"P21": p21}
