"""Shared by the checks: running harnesses, TLC, evidence and verdicts."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, time
import vbuild

HERE = vbuild.HERE
SPEC = os.path.join(HERE, "spec")
WORK = os.path.join(HERE, "work")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Machinery(Exception):
    """The machinery itself failed: neither held nor violated."""


def hx(b):
    return "x" + bytes(b).hex()


def req(op, *args):
    return op + "".join(" " + (str(a) if isinstance(a, int) else hx(a)) for a in args)


def parse_req(line):
    t = line.split()
    return t[0], [list(bytes.fromhex(x[1:])) if x[0] == "x" else int(x) for x in t[1:]]


# ------------------------------------------------------------------ harness

MAX_CRASH = 12


def run_harness(binary, reqs, outpath, tmo=10):
    """Run the requests; every request leaves exactly one event in outpath.  A request that kills
    the process leaves a crash event.  Returns the crash reports."""
    rq = outpath + ".req"
    with open(rq, "w") as f:
        f.write("".join(r + "\n" for r in reqs))
    open(outpath, "w").close()
    done, crashes = 0, []
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=70000",
               LC_ALL="C", MSAN_OPTIONS="exitcode=66:poison_in_malloc=1", TSAN_OPTIONS="halt_on_error=1 exitcode=66")
    skipped, patience, doubted, sure = 0, 1, -1, False
    while done < len(reqs):
        p = subprocess.run([binary, rq, outpath, str(done), str(tmo * patience)], stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, env=env, cwd=os.path.dirname(outpath))
        with open(outpath, "rb") as f:
            data = f.read()
        if data and not data.endswith(b"\n"):
            data = data[:data.rfind(b"\n") + 1]
            with open(outpath, "wb") as f:
                f.write(data)
        n = data.count(b"\n")
        if p.returncode == 0:
            if n != len(reqs):
                raise Machinery("harness wrote %d of %d events" % (n, len(reqs)))
            break
        if p.returncode in (98, 99):
            raise Machinery("harness: " + p.stderr.decode("utf8", "replace")[-500:])
        if p.returncode in (77, -9) and doubted != n and not sure:      # a busy machine is slow, or ends what it likes: ask once more
            done, patience, doubted = n, 3 if tmo <= 10 else 1, n
            continue
        sure, patience = sure or p.returncode in (77, -9), 1
        op, a = parse_req(reqs[n])
        err = p.stderr.decode("utf8", "replace")
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|[^\n]*Assertion[^\n]*|ERROR: unhandled[^\n]*)", err)
        why = "no answer within %ds" % tmo if p.returncode == 77 else (m.group(1) if m else "exit status %d" % p.returncode)
        fr = re.search(r"#\d+ 0x\w+ in (wdns_\w+|_wdns_\w+|my_\w+|fast_\w+|base\w+|heap\w+|varint\w+|[a-z_]+ \S*/src/\S+)[^\n]*", err)
        crashes.append((reqs[n], why + (" @ " + fr.group(1) if fr else "")))
        with open(outpath, "a") as f:
            f.write(json.dumps({"i": n, "op": op, "a": a, "r": {"res": -1}, "leak": 0, "crash": 1}) + "\n")
        done = n + 1
        if len(crashes) >= MAX_CRASH or tmo * sum(w.startswith("no answer") for _, w in crashes) >= 150:
            skipped = len(reqs) - done
            break
    return crashes, skipped


# ---------------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workers=1, timeout=850, heap="2g", extra=(), deadlock=False):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=WORK)
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss256m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module)]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=meta, timeout=timeout)
        out = p.stdout.decode("utf8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        raise Machinery("TLC %s: no answer in %ds" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states", out)
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"rc": rc, "out": out, "generated": st[0], "distinct": st[1], "wall": time.time() - t0}


def tlc_model(module, cfg, **kw):
    """Model-check a configuration of the specification itself; it must hold."""
    r = tlc(module, cfg, **kw)
    if r["rc"] != 0:
        raise Machinery("the model %s/%s does not hold:\n%s" % (module, cfg, r["out"][-3000:]))
    if r["distinct"] == 0:
        raise Machinery("the model %s/%s explored nothing" % (module, cfg))
    return r


def tlc_gen(module, cfg, outname, **kw):
    """Let TLC write vectors (ndjson) derived from the specification; returns (records, run)."""
    out = outname
    if os.path.exists(out):
        os.remove(out)
    r = tlc(module, cfg, env={"OUT": out, **kw.pop("env", {})}, **kw)
    if r["rc"] != 0 or not os.path.exists(out):
        raise Machinery("vector generation %s failed:\n%s" % (module, r["out"][-3000:]))
    recs = [json.loads(x) for x in open(out)]
    os.remove(out)
    return recs, r


def validate(module, trace):
    """Validate one recorded trace; returns (events, rejected line numbers, run)."""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return 0, [], {"generated": 0, "distinct": 0}
    r = tlc(module, module.replace(".tla", ".cfg"), env={"TRACE": trace})
    m = re.search(r'<<\s*"TRACE-DONE",\s*(\d+),\s*<<([\d,\s]*)>>\s*>>', r["out"])
    if r["rc"] != 0 or not m or int(m.group(1)) != n:
        if "Finished computing initial states" not in r["out"] and "initial state" not in r["out"]:
            raise Machinery("trace validation by %s gave no verdict:\n%s" % (module, r["out"][:2500] + "\n...\n" + r["out"][-1500:]))
        return senseless(module, trace, n, r)
    if r["distinct"] != n + 1:
        raise Machinery("trace validation by %s took %d steps for %d events" % (module, r["distinct"] - 1, n))
    rej = [int(x) for x in m.group(2).replace("\n", " ").split(",") if x.strip()]
    return n, rej, r


def senseless(module, trace, n, r):
    """The specification cannot even be evaluated on some event (a result of a shape no correct call has): find such events, which it
    allows no more than those it rejects."""
    if n == 1:
        return 1, [1], {"generated": 1, "distinct": 1}
    lines, rej, out = open(trace).read().splitlines(True), [], {"generated": 0, "distinct": 0}
    for lo, hi in ((0, n // 2), (n // 2, n)):
        half = "%s.%d" % (trace, lo)
        with open(half, "w") as f:
            f.writelines(lines[lo:hi])
        try:
            _, rj, q = validate(module, half)
        finally:
            os.remove(half)
        rej += [lo + k for k in rj]
        out = {k: out[k] + q[k] for k in out}
        if rej:
            break               # one is enough
    return n, rej, out


def show(ev, n=600):
    def f(x):
        if isinstance(x, list) and x and all(isinstance(y, int) and 0 <= y < 256 for y in x):
            b = bytes(x)
            if all(32 <= c < 127 for c in b) and len(b) > 1:
                return repr(b.decode())
            return "x" + b.hex()
        if isinstance(x, list):
            return "[" + " ".join(f(y) for y in x) + "]"
        if isinstance(x, dict):
            return "{" + " ".join("%s=%s" % (k, f(v)) for k, v in x.items()) + "}"
        return str(x)
    s = "%s(%s) -> %s leak=%s crash=%s" % (ev["op"], ", ".join(f(a) for a in ev["a"]), f(ev["r"]), ev["leak"], ev["crash"])
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------- a check

class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.replayed = 0
        self.cov = {}
        self.samples, self.viol, self.known_hits = [], [], []
        self.assumptions = []
        self.rng = random.Random("%s/%d" % (prop, SEED))
        os.makedirs(WORK, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + ".", dir=WORK)
        self.known = load_known(prop)

    # -- layer 1
    def model(self, module, cfg, **kw):
        r = tlc_model(module, cfg, **kw)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        if os.environ.get("VERIF_TIME"):
            print("  model %s %.1fs" % (cfg, r["wall"]))
        self.cov.setdefault("models", []).append(
            {"module": module, "config": cfg, "states": r["distinct"], "generated": r["generated"], "wall_s": round(r["wall"], 1)})

    def models(self, pairs, **kw):
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            for f in [ex.submit(self.model, m, c, **kw) for m, c in pairs]:
                f.result()

    # -- layer 2: vectors predicted by the specification, replayed in the code
    def gen(self, module, name, cfg="G.cfg", **env):
        recs, r = tlc_gen(module, cfg, os.path.join(self.dir, name + ".gen"), env={k: str(v) for k, v in env.items()})
        self.states += r["distinct"]
        return recs

    def replay(self, binary, vecs, tmo=10, label="vectors", keys=None):
        """vecs: [{op, a, r}] from the specification; r.res = -2 means any refusal.  keys: the fields of a result that count here."""
        reqs = [req(v["op"], *[bytes(x) if isinstance(x, list) else x for x in v["a"]]) for v in vecs]
        for path, idx in self._run(binary, reqs, label, tmo):
            for line in open(path):
                ev = json.loads(line)
                exp = vecs[idx[ev["i"]]]["r"]
                self.replayed += 1
                good = (1 <= ev["r"].get("res", 0) <= 15 and len(ev["r"]) == 1) if exp.get("res") == -2 else ev["r"] == exp if keys is None \
                    else ev["r"].get("res") == exp["res"] and (exp["res"] != 0 or all(ev["r"][k] == exp[k] for k in keys))
                if ev["crash"] or ev["leak"] or not good:
                    self._violation(reqs[idx[ev["i"]]], ev, "the specification says " + json.dumps(exp)[:300])
            self._rm(path)
        self.cov[label] = self.cov.get(label, 0) + len(vecs)

    # -- layer 3: traces of the code, validated by the specification
    def trace(self, binary, module, reqs, label="trace events", tmo=10, chunks=None, tally=None, also=None):
        """also: another build of the same code; of its events those that differ from the first build's are validated too"""
        outs = self._run(binary, reqs, label, tmo, chunks)
        if also:
            more = self._run(also, reqs, label + " again", tmo, len(outs))
            for (p, _), (q, _) in zip(outs, more):
                with open(p) as f, open(q) as g:
                    diff = [y for x, y in zip(f, g) if x != y]
                self.cov["events_repeated_on_a_second_build"] = self.cov.get("events_repeated_on_a_second_build", 0) + len(reqs) // len(outs)
                self._rm(q)
                if diff:
                    with open(p, "a") as f:
                        f.writelines(diff)
        sel = self.rng.sample(range(len(outs)), min(2, len(outs)))
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            futs = [ex.submit(validate, module, p) for p, _ in outs]
            for (path, idx), f in zip(outs, futs):
                n, rej, r = f.result()
                if tally:
                    k = sum(int(x) for x in re.findall(r'"%s":(\d+)' % tally, open(path).read()))
                    self.cov[tally] = self.cov.get(tally, 0) + k
                if os.environ.get("VERIF_TIME"):
                    print("  chunk %d events %.1fs" % (n, r.get("wall", 0)))
                self.states += r["distinct"]
                self.transitions += r["generated"]
                self.traces += n
                self.cov["trace_chunks"] = self.cov.get("trace_chunks", 0) + 1
                evs = None
                if rej or len(self.samples) < 6:
                    evs = [json.loads(x) for x in open(path)]
                    for e in self.rng.sample(evs, min(2, len(evs))):
                        if len(self.samples) < 6:
                            self.samples.append(show(e, 300))
                for k in rej:
                    e = evs[k - 1]
                    self._violation(reqs[idx[e["i"]]], e, "the specification allows no such step")
                self._rm(path)
        self.cov[label] = self.cov.get(label, 0) + len(reqs)

    def _rm(self, path):
        for p in (path, path + ".req"):
            if os.path.exists(p):
                os.remove(p)

    def _run(self, binary, reqs, label, tmo, chunks=None):
        """Spread requests over processes (heavy ones evenly); returns [(trace path, original indexes)]."""
        n = chunks or max(1, min(NCPU, len(reqs) // 40 or 1))
        order = list(range(len(reqs)))
        parts = [order[i::n] for i in range(n)]
        paths = [os.path.join(self.dir, "%s.%d.ndjson" % (re.sub(r"\W+", "_", label), i)) for i in range(n)]
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            res = list(ex.map(lambda pi: run_harness(binary, [reqs[j] for j in parts[pi]], paths[pi], tmo), range(n)))
        self.crash_why = getattr(self, "crash_why", {})
        for (crashes, skipped) in res:
            for rq, why in crashes:
                self.crash_why[rq] = why
            if skipped:
                self.cov["events_skipped_after_crashes"] = self.cov.get("events_skipped_after_crashes", 0) + skipped
        return list(zip(paths, parts))

    def _violation(self, rq, ev, why):
        text = show(ev)
        if ev["crash"]:
            why = self.crash_why.get(rq, why)
        for k in self.known:
            if k["request"] == rq.strip():
                self.known_hits.append(k)
                return
        self.viol.append((rq, text, why))

    def fail(self, rq, text, why):
        for k in self.known:
            if k["request"] == rq.strip():
                self.known_hits.append(k)
                return
        self.viol.append((rq, text, why))

    def finish(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces + self.replayed,
               "recorded_events_validated": self.traces, "spec_vectors_replayed": self.replayed,
               "samples": self.samples or ["(none)"], **self.cov}
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        seen = set()
        for k in self.known_hits:
            if k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.viol:
            path = os.path.join(rdir, self.prop + ".txt")
            with open(path, "w") as f:
                f.write("# requests (harness input), the recorded event, and why it is rejected\n")
                for rq, text, why in self.viol[:50]:
                    f.write("request: %s\nevent:   %s\nwhy:     %s\n\n" % (rq[:20000], text, why))
            for rq, text, why in self.viol[:5]:
                print("  rejected: %s\n    (%s)" % (text, why))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s %s: held; %d model states, %d events validated, %d vectors replayed, %.1fs" %
              (self.prop, self.tier, self.states, self.traces, self.replayed, time.time() - self.t0))
        return 0


def load_known(prop):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            k = json.loads(line)
            if k["property"] == prop:
                out.append(k)
    return out
