"""Build the library and the harnesses from /repo's current working tree, out of tree.

The build lands in a scratch folder keyed by the content of everything compiled, so a
change to any source is always rebuilt and an unchanged tree is not.
"""
import concurrent.futures as cf
import hashlib, os, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")
SAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]
CONFIG_H = """
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#define HAVE_ALLOCA_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_UNISTD_H 1
#define STDC_HEADERS 1
#define VERSION "0"
"""


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode("utf8", "replace"))


def _sources():
    """Library sources: what Makefile.am lists, plus generated tables."""
    mk = open(os.path.join(REPO, "Makefile.am")).read()
    m = re.search(r"wdns_libwdns_la_SOURCES\s*=((?:.*\\\n)*.*\n)", mk)
    names = re.findall(r"[\w./-]+\.c\b", m.group(1)) if m else []
    if not names:
        raise BuildError("no library sources in Makefile.am")
    return names


def _version():
    ac = open(os.path.join(REPO, "configure.ac")).read()
    out = []
    for k in ("major", "minor", "patchlevel"):
        m = re.search(r"m4_define\(\s*\[?(?:wdns_)?%s_version\]?\s*,\s*\[?(\d+)\]?" % k, ac)
        if not m:
            m = re.search(r"%s_version\]?\s*,\s*\[?(\d+)" % k, ac)
        out.append(m.group(1) if m else "0")
    return out


def tree_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for d in ("wdns", "libmy", "examples"):
        for root, dirs, fs in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if not x.startswith(".")]
            for f in fs:
                if f.endswith((".c", ".h", ".in", ".sym")) or f.startswith("gen_"):
                    files.append(os.path.join(root, f))
    files += [os.path.join(REPO, "Makefile.am"), os.path.join(REPO, "configure.ac")]
    skip = {"wdns/wdns.h", "wdns/rcode_to_str.c", "wdns/rrclass_to_str.c", "wdns/rrtype_to_str.c"}
    hd = os.path.join(HERE, "harness")
    for root, dirs, fs in os.walk(hd):
        files += [os.path.join(root, f) for f in fs]
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        if os.path.relpath(f, REPO) in skip:
            continue
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def _prepare(b):
    """Generated headers and tables in b, leaving /repo alone."""
    os.makedirs(b + "/gen/wdns", exist_ok=True)
    open(b + "/gen/config.h", "w").write(CONFIG_H)
    v = _version()
    t = open(os.path.join(REPO, "wdns/wdns.h.in")).read()
    t = t.replace("@WDNS_VERSION@", ".".join(v)).replace("@WDNS_MAJOR_VERSION@", v[0])
    t = t.replace("@WDNS_MINOR_VERSION@", v[1]).replace("@WDNS_PATCHLEVEL_VERSION@", v[2])
    open(b + "/gen/wdns/wdns.h", "w").write(t)
    open(b + "/gen/wdns.h", "w").write(t)
    for n in ("rcode_to_str", "rrclass_to_str", "rrtype_to_str"):
        _run([sys.executable, os.path.join(REPO, "wdns/gen_" + n), b + "/gen/wdns/wdns.h",
              b + "/gen/wdns/" + n + ".c"])


def _mirror(b):
    """A copy of wdns/ and libmy/ in the build folder, with the generated files in place, so
    that an out-of-date wdns.h or table left in /repo by an earlier build cannot be used."""
    for d in ("wdns", "libmy", "examples"):
        dst = b + "/src/" + d
        os.makedirs(dst, exist_ok=True)
        for f in os.listdir(os.path.join(REPO, d)):
            p = os.path.join(REPO, d, f)
            if os.path.isfile(p) and f.endswith((".c", ".h")):
                shutil.copyfile(p, dst + "/" + f)
    for f in ("wdns.h", "rcode_to_str.c", "rrclass_to_str.c", "rrtype_to_str.c"):
        shutil.copyfile(b + "/gen/wdns/" + f, b + "/src/wdns/" + f)


def _compile_many(jobs):
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in cf.as_completed([ex.submit(_run, j) for j in jobs]):
            f.result()


def build(target):
    """target: a harness name; returns the path of its binary."""
    spec = TARGETS[target]
    cc = spec.get("cc", "gcc")
    key = tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, key, target)
    if os.path.exists(out):
        return out
    # drop builds of other trees
    keep = os.path.join(BUILD, key)
    olds = sorted((d for d in os.listdir(BUILD) if d != key),
                  key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for old in olds[:-5]:
        shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    b = tempfile.mkdtemp(prefix="vb.", dir=BUILD)
    try:
        _prepare(b)
        _mirror(b)
        flags = spec.get("flags", SAN)
        inc = ["-I" + b + "/src", "-I" + b + "/gen", "-I" + b + "/src/wdns", "-I" + b + "/src/libmy", "-I" + os.path.join(HERE, "harness")]
        objs, jobs = [], []
        if spec.get("lib"):
            os.makedirs(b + "/obj")
            for s in _sources():
                o = b + "/obj/" + s.replace("/", "_")[:-2] + ".o"
                jobs.append([cc, *flags, "-w", "-include", b + "/gen/config.h", *inc,
                             "-include", b + "/src/wdns/wdns-private.h", "-c", b + "/src/" + s, "-o", o])
                objs.append(o)
        for s in spec["src"]:
            p = os.path.join(HERE, "harness", s)
            o = b + "/h_" + s.replace("/", "_") + ".o"
            jobs.append([cc, *flags, "-w", *spec.get("defs", []), "-include", b + "/gen/config.h", *inc, "-c", p, "-o", o])
            objs.append(o)
        for s in spec.get("my", []):
            o = b + "/m_" + s + ".o"
            pre = ["-include", b + "/src/wdns/wdns-private.h"] if "libmy/" + s in _sources() else ["-include", "stdbool.h"]
            jobs.append([cc, *flags, "-w", *spec.get("mydefs", []), *spec.get("files", {}).get(s, []), "-include", b + "/gen/config.h", *inc, *pre,
                         "-c", b + "/src/libmy/" + s, "-o", o])
            objs.append(o)
        for s in spec.get("mysrc", []):      # harness files that take in library sources
            o = b + "/n_" + s + ".o"
            jobs.append([cc, *flags, "-w", *spec.get("mydefs", []), "-include", b + "/gen/config.h", *inc, "-include", "stdbool.h",
                         "-c", os.path.join(HERE, "harness", s), "-o", o])
            objs.append(o)
        for name, files in spec.get("tools", {}).items():      # whole programs, each behind a name of its own
            for f in files:
                jobs.append([cc, *flags, "-w", "-include", "alloca.h", "-include", b + "/gen/config.h", *inc, *spec.get("tooldefs", []),
                             "-c", b + "/src/examples/" + f, "-o", b + "/t_" + name + "_" + f + ".o"])
        _compile_many(jobs)
        for name, files in spec.get("tools", {}).items():
            o = b + "/" + name + ".tool.o"
            _run(["ld", "-r", "-o", o, *[b + "/t_" + name + "_" + f + ".o" for f in files]])
            _run(["objcopy", "--redefine-sym", "main=" + name, o])
            _run(["objcopy", "--keep-global-symbol=" + name, o])
            objs.append(o)
        _run([cc, *flags, "-o", b + "/" + target, *objs, "-lpthread", *spec.get("libs", [])])
        os.makedirs(keep, exist_ok=True)
        os.replace(b + "/" + target, out)
    finally:
        shutil.rmtree(b, ignore_errors=True)
    return out


MY = ["fast_inet_ntop.c", "my_format.c", "b64_encode.c", "b64_decode.c", "b32_encode.c", "b32_decode.c", "varint.c",
      "crc32c.c", "crc32c-slicing.c", "crc32c-sse42.c", "heap.c", "my_fileset.c"]
SPOOL = ["-D%s=sp_%s" % (f, f) for f in ("rename", "renameat", "unlink", "link", "usleep", "fstatat")] + ["-include", "stdio.h", "-include", "unistd.h", "-include", "sys/stat.h", "-include", "fcntl.h"]
INLOCK = ["-D_GNU_SOURCE", "-include", "pthread.h"] + ["-Dpthread_mutex_%s=in_%s" % (f, f) for f in ("lock", "trylock", "unlock")]
UNDEF = {"cc": "clang", "flags": ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins",
                                    "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types"]}      # reads of undefined memory
TARGETS = {
    "wh": {"lib": True, "src": ["wh.c"]},
    "whm": {"lib": True, "src": ["wh.c"], **UNDEF},
    "qh": {"src": ["qh.c"], "flags": ["-g", "-O1"], "my": ["my_queue_mb.c", "my_queue_mutex.c"], "mysrc": ["q_default.c"],
           "mydefs": ["-fsanitize=thread", "-fno-builtin", "-include", os.path.join(HERE, "harness", "qhook.h")]},
    "qs": {"src": ["qs.c"], "flags": ["-g", "-O2"], "my": ["my_queue_mb.c", "my_queue_mutex.c"], "mysrc": ["q_default.c"]},
    "mh": {"src": ["mh.c"], "my": MY},
    "mhm": {"src": ["mh.c"], "my": MY, **UNDEF},
    "uh": {"src": ["uh.c", "rt_clock.c"], "mysrc": ["rt_absolute.c", "rt_relative.c"], "libs": ["-lm"], "my": ["lookup3.c", "threadnum.c", "spooldir.c"],
           "files": {"spooldir.c": SPOOL + INLOCK, "threadnum.c": INLOCK + ["-fno-sanitize=all", "-fsanitize=thread"]}},
    "uhm": {"src": ["uh.c", "rt_clock.c"], "mysrc": ["rt_absolute.c", "rt_relative.c"], "libs": ["-lm"], "my": ["lookup3.c", "threadnum.c", "spooldir.c"],
            "files": {"spooldir.c": SPOOL + INLOCK, "threadnum.c": INLOCK}, **UNDEF},
    "ah": {"src": ["ah.c"], "my": ["argv.c"]},
    "ahm": {"src": ["ah.c"], "my": ["argv.c"], **UNDEF},
    "zh": {"src": ["zh.c"], "my": ["zonefile.c"]},
    "zhm": {"src": ["zh.c"], "my": ["zonefile.c"], **UNDEF},
    "th": {"lib": True, "src": ["th.c"], "libs": ["-lpcap"],
           "tooldefs": ["-Dpcap_loop=th_pcap_loop", "-Dpcap_dispatch=th_pcap_dispatch"],
           "tools": {"t_dump_file": ["wdns-dump-file.c"], "t_dump_pcap": ["wdns-dump-pcap.c"], "t_version": ["wdns-print-version.c"],
                     **{"t_" + k: ["wdns-hex-driver.c", "wdns-test-%s.c" % v] for k, v in
                        (("print", "print-message"), ("serialize", "serialize-rrset"), ("deserialize", "deserialize-rrset"), ("downcase", "downcase-rrset"))}}},
}

if __name__ == "__main__":
    for t in sys.argv[1:] or TARGETS:
        print(build(t))
