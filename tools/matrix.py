"""Development only: apply each planted bug to a scratch copy, run a check against it, undo.
matrix.py [--all] [id ...]: with --all every claimed check, otherwise the bug's own property."""
import json, os, subprocess, sys
REPO = os.environ.get("MATRIX_REPO", "/tmp/wt/repo")      # a scratch copy (cp -a /repo)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
cmds = {c["property"]: c["quick_cmd"] for c in man["checks"]}
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if a[0] != "-"] or sorted(os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    subprocess.run(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")], check=True)
    try:
        hit = []
        for p in (sorted(cmds) if every else [prop]):
            if p not in cmds:
                hit.append(p + ":no check")
                continue
            r = subprocess.run(cmds[p], shell=True, cwd=HERE, env=dict(os.environ, VERIF_REPO=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 1 and ("VIOLATION property=" + p).encode() in r.stdout:
                hit.append(p)
            elif r.returncode != 0:
                hit.append("%s:exit %d" % (p, r.returncode))
        print("%-24s %s  %s  caught by: %s" % (i, prop, "caught" if prop in hit else "MISSED", " ".join(hit)), flush=True)
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "--", "."], check=True)
