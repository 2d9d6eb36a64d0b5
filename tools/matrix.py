#!/usr/bin/env python3
"""matrix.py OUT.jsonl [SEED...]: the quick check of every property on /repo, then on
a copy with each planted bug; one line per run. matrix.py --table OUT.jsonl prints
the tables of DESIGN.md. Not used by any check."""
import json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table(path):
    rows = [json.loads(x) for x in open(path)]
    clean, bugs = {}, {}
    for r in rows:
        if r["bug"] is None:
            clean.setdefault(r["property"], []).append(r)
        else:
            bugs.setdefault(r["property"], {}).setdefault(r["bug"], []).append(r)
    seeds = sorted({r["seed"] for r in rows if r["bug"]})
    print("Quick tier, seeds %s for planted bugs.\n" % ", ".join(map(str, seeds)))
    print("| property | unchanged tree | seconds | caught (runs with violation / runs) | not caught on some seed |\n|---|---|---|---|---|")
    for p in sorted(clean):
        c, ok, bad = clean[p], [], []
        for b, rs in sorted(bugs.get(p, {}).items()):
            k = sum(r["code"] == 1 for r in rs)
            (ok if k == len(rs) else bad).append("%s %d/%d" % (b, k, len(rs)))
        print("| %s | %s | %s | %s | %s |" % (p, ", ".join(sorted({"exit %d" % r["code"] for r in c})),
              "-".join(sorted({"%d" % r["secs"] for r in c}, key=int)[::max(1, len(c) - 1)]), ", ".join(ok), ", ".join(bad) or ""))


def run(out, prop, bug, seed, repo):
    t = time.time()
    r = subprocess.run([ROOT + "/bin/check", prop, "quick"], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=str(seed)))
    out.write(json.dumps(dict(property=prop, bug=bug, seed=seed, code=r.returncode, secs=round(time.time() - t),
                              tail="" if r.returncode == 1 else r.stdout[-400:])) + "\n")
    out.flush()


if sys.argv[1] == "--table":
    table(sys.argv[2])
    sys.exit()
seeds = [int(x) for x in sys.argv[2:]] or [1]
d = tempfile.mkdtemp(prefix="matrix-")
try:
    repo = d + "/r"
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    with open(sys.argv[1], "w") as out:
        for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]:
            run(out, c["property"], None, seeds[0], repo)
        for s in seeds:
            for b in sorted(os.listdir(ROOT + "/seeded")):
                subprocess.check_call(["git", "apply", "%s/seeded/%s/patch.diff" % (ROOT, b)], cwd=repo)
                run(out, json.load(open("%s/seeded/%s/meta.json" % (ROOT, b)))["property"], b, s, repo)
                subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=repo)
                subprocess.check_call(["git", "clean", "-qfd"], cwd=repo)
finally:
    shutil.rmtree(d)
