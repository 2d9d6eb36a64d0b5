#!/usr/bin/env python3
"""Mechanical planting of bugs: campaign.py test MUTANTS SURVIVORS W keeps the
mutants that compile and pass the existing tests; campaign.py check SURVIVORS
RESULTS W runs the quick checks of the changed file's properties against each.
All work happens in copies of /repo under /tmp/mc."""
import concurrent.futures as cf
import json, os, queue, subprocess, sys, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
FILES = {}
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    for f in p["anchors"]["files"]:
        FILES.setdefault(f, []).append(p["id"])
EXTRA = {"types/types.go": ["C06", "C26"], "tree/util.go": ["C26", "C06", "C10"], "types/util.go": ["C20", "C19", "C06", "C26", "C10"]}


def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen("ulimit -v 25000000; " + cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -1, out


def copies(n):
    q = queue.Queue()
    os.makedirs("/tmp/mc", exist_ok=True)
    for i in range(n):
        d = "/tmp/mc/%s%d" % (sys.argv[1], i)
        if not os.path.exists(d):
            subprocess.check_call(["git", "clone", "-q", "/repo", d])
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=d)
        q.put(d)
    return q


def apply(d, m):
    rel = os.path.relpath(m["file"], "/repo")
    p = os.path.join(d, rel)
    s = open("/repo/" + rel, "rb").read()
    assert s[m["off"]:m["off"] + m["len"]] == m["old"].encode(), m
    open(p, "wb").write(s[:m["off"]] + m["new"].encode() + s[m["off"] + m["len"]:])
    return p, s


def each(items, n, fn, out):
    q, lock = copies(n), threading.Lock()
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["id"] for x in open(out)}
    f = open(out, "a")

    def one(m):
        d = q.get()
        p = s = None
        try:
            p, s = apply(d, m)
            r = fn(d, m)
        except Exception as e:
            r = dict(error=str(e))
        finally:
            if p:
                open(p, "wb").write(s)
            q.put(d)
        with lock:
            f.write(json.dumps(dict(m, **r)) + "\n")
            f.flush()
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, [m for m in items if m["id"] not in done]))


def test(d, m):
    rel = os.path.dirname(os.path.relpath(m["file"], "/repo"))
    if sh("go build ./...", d, 120)[0] != 0:
        return dict(alive=False, why="build")
    if sh("go test -vet=off -count=1 -timeout 40s ./" + rel, d, 60)[0] != 0:
        return dict(alive=False, why="test")
    if sh("go test -vet=off -timeout 40s ./...", d, 100)[0] != 0:
        return dict(alive=False, why="tests")
    return dict(alive=True)


def check(d, m):
    rel = os.path.relpath(m["file"], "/repo")
    res = {}
    for pid in EXTRA.get(rel) or FILES.get(rel, []):
        code, out = sh("bin/check %s quick" % pid, ROOT, 900, dict(ENV, VERIF_REPO=d, VERIF_JOBS=os.environ.get("VERIF_JOBS", "4")))
        res[pid] = code
        if code == 1:
            break
        if code != 0:
            res["out"] = out[-600:]
    return dict(res=res)


what, src, out, n = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
items = [json.loads(x) for x in open(src)]
for m in items:
    m["id"] = "%s:%d:%d:%s" % (m["file"], m["off"], m["len"], m["new"])
seen, uniq = set(), []
for m in items:
    if m["id"] not in seen and m.get("alive", True):
        seen.add(m["id"])
        uniq.append(m)
if what == "test":
    import random
    random.Random(1).shuffle(uniq)
each(uniq, n, {"test": test, "check": check}[what], out)
