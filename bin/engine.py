"""Runs the model-based checks: TLC on the specifications, the Go driver on the
real code, and the confirmation of every disagreement in a fresh process."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")  # elsewhere only while trying out planted bugs
GOENV = {"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off"}
TLA = "/opt/veriftools/tla"
EXIT_VIOL, EXIT_HANG = 10, 11


class CheckError(Exception):
    """The check could not reach a verdict."""


class Violation(Exception):
    def __init__(self, replay, what):
        super().__init__(what)
        self.replay, self.what = replay, what


class Skipped(Exception):
    """Not started because another task has already found a violation."""


class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.n = 0
        self.states = self.transitions = self.traces = self.calls = 0
        self.exhaustive = True
        self.samples, self.parts = [], []
        self.exes = {}
        self.procs = set()
        self.t0 = time.time()

    def dir(self, tag):
        with self.lock:
            self.n += 1
            d = os.path.join(self.scratch, "%03d-%s" % (self.n, re.sub(r"\W+", "_", tag)[:40]))
        os.makedirs(d)
        return d

    def part(self, **kw):
        with self.lock:
            self.parts.append(kw)

    def sample(self, x):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(x)

    # ---- processes
    def run(self, cmd, timeout, env=None, mem_gb=None, cwd=None):
        """Returns (exit code or None on timeout, output)."""
        if self.stop.is_set():
            raise Skipped()
        e = dict(os.environ)
        e.update(GOENV)
        e.update(env or {})

        def lim():
            os.setpgrp()
            if mem_gb:
                resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, preexec_fn=lim,
                             cwd=cwd or self.scratch)
        with self.lock:
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
            code = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            out, _ = p.communicate()
            code = None
        finally:
            with self.lock:
                self.procs.discard(p)
        return code, out.decode(errors="replace")

    def build(self, race=False):
        """race: False, True, or "yield" for a race build of copies of the
        concurrent packages that have a scheduling point before each statement."""
        exe = os.path.join(self.scratch, "vdrv-%s" % race)
        cmd = ["go", "build", "-o", exe] + (["-race"] if race else [])
        if REPO != "/repo":
            mod = os.path.join(self.scratch, "go.mod")
            with open(os.path.join(ROOT, "harness", "go.mod")) as f, open(mod, "w") as g:
                g.write(f.read().replace("=> /repo", "=> " + REPO))
            cmd += ["-modfile", mod]
        if race == "yield":
            d = self.dir("yield")
            code, out = self.run([self.exes[False], "yieldgen", d, REPO + "/pool", REPO + "/rand"], 60)
            if code != 0:
                raise CheckError("cannot instrument: " + out[-3000:])
            cmd += ["-tags", "verifyield", "-overlay", os.path.join(d, "overlay.json")]
        code, out = self.run(cmd + ["."], 600, cwd=os.path.join(ROOT, "harness"))
        if code != 0:
            raise CheckError("cannot build the driver from /repo:\n" + out[-3000:])
        self.exes[race] = exe

    def driver(self, args, timeout, race=False, procs=2):
        env = {"GOMAXPROCS": str(procs), "GORACE": "halt_on_error=0 exitcode=66"}
        if not race:
            env["GOMEMLIMIT"] = "6GiB"
        return self.run([self.exes[race]] + [str(a) for a in args], timeout, env=env,
                        mem_gb=None if race else 14)

    # ---- TLC
    def tlc(self, module, cfg, d, env=None, timeout=600, heap="3g", workers=1):
        cfgf = os.path.join(d, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        e = dict(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xmx" + heap, "-Xss32m", "-Djava.io.tmpdir=" + d,
               "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-config", cfgf, "-metadir", os.path.join(d, "md"),
               os.path.join(SPEC, module + ".tla")]
        code, out = self.run(cmd, timeout, env=e, cwd=d)
        gen = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if code is None:
            raise CheckError("TLC timed out on " + module)
        return code, out, (int(gen.group(1)), int(gen.group(2))) if gen else (0, 0)


def cfg(spec="Spec", consts=None, invariants=(), properties=(), view=None, actc=None, constraint=None, post=None,
        symmetry=None):
    s = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if consts:
        s.append("CONSTANTS")
        for k, v in consts.items():
            if v is True or v is False:
                v = str(v).upper()
            s.append("  %s <- %s" % (k, v[2:]) if str(v).startswith("<-") else "  %s = %s" % (k, v))
    for i in invariants:
        s.append("INVARIANT " + i)
    for i in properties:
        s.append("PROPERTY " + i)
    if view:
        s.append("VIEW " + view)
    if actc:
        s.append("ACTION_CONSTRAINT " + actc)
    if constraint:
        s.append("CONSTRAINT " + constraint)
    if post:
        s.append("POSTCONDITION " + post)
    return "\n".join(s) + "\n"


def save_replay(ctx, rep):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    with ctx.lock:
        ctx.n += 1
        n = ctx.n
    path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (ctx.pid, ctx.tier, n))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return path


def replay_once(ctx, path, race=False, timeout=90):
    """True when the disagreement shows again."""
    code, out = ctx.driver(["replay", path], timeout, race=race)
    with open(path) as f:
        rep = json.load(f)
    if code in (1, 66):
        return True, out
    if code is None or code == EXIT_HANG:
        return rep.get("expect") == "hang", out
    if code == 0:
        return False, out
    if code == 2 and "unknown" in out[:80]:
        raise CheckError("cannot replay " + path + ": " + out)
    # the process died, as a client's process would
    return True, out


def confirm(ctx, rep, again=None, race=False):
    """Raises Violation if the disagreement is real, CheckError otherwise."""
    path = save_replay(ctx, rep)
    ok, out = replay_once(ctx, path, race=race)
    if not ok and again is not None:
        ok = again()
    if ok:
        raise Violation(path, rep.get("what", "") + "\n" + out[-2500:])
    raise CheckError("a disagreement did not recur: " + path + "\n" + out[-1500:])


def from_journal(ctx, jdir, why, out, again=None, race=False):
    """The driver died or hung: re-run the calls each worker was making."""
    tried = []
    for f in sorted(os.listdir(jdir)):
        with open(os.path.join(jdir, f), "rb") as g:
            txt = g.read().split(b"\0")[0].decode(errors="replace")
        ls = [x for x in txt.split("\n") if x]
        if len(ls) < 2:
            continue
        rep = {"kind": "steps", "model": ls[0], "sut": ls[1], "what": why,
               "expect": "hang" if why == "hang" else "crash",
               "steps": [{"op": json.loads(x)} for x in ls[2:]]}
        path = save_replay(ctx, rep)
        ok, o = replay_once(ctx, path, race=race)
        if ok:
            raise Violation(path, "a call does not return" if why == "hang" else "the process dies: " + o[-1500:])
        tried.append(path)
    if again is not None and again():
        raise Violation(tried[0] if tried else save_replay(ctx, {"kind": "none", "what": why}), why + "\n" + out[-1500:])
    raise CheckError("driver ended with %s and it did not recur:\n%s" % (why, out[-3000:]))


def check_driver(ctx, args, d, timeout, race=False, procs=2):
    """Runs the driver; deals with crashes and disagreements. Returns its output."""
    jd = os.path.join(d, "j")
    os.makedirs(jd, exist_ok=True)
    viol = os.path.join(d, "viol.json")
    full = args + ["-journal", jd]
    if args[0] == "graph":
        full += ["-viol", viol]
    t0 = time.time()
    code, out = ctx.driver(full, timeout, race=race, procs=procs)
    if code == 0:
        return out

    def again():
        c, _ = ctx.driver(full, timeout, race=race, procs=procs)
        return c == code
    if code == EXIT_VIOL:
        with open(viol) as f:
            rep = json.load(f)
        confirm(ctx, rep, again=again, race=race)
    if code == EXIT_HANG:
        from_journal(ctx, jd, "hang", out, again=again, race=race)
    if race and code == 66:  # the race detector reports no false positives
        raise Violation(save_replay(ctx, {"kind": "race", "command": [str(a) for a in args], "what": out[-6000:]}), out[-3000:])
    if code is None:
        raise CheckError("driver timed out after %.0f s: %s" % (time.time() - t0, args))
    from_journal(ctx, jd, "exit %s" % code, out, again=again, race=race)


class Graph:
    """Spec -> code: TLC writes the whole transition graph of the module's
    instance; the driver explores its product with the real code."""

    def __init__(self, module, consts, model, suts, nodes=20000, width=0, walks=10, walklen=100, walksecs=1,
                 invariants=(), properties=(), shapes=False, workers=1, heap="3g", view="View", timeout=700,
                 spec="Spec"):
        self.__dict__.update(locals())

    def __call__(self, ctx, pool):
        d = ctx.dir(self.module)
        g = os.path.join(d, "graph.ndjson")
        c = cfg(spec=self.spec, consts=self.consts, invariants=("Obs",) + tuple(self.invariants), properties=self.properties,
                view=self.view, actc="Emit")
        keep = os.environ.get("VERIF_CACHE")  # only while trying out planted bugs
        if keep:
            keep = os.path.join(keep, hashlib.sha1((self.module + c).encode()).hexdigest())
        if keep and os.path.exists(keep + ".n"):
            g, (gen, dist) = keep, json.load(open(keep + ".n"))
        else:
            code, out, (gen, dist) = ctx.tlc(self.module, c, d, env={"OUT": g}, heap=self.heap)
            if code != 0:
                raise CheckError("TLC on %s %s: exit %s\n%s" % (self.module, self.consts, code, out[-3000:]))
            if keep:
                shutil.copy(g, keep)
                json.dump([gen, dist], open(keep + ".n", "w"))
        with ctx.lock:
            ctx.states += dist
            ctx.transitions += gen
        with open(g) as f:
            for i, line in enumerate(f):
                if i == 40:
                    try:
                        ctx.sample({"spec": self.module, "transition": json.loads(json.loads(line))})
                    except ValueError:
                        pass
        return [(self.drive, (d, g, s)) for s in self.suts]

    def drive(self, ctx, d0, g, suts):
        d = ctx.dir(self.model)
        o = os.path.join(d, "out.json")
        args = ["graph", "-graph", g, "-model", self.model, "-suts", suts, "-seed", ctx.seed, "-nodes", self.nodes,
                "-width", self.width, "-walks", self.walks, "-walklen", self.walklen, "-walksecs", self.walksecs,
                "-out", o, "-workers", self.workers]
        sh = os.path.join(d, "shapes.ndjson")
        if self.shapes:
            args += ["-shapes", sh]
        check_driver(ctx, args, d, self.timeout, procs=max(2, self.workers))
        with open(o) as f:
            r = json.load(f)
        for s in r["suts"]:
            with ctx.lock:
                # without state every call is a history of its own
                ctx.traces += s["calls"] if r["spec_states"] == 1 else s["nodes"] + s.get("walks", 0)
                ctx.calls += s["calls"] + s["obs"] + s["walk_steps"]
                if not s["closed"]:
                    ctx.exhaustive = False
            ctx.part(engine="graph", module=self.module, consts=self.consts, sut=s["sut"], spec_states=r["spec_states"],
                     spec_edges=r["spec_edges"], product_nodes=s["nodes"], closed=s["closed"], depth=s.get("depth"),
                     calls=s["calls"], observations=s["obs"], walk_calls=s["walk_steps"],
                     ops=s["op_counts"], walks=s["walks"])
            if s.get("sample"):
                ctx.sample({"sut": s["sut"], "history": s["sample"]})
        if self.shapes:
            ctx_shapes(ctx, self, sh, d)
        os.remove(o)
        return []


def ctx_shapes(ctx, g, sh, d):
    code, out, (gen, dist) = ctx.tlc("AvlShapeCheck", cfg(spec="SSpec", post="Accepted"), d,
                                     env={"TRACE": sh})
    n = sum(1 for _ in open(sh))
    if code == 0:
        with ctx.lock:
            ctx.states += dist
            ctx.transitions += gen
        ctx.part(engine="shapes", module="AvlShapeCheck", shapes=n)
        return
    m = re.search(r'"REJECTED", (\d+)', out)
    if not m:
        raise CheckError("TLC on AvlShapeCheck: exit %s\n%s" % (code, out[-3000:]))
    line = open(sh).readlines()[int(m.group(1)) - 1]
    x = json.loads(line)
    rep = {"kind": "steps", "model": g.model, "sut": x["sut"], "what": "the tree is not an AVL tree over its keys",
           "steps": [{"op": o} for o in x["ops"]] + [{"op": ["SHAPE"], "got": ["ok", x["h"]], "reject": True}]}
    confirm(ctx, rep)


class Trace:
    """Code -> spec: the recorder runs a workload on the real code, TLC decides
    whether the record is a behaviour of the spec."""

    def __init__(self, module, consts, model, suts, load, n, k, obs=200, shapes=False, runs=1, heap="3g", kconst="K",
                 extra=(), timeout=700, race=False):
        self.__dict__.update(locals())

    def __call__(self, ctx, pool):
        return [(self.drive, (s, r)) for s in self.suts for r in range(self.runs)]

    def drive(self, ctx, suts, r):
        d = ctx.dir("trace-" + self.model)
        tr = os.path.join(d, "trace.ndjson")
        seed = ctx.seed * 1000 + r
        args = ["record", "-model", self.model, "-suts", suts, "-load", self.load, "-seed", seed, "-n", self.n,
                "-k", self.k, "-obs", self.obs, "-out", tr] + (["-shapes"] if self.shapes else []) + list(self.extra)
        check_driver(ctx, args, d, self.timeout, race=self.race, procs=4 if self.race else 2)
        rej, n, segs, st = self.validate(ctx, tr, d)
        if rej is not None and ("-shared" in self.extra or "-apart" in self.extra):
            # what was seen is the proof, schedules cannot be asked to recur
            rej.update(kind="conc", args=[str(a) for a in args])
            raise Violation(save_replay(ctx, rej), rej["what"])
        if rej is not None:
            def again():
                ctx.driver(args + ["-journal", os.path.join(d, "j")], self.timeout, race=self.race)
                return self.validate(ctx, tr, d)[0] is not None
            confirm(ctx, rej, again=again)
        with ctx.lock:
            ctx.states += st[1]
            ctx.transitions += st[0]
            ctx.traces += segs
            ctx.calls += n
            ctx.exhaustive = False
        ctx.part(engine="trace", module=self.module, model=self.model, suts=suts, load=self.load, events=n, runs=segs)
        os.remove(tr)
        return []

    def validate(self, ctx, tr, d):
        code, out, st = ctx.tlc(self.module, cfg(spec="TSpec", consts=self.consts, view="TView", post="Accepted"), d,
                                env={"TRACE": tr}, heap=self.heap)
        evs = open(tr).read().splitlines()
        segs = sum(1 for x in evs if x.startswith('{"e":["new"'))
        if code == 0:
            ctx.sample({"trace_of": self.model, "events": [json.loads(x) for x in evs[:6]]})
            return None, len(evs), segs, st
        m = re.search(r'"REJECTED", (\d+)', out)
        if not m:
            raise CheckError("TLC on %s: exit %s\n%s" % (self.module, code, out[-3000:]))
        i = int(m.group(1)) - 1
        a = i
        while not evs[a].startswith('{"e":["new"'):
            a -= 1
        seg = [json.loads(x) for x in evs[a:i + 1]]
        steps = [{"op": x["e"]} for x in seg[1:]]
        if steps:
            steps[-1]["got"] = seg[-1]["r"]
            steps[-1]["reject"] = True
        rep = {"kind": "steps", "model": self.model, "sut": seg[0]["e"][1], "steps": steps,
               "what": "the specification does not allow event %d of the recorded run: %s -> %s" %
                       (i + 1, json.dumps(seg[-1]["e"]), json.dumps(seg[-1]["r"])[:300])}
        return rep, len(evs), segs, st


class Conc:
    """Code -> spec for concurrent code: scenarios run on the real code, TLC
    searches the spec for a behaviour with the recorded events. A rejected
    record, a data race, a deadlock or a crash is itself the proof: schedules
    cannot be asked to recur."""

    def __init__(self, module, model, scenarios, n, consts=None, kinds=(False, True, "yield"), runs=1, secs=60, quiet=False,
                 heap="3g"):
        self.__dict__.update(locals())
        self.races = set(kinds)

    def __call__(self, ctx, pool):
        return [(self.drive, (s, k, r)) for s in self.scenarios for k in self.kinds for r in range(self.runs)]

    def drive(self, ctx, scen, kind, r):
        d = ctx.dir("conc-" + self.model)
        tr = os.path.join(d, "trace.ndjson")
        args = ["conc", "-model", self.model, "-suts", scen, "-seed", ctx.seed * 1000 + r, "-n", self.n, "-secs", self.secs,
                "-out", tr] + (["-quiet"] if self.quiet else [])
        code, out = ctx.driver(args, self.secs + 240, race=kind, procs=(2, 4, 8)[r % 3])
        rep = {"kind": "conc", "build": {False: "plain", True: "race"}.get(kind, kind), "args": [str(a) for a in args],
               "output": out[-20000:]}
        if code != 0:
            what = None
            if code == 66:
                what = "data race"
            elif code == 12:
                what = "deadlock"
            elif code == 2 and re.search(r"^(panic|fatal error): ", out, re.M) and "out of memory" not in out:
                what = "crash"
            if what is None:
                raise CheckError("driver ended with %s on %s\n%s" % (code, args, out[-3000:]))
            rep["what"] = what
            raise Violation(save_replay(ctx, rep), "%s in scenario %s\n%s" % (what, scen, out[:3000]))
        n = int(re.search(r"RUNS (\d+)", out).group(1))
        evs = []
        st = (0, 0)
        if not self.quiet:
            c = cfg(spec="TSpec", consts=self.consts, view="TView", invariants=("Mark",), post="Accepted")
            code, out, st = ctx.tlc(self.module, c, d, env={"TRACE": tr}, heap=self.heap)
            evs = open(tr).read().splitlines()
            if code != 0:
                m = re.search(r'"REJECTED", (\d+)', out)
                if not m:
                    raise CheckError("TLC on %s: exit %s\n%s" % (self.module, code, out[-3000:]))
                i = int(m.group(1)) - 1
                a = i
                while not evs[a].startswith('{"e":["new"'):
                    a -= 1
                rep.update(what="the recorded run is not a behaviour of " + self.module,
                           events=[json.loads(x)["e"] for x in evs[a:i + 1]])
                raise Violation(save_replay(ctx, rep), "%s: no behaviour explains event %d of the run: %s" %
                                (rep["what"], i - a + 1, evs[i][:300]))
            ctx.sample({"scenario": scen, "events": [json.loads(x)["e"] for x in evs[:8]] if len(evs[1]) < 200 else evs[1][:300]})
        with ctx.lock:
            ctx.states += st[1]
            ctx.transitions += st[0]
            if not self.quiet:
                ctx.traces += n
            ctx.calls += len(evs)
            ctx.exhaustive = False
        ctx.part(engine="conc", module=self.module, scenario=scen, build=rep["build"], runs=n, events=len(evs), logged=not self.quiet)
        os.remove(tr)
        return []


class Model:
    """TLC alone: properties of a specification, or refinement between two."""

    def __init__(self, module, consts=None, spec="Spec", invariants=(), properties=(), constraint=None, view=None,
                 heap="3g", workers=2, timeout=800):
        self.__dict__.update(locals())

    def __call__(self, ctx, pool):
        if os.environ.get("VERIF_CACHE"):
            return []
        d = ctx.dir(self.module)
        c = cfg(spec=self.spec, consts=self.consts, invariants=self.invariants, properties=self.properties,
                constraint=self.constraint, view=self.view)
        code, out, (gen, dist) = ctx.tlc(self.module, c, d, heap=self.heap, workers=self.workers, timeout=self.timeout)
        if code != 0:
            raise CheckError("TLC on %s %s: exit %s\n%s" % (self.module, self.consts, code, out[-3000:]))
        with ctx.lock:
            ctx.states += dist
            ctx.transitions += gen
        ctx.part(engine="model", module=self.module, consts=self.consts, states=dist, generated=gen,
                 invariants=list(self.invariants), properties=list(self.properties))
        return []


def known_findings(pid):
    """Lines 'known: property=<id> match=<text> <what fails>'; 'fixed:' lines
    suppress nothing."""
    r = []
    try:
        with open(os.path.join(ROOT, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
                if m and m.group(1) == pid:
                    r.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return r


def execute(ctx, tasks, races):
    for r in sorted(races | ({False} if "yield" in races else set()), key=str):
        ctx.build(race=r)
    err = viol = None
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as pool:
        pending = {pool.submit(t, ctx, pool) for t in tasks}
        while pending:
            done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in done:
                try:
                    for fn, args in f.result():
                        if not ctx.stop.is_set():
                            pending.add(pool.submit(fn, ctx, *args))
                except Skipped:
                    pass
                except Violation as v:
                    if viol is None:
                        viol = v
                        ctx.stop.set()
                        for p in list(ctx.procs):
                            try:
                                os.killpg(p.pid, 9)
                            except OSError:
                                pass
                except CheckError as e:
                    if not ctx.stop.is_set():
                        err = err or e
    return viol, err
