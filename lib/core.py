"""Runner: generation, deciding, shrinking, replay, evidence.

A property module defines
  ID, TITLE (optional), RULE (how cases are made / what is non-trivial)
  SUBTESTS: list of Search / Enum
A subtest's decision function takes plain JSON case data and
  - returns an iterable of tags (or None); the tag "trivial" marks a case that
    does not count as non-trivial;
  - raises Violation if, and only if, the property is broken on that case.
Any other exception is an error of the check (exit status 2).
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
QUICK_SCALE = 2     # every search of the quick tier, times this
CPU_LIMIT = 90      # CPU seconds one case may use (normal cases: < 2)


class Violation(Exception):
    def __init__(self, msg, finding=None):
        Exception.__init__(self, msg)
        self.finding = finding


class CpuLimit(BaseException):
    pass


def show(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "...(%d)" % len(r)


def lib(fn, *a, **kw):
    """Call the library where it has to succeed."""
    try:
        return fn(*a, **kw)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("%s failed unexpectedly: %s: %s (%s:%s)" % (
            getattr(fn, "__qualname__", fn), type(e).__name__, e,
            os.path.basename(tb.filename), tb.lineno))


def attempt(fn, *a, **kw):
    """Call the library where it may fail: (True, value) or (False, exc)."""
    try:
        return True, fn(*a, **kw)
    except Exception as e:
        return False, e


def fmt(msg, args):
    """A wrong format string must not hide the violation it describes."""
    if not args:
        return msg
    vals = tuple(show(a) for a in args)
    try:
        return msg % vals
    except (TypeError, ValueError):
        return msg + " -- " + ", ".join(vals)


def check(cond, msg, *args, **kw):
    if not cond:
        raise Violation(fmt(msg, args), kw.get("finding"))


def must_fail(what, fn, *a, **kw):
    """The call must raise an Exception; returns it."""
    ok, r = attempt(fn, *a, **kw)
    if ok:
        raise Violation("%s: accepted, returned %s" % (what, show(r)))
    return r


class Search(object):
    kind = "search"

    def __init__(self, name, strategy, prop, quick, thorough=None):
        self.name, self.strategy, self.prop = name, strategy, prop
        self.quick = quick
        self.thorough = thorough or quick * 20


class Enum(object):
    """cases(tier) -> iterable of cases; every one is decided."""
    kind = "enum"

    def __init__(self, name, cases, prop, exhaustive=False):
        self.name, self.cases, self.prop = name, cases, prop
        self.exhaustive = exhaustive


def case_key(case):
    return json.dumps(case, sort_keys=True)


def decide(sub, case):
    """Decide one case: returns the list of tags; raises Violation."""
    from lib import rng
    r = case.get("rng") if isinstance(case, dict) else None
    r = r if isinstance(r, dict) else {}
    ck = case_key(case).encode()
    if r.get("f"):
        rng.reset(b"f%d" % r.get("s", 0), r.get("z", 0), True)
    else:
        rng.reset(ck, r.get("z", 0))

    def onalarm(sig, frm):
        raise CpuLimit()

    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        return list(sub.prop(case) or [])
    except CpuLimit:
        raise Violation("did not finish within %d s of CPU time" % CPU_LIMIT)
    except Violation:
        raise
    except Exception as e:
        # Not foreseen by the check.  When the library raised it, or the
        # reference cannot make sense of what the library produced, the
        # property is broken; otherwise the check itself is (exit 2).
        signal.setitimer(signal.ITIMER_PROF, 0)
        from lib import ref
        frames = traceback.extract_tb(e.__traceback__)
        own = max(i for i, f in enumerate(frames) if os.path.realpath(f.filename).startswith(os.path.realpath(HERE) + os.sep))
        src = os.path.realpath(os.path.join(REPO, "src")) + os.sep
        inlib = [f for f in frames[own + 1:] if os.path.realpath(f.filename).startswith(src)]
        if inlib or isinstance(e, ref.RefError):
            at = inlib[-1] if inlib else frames[-1]
            raise Violation("%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(at.filename), at.lineno))
        if isinstance(e, (ValueError, TypeError, LookupError, AttributeError, AssertionError)):
            # The check reads what the library returned as the property
            # describes it; on the unchanged tree that never fails.
            raise Violation("cannot interpret what the library produced: %s: %s (%s:%s)" % (
                type(e).__name__, e, os.path.basename(frames[-1].filename), frames[-1].lineno))
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def setup_paths():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-pyc-%d" % os.getpid())
    sys.path.insert(0, os.path.join(REPO, "src"))
    if HERE not in sys.path:
        sys.path.insert(1, HERE)
    sys.path.append(HYP)
    from lib import rng
    rng.install()
    import logging
    logging.disable(logging.CRITICAL)
    import jwkest
    want = os.path.realpath(os.path.join(REPO, "src"))
    if not os.path.realpath(jwkest.__file__).startswith(want + os.sep):
        raise RuntimeError("jwkest imported from %s" % jwkest.__file__)


def opt_slice(arg):
    """Run every step-th case of an enumeration; for a child process started with python -O."""
    pid, name, frm, step = json.loads(arg)
    setup_paths()
    sub = [s for s in load(pid).SUBTESTS if s.name == name][0]
    n = 0
    for i, case in enumerate(sub.cases("quick")):
        if i % step == frm:
            try:
                decide(sub, case)
            except Violation as v:
                print(json.dumps({"violation": str(v), "case": case}))
                return 0
            n += 1
    print(json.dumps({"violation": None, "n": n}))
    return 0


def without_asserts(pid, name, step, shards=8):
    """An enumeration once more in an interpreter that leaves out assert statements (python -O)."""
    def cases(tier):
        for i in range(shards):
            yield {"of": name, "from": i, "step": step if tier == "quick" else max(shards, step // 8)}

    def prop(c):
        p = subprocess.run([PY, "-O", os.path.join(HERE, "check.py"), pid, "--opt-slice", json.dumps([pid, c["of"], c["from"], c["step"]])],
                           env=child_env(), cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            r = json.loads(p.stdout.decode().strip().split("\n")[-1])
        except ValueError:
            raise RuntimeError("python -O: rc %s, %s" % (p.returncode, p.stderr.decode()[-2000:]))
        check(r["violation"] is None, "under python -O: %s, case %s", r["violation"], r.get("case"))
        return ["python -O, %s cases" % r["n"]]
    return Enum("without assertions: " + name, cases, prop)


def load(pid):
    import importlib
    return importlib.import_module("props." + pid.lower())


def known_findings(pid):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


class Recorder(object):
    def __init__(self, known):
        self.known = {k["id"]: k for k in known}
        self.found = {}
        self.evaluations = 0
        self.hashes = set()
        self.subs = {}
        self.samples = []

    def run(self, sub, case, count=True):
        """Decide a case; returns None or the Violation."""
        ck = case_key(case)
        try:
            tags = decide(sub, case)
        except Violation as v:
            if v.finding in self.known:
                self.found[v.finding] = str(v)
                tags = ["known:" + v.finding]
            else:
                return v
        if count:
            self.evaluations += 1
            st = self.subs.setdefault(sub.name, {"evaluations": 0, "nontrivial": 0, "tags": {}})
            st["evaluations"] += 1
            for t in tags:
                st["tags"][t] = st["tags"].get(t, 0) + 1
            if "trivial" not in tags:
                h = hashlib.sha256((sub.name + ck).encode()).hexdigest()[:16]
                if h not in self.hashes:
                    self.hashes.add(h)
                    st["nontrivial"] += 1
                    if st["nontrivial"] in (1, 7):
                        self.samples.append({"subtest": sub.name, "case": ck if len(ck) < 700 else ck[:700] + "..."})
        return None


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


def run_search(rec, sub, n, seed, deadline):
    """Returns (case, violation) or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    state = {"fails": {}, "first": None}

    def body(case):
        now = time.time()
        ck = case_key(case)
        if state["first"] is not None:
            # shrinking: bounded by time; known failing cases keep failing
            if now - state["first"] > 45 and ck not in state["fails"]:
                return
        elif now > deadline:
            rec.truncated = True
            return
        v = rec.run(sub, case, count=state["first"] is None)
        if v is not None:
            if state["first"] is None:
                state["first"] = now
            state["fails"][ck] = v
            raise v

    f = given(sub.strategy)(body)
    f = hypothesis.seed(seed)(f)
    f = settings(max_examples=n, database=None, deadline=None,
                 derandomize=False, report_multiple_bugs=False,
                 verbosity=Verbosity.quiet, print_blob=False,
                 phases=(Phase.generate, Phase.shrink),
                 suppress_health_check=list(HealthCheck))(f)
    try:
        f()
    except Violation:
        pass
    except Exception:
        if not state["fails"]:
            raise
    if state["fails"]:
        ck = min(state["fails"], key=lambda c: (len(c), c))
        return json.loads(ck), state["fails"][ck]
    return None


def worker(pid, tier, seed, shard, nshards, out, only=None):
    t0 = time.time()
    res = {"violation": None, "error": None}
    try:
        setup_paths()
        tmp = tempfile.mkdtemp(prefix="hyp")
        os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = tmp
        mod = load(pid)
        rec = Recorder(known_findings(pid))
        rec.truncated = False
        deadline = t0 + (float(os.environ.get("VERIF_BUDGET", 0)) or (300 if tier == "quick" else 3000))
        for sub in mod.SUBTESTS:
            if only and sub.name != only:
                continue
            t1 = time.time()
            if sub.kind == "enum":
                bad = None
                for i, case in enumerate(sub.cases(tier)):
                    if i % nshards != shard:
                        continue
                    if time.time() > deadline:
                        rec.truncated = True
                        break
                    v = rec.run(sub, case)
                    if v is not None:
                        bad = (case, v)
                        break
            else:
                n = getattr(sub, tier) * (QUICK_SCALE if tier == "quick" else 1)
                n = (n + nshards - 1) // nshards
                bad = run_search(rec, sub, n, seed_of(seed, pid, sub.name, shard), deadline)
            if sub.name in rec.subs:
                rec.subs[sub.name]["wall_s"] = round(time.time() - t1, 2)
            if bad:
                res["violation"] = {"property": pid, "subtest": sub.name, "case": bad[0],
                                    "message": str(bad[1]), "tier": tier, "seed": seed,
                                    "shard": shard, "nshards": nshards}
                break
        res.update(evaluations=rec.evaluations, hashes=sorted(rec.hashes), subs=rec.subs,
                   samples=rec.samples[:12], found=rec.found, truncated=rec.truncated)
        shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        res["error"] = traceback.format_exc()
    res["wall_s"] = time.time() - t0
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


def child_env(extra=None):
    env = dict(os.environ)
    env.update({"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8",
                "OMP_NUM_THREADS": "1"})
    env.pop("PYTHONPATH", None)
    env.update(extra or {})
    return env


def replay(path):
    """Decide the recorded case again.  1: violated, 0: holds."""
    with open(path) as f:
        r = json.load(f)
    setup_paths()
    mod = load(r["property"])
    sub = [s for s in mod.SUBTESTS if s.name == r["subtest"]][0]
    rec = Recorder(known_findings(r["property"]))
    v = rec.run(sub, r["case"])
    if v is None and r.get("mode") == "history":
        tmp = tempfile.mkdtemp(prefix="replay")
        out = os.path.join(tmp, "o.json")
        subprocess.call([PY, os.path.join(HERE, "check.py"), r["property"], "--worker",
                         "%s,%d,%d,%d,%s" % (r["tier"], r["seed"], r["shard"], r["nshards"], out)],
                        env=child_env(), cwd=HERE)
        with open(out) as f:
            w = json.load(f)
        shutil.rmtree(tmp)
        if w.get("violation"):
            v = w["violation"]["message"]
    if v is None:
        print("holds: %s" % path)
        return 0
    print("%s: %s" % (r["subtest"], v))
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def save_replay(pid, viol):
    """Write the replay file and confirm it in a fresh process."""
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(case_key(viol["case"]).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, re.sub("[^A-Za-z0-9]+", "-", viol["subtest"]), h))

    def put():
        with open(path, "w") as f:
            json.dump(viol, f, indent=1, sort_keys=True)
    put()
    rc = subprocess.call([PY, os.path.join(HERE, "check.py"), pid, "--replay", path],
                         env=child_env(), cwd=HERE, stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL)
    if rc != 1:
        # depends on what the process did before: replay re-runs the shard
        viol["mode"] = "history"
        put()
    return path


def main(pid, tier, seed, jobs):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    procs = []
    try:
        for i in range(jobs):
            out = os.path.join(tmp, "w%d.json" % i)
            log = open(os.path.join(tmp, "w%d.log" % i), "wb")
            p = subprocess.Popen(
                [PY, os.path.join(HERE, "check.py"), pid, "--worker",
                 "%s,%d,%d,%d,%s" % (tier, seed, i, jobs, out)],
                env=child_env({"TMPDIR": tmp}), cwd=HERE, stdout=log, stderr=log)
            procs.append((p, out))
        results = {}
        stop = False
        while len(results) < jobs and not stop:
            for i, (p, out) in enumerate(procs):
                if i in results or p.poll() is None:
                    continue
                if os.path.exists(out):
                    with open(out) as f:
                        results[i] = json.load(f)
                else:
                    with open(os.path.join(tmp, "w%d.log" % i), errors="replace") as f:
                        results[i] = {"error": "worker died (rc %s): %s" % (p.returncode, f.read()[-2000:])}
                if results[i].get("violation"):
                    stop = True
            time.sleep(0.05)
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        viol = [r["violation"] for r in results.values() if r.get("violation")]
        errs = [r["error"] for r in results.values() if r.get("error")]
        path = save_replay(pid, min(viol, key=lambda v: len(case_key(v["case"])))) if viol else None
        sys.path.append(HYP)
        write_evidence(pid, tier, seed, results, len(viol), time.time() - t0)
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    found = {}
    for r in results.values():
        found.update(r.get("found") or {})
    for k in known_findings(pid):
        if k["id"] in found:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        v = min(viol, key=lambda v: len(case_key(v["case"])))
        print("%s: %s" % (v["subtest"], v["message"]))
        print("case: %s" % show(case_key(v["case"]), 1500))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        sys.stderr.write("check error:\n%s\n" % errs[0])
        return 2
    ev = sum(r["evaluations"] for r in results.values())
    if not ev:
        sys.stderr.write("check error: nothing was evaluated\n")
        return 2
    print("%s held on %d cases (%.1f s)" % (pid, ev, time.time() - t0))
    return 0


def write_evidence(pid, tier, seed, results, nviol, wall):
    import ast
    hashes = set()
    subs = {}
    samples = []
    ev = 0
    trunc = False
    for r in results.values():
        if "evaluations" not in r:
            continue
        ev += r["evaluations"]
        hashes.update(r["hashes"])
        trunc = trunc or r["truncated"]
        for n, s in r["subs"].items():
            d = subs.setdefault(n, {"evaluations": 0, "nontrivial": 0, "max_worker_s": 0, "tags": {}})
            d["evaluations"] += s["evaluations"]
            d["nontrivial"] += s["nontrivial"]
            d["max_worker_s"] = max(d["max_worker_s"], s.get("wall_s", 0))
            for t, c in s["tags"].items():
                d["tags"][t] = d["tags"].get(t, 0) + c
    seen = {}
    for i in sorted(results):
        for s in results[i].get("samples") or []:
            if seen.setdefault(s["subtest"], 0) < 2:
                seen[s["subtest"]] += 1
                samples.append(s)
    # RULE / EXHAUSTIVE are read from the source, the parent imports nothing
    with open(os.path.join(HERE, "props", pid.lower() + ".py")) as f:
        tree = ast.parse(f.read())
    consts = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    cov = {"evaluations": ev, "distinct_nontrivial": len(hashes),
           "rule": consts.get("RULE", ""), "samples": samples, "subtests": subs,
           "truncated_by_time": trunc}
    evd = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": cov, "assumptions": list(consts.get("ASSUMPTIONS", [])),
           "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1, sort_keys=True)
