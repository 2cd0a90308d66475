#!/usr/bin/env python3
"""plant.py FILE...: verify planted bugs and keep them in /verif/seeded.

A FILE is Python text defining ID, PROPERTY, NEEDS, BREAKS, EDITS (list of
(file under /repo, old, new)), DEMO (Python text).  Works in /repo, which has
to be clean, and puts it back.  Recheck all kept ones: plant.py --recheck
"""
import json, os, subprocess, sys, time
R, S = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded"
ROOT = subprocess.check_output(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[-1]


RESULT = {}


def record():
    """Which check caught what, for DESIGN.md"""
    p = S + "/../tools/caught.json"
    d = json.load(open(p)) if os.path.exists(p) else {}
    d.update(RESULT)
    d = {k: v for k, v in d.items() if os.path.exists(S + "/" + k + "/meta.json")}
    with open(p, "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write("\n")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def clean():
    sh(["git", "-C", R, "checkout", "-q", "--", "."])


def original_lines():
    """Which removed lines are not lines of the original repository?"""
    bad = []
    d = sh(["git", "-C", R, "diff", "-U0"]).stdout
    f, rem = None, 0
    for l in d.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        if l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            rem += n
            if n:
                b = sh(["git", "-C", R, "blame", "-s", "-l", "-L", "%d,+%d" % (st, n), "HEAD", "--", f]).stdout
                for x in b.splitlines():
                    if not x.lstrip("^").startswith(ROOT[:30]):
                        bad.append(x)
    return bad, rem


def stable():
    sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    b = json.load(open("/opt/vp/BASELINE.json"))
    o = json.load(open("/tmp/plant_out.json"))

    def names(d):
        for k in ("stable", "passed", "tests", "pass"):
            if k in d:
                return set(d[k])
    return names(b) - names(o)


def demo(d):
    return sh(["bash", d + "/demo.sh"], cwd=R, timeout=300)


def verify(i, d, prop, checks=True):
    msg = []
    base = demo(d)
    if base.returncode:
        msg.append("DEMO FAILS ON CLEAN TREE:\n" + base.stdout[-600:] + base.stderr[-1500:])
    a = sh(["git", "-C", R, "apply", d + "/patch.diff"])
    if a.returncode:
        return ["does not apply: " + a.stderr]
    try:
        bad, rem = original_lines()
        if bad:
            msg.append("touches own lines: " + "\n".join(bad))
        if not rem:
            msg.append("changes no original line")
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            msg.append("build fails " + b.stderr[-500:])
        m = stable()
        if m:
            msg.append("tests fail: %s" % sorted(m)[:5])
        x = demo(d)
        if x.returncode == 0:
            msg.append("DEMO PASSES WITH PATCH")
        if checks and os.path.exists(S + "/../props/%s.py" % prop.lower()):
            t = time.time()
            c = sh(["./check.py", prop, "--tier", "quick"], cwd=S + "/..", env=dict(os.environ, VERIF_SEED="1"))
            RESULT[i] = "caught" if c.returncode == 1 and "VIOLATION property=%s " % prop in c.stdout else "missed"
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print("   check %s: exit %d in %.0f s %s" % (prop, c.returncode, time.time() - t, "CAUGHT" if c.returncode == 1 and v else "MISSED <<<<<<<<<<"))
            print("     ", "\n      ".join((c.stdout + c.stderr).strip().splitlines()[-4:])[:700])
    finally:
        clean()
    return msg


def main(args):
    assert not sh(["git", "-C", R, "status", "--porcelain"]).stdout, "repo not clean"
    if args[0] == "--recheck":
        ids = args[1:] or sorted(os.listdir(S))
        for i in ids:
            d = S + "/" + i
            if os.path.exists(d + "/meta.json"):
                print(i)
                for m in verify(i, d, json.load(open(d + "/meta.json"))["property"]):
                    print("   !!", m)
        return
    for f in args:
        ns = {}
        exec(open(f).read(), ns)
        d = S + "/" + ns["ID"]
        os.makedirs(d, exist_ok=True)
        try:
            for fn, old, new in ns["EDITS"]:
                p = R + "/" + fn
                s = open(p).read()
                assert s.count(old) == 1, (ns["ID"], fn, old, s.count(old))
                open(p, "w").write(s.replace(old, new))
            diff = sh(["git", "-C", R, "diff"]).stdout
        finally:
            clean()
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        print(ns["ID"])
        bad = verify(ns["ID"], d, ns["PROPERTY"])
        for m in bad:
            print("   !!", m)
        if bad:     # not a planted bug that counts
            for n in os.listdir(d):
                os.remove(os.path.join(d, n))
            os.rmdir(d)


try:
    main(sys.argv[1:])
finally:
    record()
