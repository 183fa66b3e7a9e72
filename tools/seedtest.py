#!/usr/bin/env python3
"""Development aid: confirms planted changes in scratch copies of /repo and runs the
checks on those copies.   seedtest.py [--nocheck] [--notests] [ID ...]"""
import concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
base = [t for t in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])] if False else None


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True,
                           timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def one(sid, nocheck, notests, props=None):
    d = os.path.join(R, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    t = tempfile.mkdtemp(prefix="seed_")
    out = [sid, meta["property"]]
    try:
        c = os.path.join(t, "repo")
        shutil.copytree("/repo", c, symlinks=True)
        demo = os.path.join(t, "demo")
        shutil.copytree(d, demo)
        for f in glob.glob(demo + "/*.diff") + [demo + "/meta.json"]:
            os.remove(f)
        rc, o = sh("bash %s/demo.sh" % demo, c, timeout=300)
        out.append("demo-ok" if rc == 0 else "DEMO-FAILS-CLEAN(%d) %s" % (rc, o[-300:]))
        rc, o = sh("git apply %s/patch.diff" % d, c)
        if rc:
            return out + ["NOAPPLY " + o[-200:]]
        if not notests:
            rc, o = sh("%s -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
                       "--ignore=scaks/tests/test_all.py scaks/tests" % PY, c, dict(PYTHONPATH=c))
            last = o.strip().split("\n")[-1]
            out.append("tests:" + last if " 88 passed" in " " + last else "TESTS-BROKEN " + last)
        rc, o = sh("bash %s/demo.sh" % demo, c, timeout=300)
        out.append("demo-caught" if rc else "DEMO-PASSES-PATCHED")
        if not nocheck:
            for pr in props or [meta["property"]]:
                v = os.path.join(t, "verif")
                if not os.path.exists(v):
                    shutil.copytree(R, v, ignore=shutil.ignore_patterns(".git", "seeded"))
                rc, o = sh("python3 checks/check.py %s quick" % pr, v, dict(VERIF_REPO=c, VERIF_SEED="1", VERIF_TIER="quick"))
                vl = [l for l in o.split("\n") if "VIOLATION" in l]
                nxt = o.split("\n")[1:2] if vl else []
                out.append("%s rc=%d %s" % (pr, rc, ("CAUGHT " if rc == 1 else "missed ") + (vl[0] if vl else o[-200:].strip()) + " | " + " ".join(nxt)[:160]))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return out


def main():
    a = sys.argv[1:]
    nocheck, notests = "--nocheck" in a, "--notests" in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(os.path.join(R, "seeded")))
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda s: one(s, nocheck, notests), ids):
            print(" | ".join(r), flush=True)


main()
