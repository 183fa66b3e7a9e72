#!/opt/venv/bin/python
"""Concrete harness: generates inputs for one property, runs the code of /repo on
them and compares with independent oracles.

  run.py PROP --seed N --budget SECONDS --jobs K --out FILE
  run.py --replay FILE
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp_
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

MODULES = {}
for _m, _ids in (("props_parse", "01 02 03 04 05 36 37"),
                 ("props_energy", "06 07 08 30 31"),
                 ("props_rates", "09 10 11 12 13 14 15 16 17 18 19 33 34 35"),
                 ("props_kmc", "20 21 22 23 32"),
                 ("props_util", "24 25 26 27 28 29")):
    for _i in _ids.split():
        MODULES["C" + _i] = _m

# properties whose search may legitimately not come back
MAY_HANG = {"C17", "C33", "C35"}


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def load(prop):
    import common
    common.setup_imports()
    devnull = open(os.devnull, "w")
    old = sys.stdout
    sys.stdout = devnull
    try:
        mod = importlib.import_module(MODULES[prop])
    finally:
        sys.stdout = old
    return getattr(mod, "gen_" + prop), getattr(mod, "check_" + prop), mod


def jsonable(case):
    return json.loads(json.dumps(case))


def one(check, case, limit):
    """('ok', nontrivial) | ('bad', text) | ('known', text) | ('hang', '')"""
    import common
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        r = check(case)
        return ("ok", bool(r)) if not isinstance(r, str) else ("known", r)
    except Hang:
        return "hang", "no answer after %g s of CPU time" % limit
    except common.Bad as e:
        return "bad", str(e)[:3000]
    except (MemoryError, KeyboardInterrupt):
        return "hang", "out of memory"
    except BaseException as e:                                # noqa
        return "bad", "unexpected %s: %s\n%s" % (type(e).__name__, str(e)[:800],
                                                 traceback.format_exc()[-1800:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def worker(prop, seed, wid, deadline, maxcases, q, scratch):
    os.chdir(tempfile.mkdtemp(dir=scratch))
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    gen, check, mod = load(prop)
    res = dict(n=0, hashes=[], bad=[], hang=0, samples=[], known={}, generr="",
               badsz=[])
    rng = random.Random("%s/%s/%s" % (prop, seed, wid))
    seen = set()
    limit = getattr(mod, "LIMITS", {}).get(prop, 60)
    fixed = list(getattr(mod, "FIXED", {}).get(prop, []))
    fixed = fixed[wid::getattr(mod, "_njobs", 1)] if wid == 0 else []
    while (time.time() < deadline and res["n"] < maxcases) or res["n"] < 2:
        try:
            if fixed:
                case = jsonable(fixed.pop())
            else:
                case = jsonable(gen(rng))
        except Exception:                                     # noqa
            res["generr"] = traceback.format_exc()[-1500:]
            break
        lim = limit
        if prop in MAY_HANG:
            lim = min(limit, max(3.0, deadline - time.time() + 3.0))
        kind, info = one(check, case, lim)
        res["n"] += 1
        if kind == "ok":
            if info:
                h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
                if h not in seen:
                    seen.add(h)
                    if len(res["samples"]) < 1:
                        res["samples"].append(case)
        elif kind == "known":
            res["known"][info] = res["known"].get(info, 0) + 1
        elif kind == "hang":
            res["hang"] += 1
            if prop not in MAY_HANG:
                res["bad"].append((case, info))
                break
        else:
            res["bad"].append((case, info))
            res["badsz"].append(len(json.dumps(case)))
            if len(res["bad"]) >= 12:
                break
    res["hashes"] = sorted(seen)
    q.put(res)


def search(prop, seed, budget, jobs, maxcases=10**9):
    scratch = tempfile.mkdtemp(prefix="verif_h_")
    q = mp_.Queue()
    t0 = time.time()
    deadline = t0 + budget
    ps = [mp_.Process(target=worker, args=(prop, seed, w, deadline, maxcases, q, scratch))
          for w in range(jobs)]
    for p in ps:
        p.start()
    out, died = [], 0
    hard = deadline + 240
    while len(out) + died < len(ps):
        try:
            out.append(q.get(timeout=1.0))
        except Exception:                                     # noqa
            alive = sum(p.is_alive() for p in ps)
            if alive == 0:
                try:
                    while True:
                        out.append(q.get(timeout=0.5))
                except Exception:                             # noqa
                    pass
                died = len(ps) - len(out)
            if time.time() > hard:
                break
    for p in ps:
        if p.is_alive():
            p.kill()
        p.join()
    shutil.rmtree(scratch, ignore_errors=True)
    hashes = set()
    for r in out:
        hashes.update(r["hashes"])
    bads = sorted((b for r in out for b in r["bad"]), key=lambda b: len(json.dumps(b[0])))
    known = {}
    for r in out:
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
    return dict(property=prop, seed=seed, evaluations=sum(r["n"] for r in out),
                distinct_nontrivial=len(hashes), hangs=sum(r["hang"] for r in out),
                workers_lost=died, samples=[s for r in out for s in r["samples"]][:3],
                bad=[dict(case=c, why=w) for c, w in bads[:3]], nbad=len(bads),
                known=known, generr=[r["generr"] for r in out if r["generr"]][:1],
                wall_s=round(time.time() - t0, 2))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", 1)))
    ap.add_argument("--budget", type=float, default=6.0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--max", type=int, default=10**9)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        if d.get("case") is None:
            print(d.get("why"))
            return 1
        gen, check, mod = load(d["property"])
        scratch = tempfile.mkdtemp(prefix="verif_r_")
        os.chdir(scratch)
        try:
            kind, info = one(check, d["case"], 120)
        finally:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
        print(kind, info)
        return 1 if kind == "bad" else 0
    r = search(a.prop, a.seed, a.budget, a.jobs, a.max)
    if a.out:
        json.dump(r, open(a.out, "w"))
    else:
        r["samples"] = len(r["samples"])
        print(json.dumps(r, indent=1)[:6000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
