#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree.

1. The deductive engine (pyvc, run under python3-vt) generates proof obligations
   from the current source of the functions under contract and discharges them.
2. The concrete harness runs the same contracts on generated inputs in CPython: the
   bounded stand-in for what is not proved, the replay of refuted obligations, and
   a cross-check of the engine.

Exit 0: nothing broken.  Exit 1: VIOLATION line with a replay file.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(VT):
    VT = "python3-vt"

RULE = ("cases are reaction networks, settings, histories or lattices generated from a seed "
        "and written down as data; a case is non-trivial when the check reached the "
        "comparison with the independent oracle, and distinct by the hash of its data")
BUDGET = {"quick": 7.0, "thorough": 240.0}


SEARCH = 60.0


def failed(proof):
    """Obligations the verifier does not accept, for another reason than time."""
    if not proof:
        return []
    und = proof.get("undecided", [])
    late = [u for u in und if "time budget" in u.get("reason", "")]
    return proof.get("refuted", []) + [
        u for u in und if u not in late and not (late and "no path" in u.get("reason", ""))]


def engine(prop, tier, slow=1):
    """Result of the prover for this property, or None when it has no contracts."""
    script = os.path.join(ROOT, "pyvc", "prove.py")
    if not os.path.exists(script):
        return None
    limit = (150 if tier == "quick" else 600)*slow
    try:
        p = subprocess.run([VT, script, prop, "--tier", tier], capture_output=True, text=True,
                           timeout=limit, cwd=ROOT, env=dict(os.environ, PYVC_SLOW=str(slow)))
        r = json.loads(p.stdout.strip().split("\n")[-1])
        return r if r["has_contracts"] else None
    except Exception as e:                                    # noqa
        return dict(error="prover gave no answer: %s" % (str(e)[:300]), obligations=0,
                    discharged=0, functions=[], undecided=[], refuted=[], assumptions=[])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    manifest = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    entry = [c for c in manifest["checks"] if c["property"] == prop]
    level = entry[0]["level"] if entry else "exploration"

    proof = engine(prop, tier)
    budget = BUDGET[tier]
    if proof and (proof.get("refuted") or proof.get("undecided") or proof.get("error")):
        # the solver's time limits must not decide
        if not proof.get("refuted"):
            again = engine(prop, tier, 2)
            if again and not again.get("error"):
                proof = again
    if proof and (proof.get("refuted") or proof.get("undecided") or proof.get("error")):
        # look for an input that shows what the failed obligation means
        budget = max(budget, SEARCH)
    out = os.path.join(ROOT, "evidence", ".%s.harness.json" % prop)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    if os.path.exists(out):
        os.remove(out)
    hints = []
    if proof and proof.get("cases"):
        hints = ["--cases", json.dumps(proof["cases"])]
    try:
        subprocess.run([PY, os.path.join(ROOT, "harness", "run.py"), prop, "--seed", str(seed),
                        "--budget", str(budget), "--out", out], env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       timeout=budget + 400)
    except subprocess.TimeoutExpired:
        pass
    try:
        h = json.load(open(out))
        os.remove(out)
    except Exception:                                         # noqa
        h = dict(evaluations=0, distinct_nontrivial=0, bad=[], nbad=0, known={}, hangs=0,
                 samples=[], generr=["harness gave no result"], workers_lost=0)

    known = known_findings(prop)
    lines, violations = [], 0
    for text in h["known"]:
        if any(k in text or text in k for k in known):
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, text))
        else:
            h["bad"].append(dict(case=None, why=text))
    rc = 0
    replay = os.path.join("replays", "%s.json" % prop)
    full = os.path.join(ROOT, replay)
    if os.path.exists(full):
        os.remove(full)
    if h["bad"]:
        b = h["bad"][0]
        json.dump(dict(property=prop, case=b["case"], why=b["why"], seed=seed,
                       replay_cmd="%s harness/run.py --replay %s" % (PY, replay),
                       obligations=failed(proof)),
                  open(full, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, replay))
        lines.append("  " + b["why"].split("\n")[0][:400])
        violations, rc = max(1, h["nbad"]), 1
    elif failed(proof):
        json.dump(dict(property=prop, case=None,
                       why="the verifier no longer accepts these obligations",
                       obligations=failed(proof), refuted=proof.get("refuted", [])),
                  open(full, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        lines.append("  " + "; ".join(u["obligation"] for u in failed(proof))[:400])
        violations, rc = len(failed(proof)), 1

    cov = dict(evaluations=h["evaluations"], distinct_nontrivial=h["distinct_nontrivial"],
               rule=RULE, samples=h["samples"][:2], timeouts=h["hangs"])
    assumptions = ["machine floating point is compared with a relative tolerance of 1e-9"]
    if proof:
        cov.update(obligations=proof["obligations"], discharged=proof["discharged"],
                   checker_cmd="python3-vt pyvc/prove.py %s" % prop,
                   trusted_base=proof.get("trusted_base", []),
                   functions_under_contract=proof.get("functions", []),
                   backends=proof.get("backends", {}), solver_time_s=proof.get("solver_s", 0),
                   undecided=proof.get("undecided", []),
                   bounded_standin=proof.get("bounded", []))
        if proof.get("error"):
            cov["prover_error"] = proof["error"]
        assumptions += proof.get("assumptions", [])
    if h.get("generr"):
        cov["harness_note"] = h["generr"][0][-600:]
    if level == "exploration" and not cov["samples"]:
        cov["samples"] = []
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=violations)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("\n".join(lines + ["%s %s: %d concrete cases (%d non-trivial)%s" % (
        prop, tier, h["evaluations"], h["distinct_nontrivial"],
        ", %d/%d obligations" % (proof["discharged"], proof["obligations"]) if proof else "")]))
    return rc


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            if l.startswith("known: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    except IOError:
        pass
    return out


if __name__ == "__main__":
    sys.exit(main())
