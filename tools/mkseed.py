#!/usr/bin/env python3
"""Development aid: mkseed.py SPEC.py  - SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)],
demo, needs, breaks)]; writes seeded/<id>/ from /repo's HEAD."""
import json, os, runpy, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '#!/bin/bash\n# exit 0: the property holds on this case\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
PRE = '''import atexit, os, shutil, sys, tempfile, logging
_d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, _d, True)
os.chdir(_d)
'''
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for f, old, new in s["edits"]:
        p = os.path.join(t, "r", f)
        x = open(p).read()
        assert x.count(old) == 1, (s["id"], f, x.count(old), old)
        open(p, "w").write(x.replace(old, new))
    d = os.path.join(R, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", t + "/r", "diff"]))
    open(d + "/demo.sh", "w").write(HEAD)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(PRE + s["demo"].lstrip("\n"))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
              open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
    print(s["id"])
