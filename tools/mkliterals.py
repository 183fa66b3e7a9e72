"""Records the literals of the current source (harness/literals.json); run by hand
when /repo changes on purpose.  Literals that appear later only steer the input
generators of the harness."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness")
sys.path.insert(0, H)
fn = os.path.join(H, "literals.json")
if os.path.exists(fn):
    os.remove(fn)
import common
i, f, s = common.literals()
json.dump(dict(ints=i, floats=f, strs=s), open(fn, "w"))
