#!/usr/bin/env python3
"""Development aid: plants small changes in the functions under contract of one property and
shows which of them the prover accepts (each is then either equivalent or a hole).
mutate.py PROP FILE QUAL[,QUAL...] [--harness] [--max N]"""
import ast, concurrent.futures as cf, copy, json, os, random, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/bin/python"
PY = "/opt/venv/bin/python"


def sites(fn):
    """(description, mutate(fn_copy node)) of each small change; nodes are found by position
    in ast.walk order."""
    out = []
    nodes = list(ast.walk(fn))
    for k, n in enumerate(nodes):
        if isinstance(n, ast.BinOp):
            for op in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add],
                       ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}.get(type(n.op), []):
                out.append((k, "op", op))
            if not isinstance(n.op, ast.Mod):
                out.append((k, "left", None))
                out.append((k, "right", None))
        elif isinstance(n, ast.Compare):
            for op in {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
                       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(type(n.ops[0]), []):
                out.append((k, "cmp", op))
        elif isinstance(n, ast.BoolOp):
            out.append((k, "bool", ast.Or if isinstance(n.op, ast.And) else ast.And))
        elif isinstance(n, ast.UnaryOp):
            out.append((k, "unop", None))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and \
                not isinstance(n.value, bool):
            out.append((k, "const", n.value + 1))
            if n.value:
                out.append((k, "const", n.value - 1))
                out.append((k, "const", -n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((k, "const", not n.value))
        elif isinstance(n, ast.If):
            out.append((k, "ifneg", None))
        elif isinstance(n, ast.AugAssign):
            out.append((k, "aug", ast.Sub if isinstance(n.op, ast.Add) else ast.Add))
            out.append((k, "augset", None))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append((k, "swapargs", None))
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            out.append((k, "swaptuple", None))
        if hasattr(n, "body") and isinstance(n.body, list) and not isinstance(n, ast.ClassDef):
            for j, st in enumerate(n.body):
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break,
                                   ast.Raise, ast.Return)) and not \
                        (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    out.append((k, "drop", j))
    return out


def apply(fn, site):
    k, kind, arg = site
    f = copy.deepcopy(fn)
    n = list(ast.walk(f))[k]
    def repl(new):
        for p in ast.walk(f):
            for fld, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, fld, new)
                elif isinstance(v, list):
                    for q, x in enumerate(v):
                        if x is n:
                            v[q] = new
    if kind == "op":
        n.op = arg()
    elif kind == "left":
        repl(n.left)
    elif kind == "right":
        repl(n.right)
    elif kind == "cmp":
        n.ops[0] = arg()
    elif kind == "bool":
        n.op = arg()
    elif kind == "unop":
        repl(n.operand)
    elif kind == "const":
        n.value = arg
    elif kind == "ifneg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "aug":
        n.op = arg()
    elif kind == "augset":
        repl(ast.Assign([n.target], n.value))
    elif kind == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "swaptuple":
        n.elts.reverse()
    elif kind == "drop":
        n.body[arg] = ast.Pass()
    return ast.fix_missing_locations(f)


def find(tree, qual):
    parts = qual.split(".")
    b = tree.body
    for p in parts:
        for x in b:
            if getattr(x, "name", None) == p:
                node, b = x, getattr(x, "body", [])
                break
        else:
            raise SystemExit("no %s" % qual)
    return node


def run(job):
    prop, path, text, desc, harness = job
    t = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/scaks", t + "/scaks", ignore=shutil.ignore_patterns("__pycache__", "tests"))
        open(os.path.join(t, path), "w").write(text)
        env = dict(os.environ, VERIF_REPO=t, PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run([VT, R + "/pyvc/prove.py", prop], env=env, capture_output=True, text=True, timeout=160)
            r = json.loads(p.stdout.strip().split("\n")[-1])
            verdict = "REFUTED" if r["refuted"] else "undecided" if r["undecided"] else "ACCEPTED"
            info = (r["refuted"] or r["undecided"] or [{}])[0]
            info = json.dumps(info)[:160]
        except Exception as e:
            verdict, info = "undecided", repr(e)[:100]
        h = ""
        if harness:
            o = t + "/h.json"
            subprocess.run([PY, R + "/harness/run.py", prop, "--seed", "1", "--budget", "7", "--out", o],
                           env=dict(env, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            try:
                d = json.load(open(o))
                h = " harness:" + ("CATCHES" if d["bad"] else "quiet")
            except Exception as e:
                h = " harness:?"
        return verdict, desc, info + h
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    prop, path, quals = a[0], a[1], a[2].split(",")
    mx = int(sys.argv[sys.argv.index("--max") + 1]) if "--max" in sys.argv else 60
    if "--max" in sys.argv:
        a = [x for x in a if x != str(mx)]
    src = open("/repo/" + path).read()
    tree = ast.parse(src)
    jobs = []
    for q in quals:
        fn = find(tree, q)
        for s in sites(fn):
            m = apply(fn, s)
            lines = src.split("\n")
            first = min([fn.lineno] + [d.lineno for d in fn.decorator_list])
            ind = " "*fn.col_offset
            new = "\n".join(ind + l for l in ast.unparse(m).split("\n"))
            old = ast.unparse(fn).split("\n")
            nw = ast.unparse(m).split("\n")
            import difflib
            d = [l for l in difflib.unified_diff(old, nw, n=0, lineterm="")][3:]
            desc = q.split(".")[-1] + ": " + " // ".join(x.strip() for x in d)[:150]
            txt = "\n".join(lines[:first - 1]) + "\n" + new + "\n" + "\n".join(lines[fn.end_lineno:])
            jobs.append((prop, path, txt, desc, "--harness" in sys.argv))
    random.Random(0).shuffle(jobs)
    jobs = jobs[:mx]
    cnt = {}
    with cf.ThreadPoolExecutor(4 if "--harness" in sys.argv else 8) as ex:
        for v, d, i in ex.map(run, jobs):
            cnt[v] = cnt.get(v, 0) + 1
            if v == "ACCEPTED" or "-v" in sys.argv or "quiet" in i or "--all" in sys.argv:
                print(v, "|", d, "|", i, flush=True)
    print(cnt)


main()
