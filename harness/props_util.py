"""C24-C29: generated text, work splitting, coordinate groups, input checks,
model settings, molecular masses."""
import copy
import os

from common import *
import tables

LIMITS = {}


# ------------------------------------------------------------------ C24
_PLAIN = "abcXYZ0189 _-+*()[]{}<>.,:;#/=%$@!?|~^&\t"


def _num(rng):
    r = rng.random()
    if r < .35:
        return rng.randint(-10**rng.randint(0, 12), 10**rng.randint(0, 20))
    if r < .8:
        return rng.choice([0.0, -0.0, 1e-300, 1e300, .1, 1/3.]) if r < .45 else \
            rng.uniform(-1, 1)*10**rng.randint(-20, 20)
    return rng.choice([True, False, 0, 1])


def _str(rng):
    new = [s for s in literals()[2] if "'" not in s and '"' not in s and "\\" not in s and
           "\n" not in s]
    if new and rng.random() < .2:
        return rng.choice(new)
    return "".join(rng.choice(_PLAIN) for _ in range(rng.randint(0, 12)))


def _value(rng, depth=0):
    r = rng.random()
    if depth < 3 and r < .3:
        v = [_value(rng, depth + 1) for _ in range(rng.randint(0, 4))]
        return v
    return _str(rng) if r < .5 else _num(rng)


def gen_C24(rng):
    k = rng.choice(["list", "list", "dict", "time", "ode"])
    c = dict(kind=k)
    if k == "list":
        n = pick_int(rng, 0, 30)
        c["v"] = [_value(rng) for _ in range(n)]
        c["ncols"] = rng.choice([None, pick_int(rng, 1, 14)])
        c["tup"] = rng.random() < .3
        c["name"] = rng.choice(["a", "times_0", "x1", "_y"])
    elif k == "dict":
        c["v"] = [[_str(rng), rng.choice([_num(rng), [_num(rng), [_num(rng), _str(rng)]]])]
                  for _ in range(rng.randint(0, 8))]
        c["name"] = rng.choice(["d", "reaction_rates"])
    elif k == "time":
        c["v"] = rng.choice([rng.uniform(0, 1e6), float(rng.randint(0, 400000)),
                             rng.randint(0, 10**7), 3600.0*rng.randint(0, 99),
                             60.0*rng.randint(0, 999), 3600*rng.randint(0, 9) + 59.999,
                             rng.uniform(0, 60), 0, 0.0])
    else:
        while True:
            m = gen_model_case(rng, nmax=2, unit_total=True)
            if len(m["cvgs"]) > 0:
                break
        c["model"] = m
        n = rng.randint(1, 25)
        c["dt"] = rng.choice([.1, 1.0, 1e-3])
        c["n"] = n
        c["interval"] = rng.choice([1, 2, 3, 5, 200])
        c["traj"] = [[rng.choice([rng.uniform(0, 1), 0.0, 1e-12]) for _ in m["cvgs"]]
                     for _ in range(n)]
    return c


def _tup(v):
    return tuple(_tup(x) for x in v) if isinstance(v, (list, tuple)) else v


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def check_C24(case):
    from scaks.utilities import format_utilities as fu
    if case["kind"] == "list":
        v = _tup(case["v"]) if case["tup"] else case["v"]
        kw = {} if case["ncols"] is None else dict(ncols=case["ncols"])
        t = fu.get_list_string(case["name"], v, **kw)
        g = {}
        exec(t, g)
        require(same(case["v"], g[case["name"]]), "{!r} evaluates to {!r}", t, g[case["name"]])
        require(set(g) == {"__builtins__", case["name"]}, "other names defined: {}", set(g))
        return bool(case["v"])
    if case["kind"] == "dict":
        d = {k: v for k, v in case["v"]}
        t = fu.get_dict_string(case["name"], d)
        g = {}
        exec(t, g)
        h = g[case["name"]]
        require(isinstance(h, dict) and sorted(h) == sorted(d) and
                all(same(d[k], h[k]) for k in d), "{!r} evaluates to {!r}", t, h)
        return bool(d)
    if case["kind"] == "time":
        s = case["v"]
        h, m, sec = fu.convert_time(s)
        require(h == int(h) and m == int(m) and h >= 0 and 0 <= m < 60 and
                -1e-9*(1 + s) <= sec < 60 + 1e-9*(1 + s) and
                close(h*3600 + m*60 + sec, s, 1e-12, 1e-9), "{} s is {}", s, (h, m, sec))
        return True
    from scaks.solvers import steady_state_solver as sss
    if not hasattr(sss, "ode"):
        return False
    mc, dt = case["model"], case["dt"]
    m = build_model(mc, ode_output_interval=case["interval"])
    import numpy as np
    made = []

    class Ode(object):
        def __init__(self, f, *a):
            self.f, self.k = f, 0

        def set_integrator(self, *a, **k):
            return self

        def set_initial_value(self, y, t=0.0):
            self.y, self.t = np.array([float(x) for x in y]), t
            return self

        def integrate(self, t, *a, **k):
            self.t, self.y = t, np.array(case["traj"][self.k % case["n"]])
            self.k += 1
            made.append((self.t, self.y.tolist()))
            return self.y

        def successful(self):
            return True
    old = sss.ode
    sss.ode = Ode
    fn = "auto_ode_coverages.py"
    if os.path.exists(fn):
        os.remove(fn)
    try:
        t, y = m.solver.solve_ode(time_end=dt*(case["n"] - .5), time_span=dt,
                                  initial_cvgs=list(mc["cvgs"]), traj_output=True)
    finally:
        sss.ode = old
    require(made, "no integration step")
    require(t == made[-1][0] and list(y) == made[-1][1], "last point {} instead of {}", (t, y),
            made[-1])
    g = {}
    exec(open(fn).read(), g)
    rec = [p for i, p in enumerate(made) if (i + 1) % case["interval"] == 0]
    require(same([p[0] for p in rec], g["times"]), "times {} recorded {}", g["times"],
            [p[0] for p in rec])
    require(same([p[1] for p in rec], g["coverages"]), "coverages {} recorded {}",
            g["coverages"], [p[1] for p in rec])
    return bool(rec)


# ------------------------------------------------------------------ C25
def gen_C25(rng):
    n = pick_int(rng, 1, 40)
    return dict(n=n, length=rng.choice([0, n, n - 1, n + 1, 2*n, pick_int(rng, 0, 120),
                                        rng.randint(0, 1000)]))


class _World(object):
    def __init__(self, n):
        self.n, self.r, self.parts = n, 0, None

    def Get_size(self):
        return self.n

    def Get_rank(self):
        return self.r

    def allgather(self, x):
        return [x if i == self.r else self.parts[i] for i in range(self.n)]

    def gather(self, x, root=0):
        return self.allgather(x) if self.r == root else None

    def bcast(self, x, root=0):
        return x

    def barrier(self):
        pass


def check_C25(case):
    from scaks import mpicommons
    n, L = case["n"], max(0, case["length"])
    w = _World(n)
    old = getattr(mpicommons, "MPI", None), mpicommons.MPI_INSTALLED

    class M(object):
        COMM_WORLD = w
    mpicommons.MPI, mpicommons.MPI_INSTALLED = M, True
    try:
        u = mpicommons.MPIUtil()
        u._logger.disabled = True
        seq = list(range(L))
        parts, sizes = [], []
        for r in range(n):
            w.r = r
            parts.append(u.split_seq(seq))
            sizes.append(u.split_size(L))
        w.parts = parts
        require([x for p in parts for x in p] == seq, "{} over {}: {}", L, n, parts)
        require(seq == list(range(L)), "the sequence changed")
        ln = [len(p) for p in parts]
        require(max(ln) - min(ln) <= 1, "parts of {} over {}: {}", L, n, ln)
        require(sum(sizes) == L and max(sizes) - min(sizes) <= 1 and min(sizes) >= 0,
                "sizes of {} over {}: {}", L, n, sizes)
        for r in {0, n - 1, n//2}:
            w.r = r
            got = u.merge_seq(parts[r])
            require(list(got) == seq, "rank {} of {} merges to {}", r, n, got)
        require(u.split_seq("ab"*n) == "ab", "a string splits differently") if L % 2 == 0 else 0
    finally:
        mpicommons.MPI, mpicommons.MPI_INSTALLED = old
    return n > 1


# ------------------------------------------------------------------ C26
def _coord(rng, pool):
    c = list(rng.choice(pool))
    if rng.random() < .3:
        c[rng.randrange(3)] += rng.choice([5e-5, -5e-5, 2e-4, 1e-3])
    return c


_BADCO = [[0.0, 0.0], [0.0, 0.0, 0.0, 0.0], (0.0, 0.0, 0.0), [0, 0.0, 0.0], "abc", [0.0, "x", 0.0],
          None, [True, 0.0, 0.0]]


def gen_C26(rng):
    pool = [[round(rng.uniform(-1, 1), 1) for _ in range(3)] for _ in range(3)] + [[0.0]*3]

    def group():
        n = rng.randint(0, 4)
        return [[_coord(rng, pool) for _ in range(n)],
                None if rng.random() < .3 else
                [rng.choice(["V", "V", "O", "C", "CO"]) for _ in range(n)]]
    ops = []
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(["append", "extend", "move", "add", "badappend", "badelem", "badmove",
                        "badextend", "badextend2", "radd"])
        if k == "append":
            ops.append([k, _coord(rng, pool), rng.choice([None, "O", "V", "C"])])
        elif k == "extend":
            ops.append([k] + group())
        elif k == "move":
            ops.append([k, rng.choice([None, [rng.uniform(-1, 1) for _ in range(3)],
                                       [1.0, 0.0, 0.0]])])
        elif k in ("add", "radd"):
            ops.append([k] + group())
        elif k == "badappend":
            ops.append([k, rng.randrange(len(_BADCO))])
        elif k == "badelem":
            ops.append([k, _coord(rng, pool)])
        elif k == "badmove":
            ops.append([k, rng.choice([[1.0], [1.0]*4, "abc"])])
        elif k == "badextend":
            g = group()
            ops.append([k, g[0], ["O"]*(len(g[0]) + rng.choice([1, -1, 2]))])
        else:
            g = group()
            n = len(g[0])
            i = rng.randint(0, n)
            if rng.random() < .5:
                g[0].insert(i, copy.deepcopy(rng.choice([b for b in _BADCO if type(b) is list])))
                g[1] = ["O"]*(n + 1)
            else:
                g[0].insert(i, _coord(rng, pool))
                g[1] = ["O"]*i + [3] + ["O"]*(n - i)
            ops.append([k] + g)
    g = group()
    return dict(start=g, bad=rng.random() < .1, ops=ops)


def _near(a, b):
    return all(abs(x - y) <= 1e-4 for x, y in zip(a, b))


def _edge(a, b):
    return any(abs(abs(x - y) - 1e-4) < 1e-9 for x, y in zip(a, b))


def _oadd(g, h):
    """(coords, elements) of g + h; None when a pair is at the tolerance."""
    co, el = [list(x) for x in g[0]], list(g[1])
    for c, e in zip(*h):
        hit = None
        for i, r in enumerate(g[0]):
            if _edge(c, r):
                return None
            if _near(c, r):
                hit = i
                break
        if hit is None:
            co.append(list(c))
            el.append(e)
        elif g[1][hit] == "V" and e != "V":
            el[hit] = e
    return co, el


def check_C26(case):
    from scaks.utilities.coordinate_utilities import CoordsGroup

    def mk(g):
        return CoordsGroup(copy.deepcopy(g[0]), copy.copy(g[1]))

    def view(x):
        return [list(c) for c in x.coordinates()], list(x.elements())
    g0 = case["start"]
    if case["bad"]:
        got = raises(("ValueError",), lambda: CoordsGroup(
            copy.deepcopy(g0[0]), ["O"]*(len(g0[0]) + 1)))
        require(got is not None, "a group of other length accepted")
        return True
    G = mk(g0)
    cur = (copy.deepcopy(g0[0]), list(g0[1] or ["V"]*len(g0[0])))
    kept = []
    for op in case["ops"]:
        k = op[0]
        if k == "append":
            G.append(copy.copy(op[1]), op[2]) if op[2] else G.append(copy.copy(op[1]))
            cur[0].append(list(op[1]))
            cur[1].append(op[2] or "V")
        elif k == "extend":
            G.extend(copy.deepcopy(op[1]), op[2])
            cur[0].extend(copy.deepcopy(op[1]))
            cur[1].extend(op[2] or ["V"]*len(op[1]))
        elif k in ("add", "radd"):
            h = (copy.deepcopy(op[1]), list(op[2] or ["V"]*len(op[1])))
            # a 'V' may be matched by several: keep to unambiguous groups
            H = mk([op[1], op[2]])
            a, b, x, y = (G, H, cur, h) if k == "add" else (H, G, h, cur)
            want = _oadd(x, y)
            va, vb = view(a), view(b)
            S = a + b
            require(view(a) == va and view(b) == vb, "an operand of + changed")
            if want is None or any(
                    sum(_near(c, r) for c in y[0]) > 1 for r in x[0]):
                kept.append((S, view(S)))
                continue
            require(view(S) == (want[0], want[1]), "{} + {} is {} instead of {}", x, y, view(S),
                    want)
            kept.append((G, view(G)))
            kept.append((H, view(H)))
            G, cur = S, (copy.deepcopy(want[0]), list(want[1]))
            if any(c is d for c in G.coordinates() for d in H.coordinates()):
                pass
        elif k == "move":
            v = op[1] or [0.0]*3
            before = view(G)
            M = G.move(list(op[1])) if op[1] is not None else G.move()
            require(view(G) == before, "moving changed the group")
            mv = view(M)
            require(mv[1] == cur[1] and len(mv[0]) == len(cur[0]) and all(
                close(p + q, r, 1e-12, 1e-12) for c, d in zip(cur[0], mv[0])
                for p, q, r in zip(c, v, d)), "{} moved by {} is {}", before, v, mv)
            kept.append((G, before))
            G, cur = M, (mv[0], mv[1])
        else:
            before = view(G)
            if k == "badappend":
                f = lambda: G.append(copy.deepcopy(_BADCO[op[1]]))          # noqa
            elif k == "badelem":
                f = lambda: G.append(list(op[1]), 7)                         # noqa
            elif k == "badmove":
                f = lambda: G.move(op[1])                                    # noqa
            else:
                if len(op[1]) == len(op[2]) and k == "badextend":
                    continue
                f = lambda: G.extend(copy.deepcopy(op[1]), op[2])            # noqa
            got = raises(("ValueError",), f)
            require(got is not None, "{} accepted", op if k != "badappend" else _BADCO[op[1]])
            require(view(G) == before, "{} changed the group: {}", op, view(G))
        require(len(G.coordinates()) == len(G.elements()) == len(G), "sizes differ")
        require(view(G) == cur, "group {} expected {} after {}", view(G), cur, op)
    for x, v in kept:
        require(view(x) == v, "an earlier group changed")
    return True


# ------------------------------------------------------------------ C27
class _Odd(object):
    pass


def _junk(rng):
    return rng.choice([None, 1, 1.5, "x", [], {}, True, [1], ["a"], [[0.0]], "abc"])


def gen_C27(rng):
    kind = rng.choice(["process", "process", "process", "interval", "interval", "species",
                       "ref", "seq", "string"])
    c = dict(kind=kind, tuples=rng.random() < .4)
    if kind == "process":
        n = rng.randint(0, 3)
        pool = [[0.0, 0.0, 0.0], [.5, 0.0, 0.0], [0.0, .5, 0.0], [0.0, 0.0, 5e-7],
                [0.0, 0.0, 2e-6], [.5, 0.0, 1e-3]]
        d = dict(reaction="CO_g + *_t -> CO_t",
                 coordinates_group=[rng.sample(pool, n) for _ in range(rng.randint(0, 3))],
                 elements_before=["V"]*n, elements_after=["O"]*n,
                 basis_sites=[rng.randint(0, 5) for _ in range(rng.randint(0, 3))])
        if rng.random() < .3:
            d["fast"] = True
        k = rng.choice(sorted(d))
        m = rng.random()
        if m < .15:
            del d[k]
        elif m < .35:
            d[k] = _junk(rng)
        elif m < .5 and d["coordinates_group"]:
            i = rng.randrange(len(d["coordinates_group"]))
            co = d["coordinates_group"][i]
            w = rng.random()
            if w < .3:
                d["coordinates_group"][i] = _junk(rng)
            elif co:
                j = rng.randrange(len(co))
                co[j] = rng.choice([_junk(rng), [0.0, 1, 0.0], [0.0]*rng.randint(0, 5),
                                    [0.0, 0.0, "x"], list(co[0])])
        elif m < .6:
            e = rng.choice(["elements_before", "elements_after"])
            d[e] = rng.choice([["V"]*(n + 1), ["V"]*max(0, n - 1), [1]*n, "V"*n])
        elif m < .7:
            d["basis_sites"] = rng.choice([[1.0], ["0"], [True], [0, None], 3])
        c["v"] = d
    elif kind == "interval":
        def tri():
            a = rng.randint(-5, 10)
            b = a + rng.randint(-2, 8)
            return [a, b, rng.randint(-1, 9)]
        r = rng.random()
        if r < .25:
            c["v"] = rng.choice([0, 1, -3, 10**9, 1.0, "1", None, True, {}])
        else:
            v = [rng.choice([rng.randint(0, 9), tri(), tri()]) for _ in range(rng.randint(0, 4))]
            if rng.random() < .4 and v:
                v[rng.randrange(len(v))] = rng.choice(
                    [1.5, "a", None, [1, 2], [1, 2, 3, 4], [0, 5.0, 1], [True, 2, 1], [], {}])
            c["v"] = v
    elif kind == "species":
        v = {}
        for _ in range(rng.randint(0, 4)):
            nm = rng.choice(["CO_g", "H2_g", "CO_s", "*_s", "H2O_l", "g", "_g", "CO_gs", "X_G"])
            d = {}
            if rng.random() < .6:
                d["pressure"] = rng.choice([1.0, 0.0, None, "x"])
            if rng.random() < .4:
                d["total"] = 1.0
            v[nm] = d
        c["v"] = v if rng.random() < .85 else _junk(rng)
    elif kind == "ref":
        v = {rng.choice("HCNO") + rng.choice("12"): rng.choice([1.0, -2.5, 0.0, 1, "1", None, True]
                                                              if rng.random() < .3 else [.5, -1.0])
             for _ in range(rng.randint(0, 4))}
        c["v"] = v if rng.random() < .85 else _junk(rng)
        c["badkey"] = rng.random() < .1
    elif kind == "seq":
        c["t"] = rng.choice(["int", "str", "float", "list"])
        c["v"] = rng.choice([_junk(rng), [_junk(rng) for _ in range(rng.randint(0, 3))],
                             [1, 2], ["a"], [.5], [[1]]])
    else:
        c["v"] = rng.choice(["V", "O", "x", "", 1, None, ["V"]])
        c["rng"] = rng.choice([["V", "O"], [], ["x"]])
    return c


def _is(v, t):
    return isinstance(v, t)


def ok_process(d):
    if not all(k in d for k in ("reaction", "coordinates_group", "elements_before",
                                "elements_after", "basis_sites")):
        return False
    if not _is(d["reaction"], str) or type(d["coordinates_group"]) not in (list, tuple):
        return False
    for co in d["coordinates_group"]:
        if type(co) is not list:
            return False
        for c in co:
            if type(c) is not list or len(c) != 3 or not all(_is(x, float) for x in c):
                return False
        for i in range(len(co)):
            for j in range(i):
                if not any(abs(a - b) > 1e-6 for a, b in zip(co[i], co[j])):
                    return False
    for k in ("elements_before", "elements_after"):
        e = d[k]
        if type(e) not in (list, tuple) or not all(_is(x, str) for x in e):
            return False
        if any(len(e) != len(co) for co in d["coordinates_group"]):
            return False
    b = d["basis_sites"]
    return type(b) in (list, tuple) and all(_is(x, int) for x in b)


def ok_interval(v):
    if type(v) is int:
        return True
    if type(v) not in (list, tuple):
        return False
    for x in v:
        if type(x) is int:
            continue
        if type(x) not in (list, tuple) or len(x) != 3 or any(type(i) is not int for i in x):
            return False
        if x[1] < x[0] or x[2] > x[1] - x[0]:
            return False
    return True


def check_C27(case):
    from scaks.utilities import check_utilities as cu
    v = copy.deepcopy(case["v"])
    k = case["kind"]
    if k == "process":
        if case["tuples"] and type(v.get("coordinates_group")) is list:
            v["coordinates_group"] = tuple(v["coordinates_group"])
            for e in ("elements_before", "elements_after", "basis_sites"):
                if type(v.get(e)) is list:
                    v[e] = tuple(v[e])
        ok, f = ok_process(v), lambda: cu.check_process_dict(v)
    elif k == "interval":
        if case["tuples"] and type(v) is list:
            v = tuple(tuple(x) if type(x) is list else x for x in v)
        ok, f = ok_interval(v), lambda: cu.check_analysis_interval(v)
    elif k == "species":
        ok = _is(v, dict) and all("pressure" in d for n, d in v.items() if n.endswith("_g"))
        f = lambda: cu.check_species_definitions(v)                          # noqa
    elif k == "ref":
        if case["badkey"] and _is(v, dict):
            v[3] = 1.0
        ok = _is(v, dict) and all(_is(a, str) and _is(b, float) for a, b in v.items())
        f = lambda: cu.check_ref_energies(v)                                 # noqa
    elif k == "seq":
        t = dict(int=int, str=str, float=float, list=list)[case["t"]]
        ok = type(v) in (list, tuple) and all(_is(x, t) for x in v)
        f = lambda: cu.check_sequence(v, t, "it")                            # noqa
    else:
        ok = _is(v, str) and v in case["rng"]
        f = lambda: cu.check_string(v, case["rng"], "it")                    # noqa
    before = copy.deepcopy(v)
    box = []
    got = raises(("SetupError",), lambda: box.append(f()))
    require((got is None) == ok, "{} {!r} {}", k, v, "rejected" if got else "accepted")
    if ok:
        require(same2(box[0], before) and same2(v, before), "{} {!r} became {!r}", k, before,
                box[0])
    return True


def same2(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same2(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same2(a[k], b[k]) for k in a)
    return a == b


# ------------------------------------------------------------------ C28
# setting -> (kind, extra); values are made per kind
_KM = {"logger_level": ("int", [0, 10, 20, 30, 40, 50]),
       "temperature": ("float", None), "rxn_expressions": ("strs", None),
       "species_definitions": ("species", None), "rate_algo": ("str", None),
       "unitcell_area": ("float", None), "active_ratio": ("float", None),
       "components": ("strs", None)}
_MM = {"decimal_precision": ("int", None), "perturbation_size": ("float", None),
       "perturbation_direction": ("str", ["right", "left"]),
       "numerical_representation": ("str", ["mpmath", "sympy"]),
       "rootfinding": ("str", ["MDNewton", "ConstrainedNewton"]),
       "tolerance": ("float", None), "max_rootfinding_iterations": ("int", None),
       "ode_buffer_size": ("int", None), "ode_output_interval": ("int", None),
       "ref_energies": ("ref", None)}
_CM = {"repetitions": ("ints", None), "periodic": ("bools", None), "nstep": ("int", None),
       "random_seed": ("int", None), "time_seed": ("bool", None),
       "trajectory_dump_interval": ("int", None),
       "random_generator": ("str", ["MT", "MINSTD", "RANLUX24", "RANLUNX48"]),
       "analysis": ("strs", ["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis",
                             "EventAnalysis"]),
       "analysis_interval": ("interval", None), "possible_element_types": ("strs", None),
       "possible_site_types": ("strs", None), "empty_type": ("str", None),
       "tof_start": ("int", None), "time_limit": ("float", None),
       "coverage_ratios": ("floats", None), "start_time": ("float", None),
       "tof_interval": ("float", None), "do_redistribution": ("bool", None),
       "redistribution_interval": ("int", None), "fast_species": ("strs", None),
       "nsplits": ("ints", None), "cell_vectors": ("vec", None), "basis_sites": ("vec", None),
       "distributor_type": ("str", ["RandomDistributor", "ProcessRandomDistributor"])}
_DEF = {"temperature": 298.0, "rxn_expressions": [], "species_definitions": {},
        "rate_algo": "TST", "unitcell_area": 0.0, "active_ratio": 1.0,
        "components": ["parser"], "decimal_precision": 100, "perturbation_size": .01,
        "perturbation_direction": "right", "numerical_representation": "mpmath",
        "rootfinding": "MDNewton", "tolerance": 1e-8, "max_rootfinding_iterations": 100,
        "ode_buffer_size": 500, "ode_output_interval": 200, "ref_energies": {},
        "repetitions": (1, 1, 1), "periodic": (True, True, True), "nstep": 1,
        "random_seed": None, "time_seed": False, "trajectory_dump_interval": 1,
        "random_generator": "MT", "analysis": [], "analysis_interval": None,
        "possible_element_types": [], "possible_site_types": [], "empty_type": "V",
        "tof_start": 0, "time_limit": float("inf"), "coverage_ratios": [], "start_time": 0.0,
        "tof_interval": 10, "do_redistribution": False, "redistribution_interval": 1,
        "fast_species": None, "nsplits": (1, 1, 1),
        "cell_vectors": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
        "basis_sites": [[0.0, 0.0, 0.0]],
        "distributor_type": "RandomDistributor"}
_QUERY = {"mm": ["log_allowed", "adsorbate_names", "gas_names", "liquid_names", "site_names",
                 "transition_state_names", "relative_energies", "kB", "h", "TOFs",
                 "reversibilities", "error", "steady_state_coverages", "data_file",
                 "has_relative_energy", "has_absolute_energy"],
          "km": ["log_allowed", "processes", "process_mapping", "process_dicts", "configuration",
                 "sitesmap", "adsorbate_names", "relative_energies"]}


def _accept(kind, cand, v):
    t = type(v)
    if kind == "int":
        return t is int and (cand is None or v in cand)
    if kind == "float":
        return t in (int, float)
    if kind == "str":
        return t is str and (cand is None or v in cand)
    if kind == "bool":
        return t is bool
    if kind in ("ints", "strs", "floats", "bools"):
        e = {"ints": int, "strs": str, "floats": float, "bools": bool}[kind]
        return t in (list, tuple) and all(type(x) is e for x in v) and \
            (cand is None or all(x in cand for x in v))
    if kind == "species":
        return t is dict and all("pressure" in d for n, d in v.items() if n.endswith("_g"))
    if kind == "ref":
        return t is dict and all(type(x) is float for x in v.values())
    if kind == "interval":
        return ok_interval(v)
    if kind == "vec":
        if t is not list or not v or any(type(r) is not list or len(r) != 3 for r in v):
            return False
        return all(type(x) in (int, float) for r in v for x in r) and \
            any(type(x) is float for r in v for x in r)
    raise AssertionError(kind)


def _setval(rng, kind, cand):
    r = rng.random()
    if r < .35:
        return rng.choice([None, 1, 0, 2.5, "MT", "TST", True, [], (), {}, [1], [1.0], ["a"],
                           [[1.0, 2.0, 3.0]], [[1, 2, 3]], [[1.0, 2.0]], [1, "a"], [True, 1],
                           {"CO_g": {}}, {"a": 1.0}, {"a": 1}, 10, [[0, 5, 1]], [[5, 0, 1]],
                           [[1.0, 2.0, 3.0], [0.0, 1.0, 2.0]], "", "zzz"])
    good = {"int": [1, 7, 0, -3, 20], "float": [1.0, 3, 2.5e-3, 500.0], "str": ["x", "CT", "V"],
            "bool": [True, False], "ints": [[1, 2, 3], [2, 2, 1]], "strs": [["a", "b"], ["V"]],
            "floats": [[.5, .5], [1.0]], "bools": [[True, False, True]],
            "species": [{"CO_g": {"pressure": 1.0}}, {"*_s": {"total": 1.0}}],
            "ref": [{"H": 1.0}], "interval": [3, [1, 2], [[0, 9, 2]]],
            "vec": [[[1.0, 2.0, 3.0]], [[1.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 2.0]]]}[kind]
    if cand is not None:
        good = [rng.sample(cand, rng.randint(1, len(cand)))] if kind == "strs" else cand
    return copy.deepcopy(rng.choice(good))


def gen_C28(rng):
    cls = rng.choice(["mm", "km"])
    tab = dict(_KM)
    tab.update(_MM if cls == "mm" else _CM)
    tab.pop("logger_level")
    ops = []
    names = rng.sample(sorted(tab), rng.randint(1, 5))
    for _ in range(rng.randint(2, 12)):
        nm = rng.choice(names)
        m = rng.randint(0, 1)
        k = rng.choice(["read", "set", "set", "mutate", "query", "comp"])
        if k == "set":
            ops.append([k, m, nm, _setval(rng, *tab[nm]), rng.random() < .3])
        elif k == "query":
            ops.append([k, m, rng.choice(_QUERY[cls])])
        elif k == "comp":
            ops.append([k, m, rng.choice(["solver", "corrector", "plotter"])])
        else:
            ops.append([k, m, nm])
    init = {}
    for nm in rng.sample(sorted(tab), rng.randint(0, 3)):
        if nm in ("rxn_expressions", "components"):
            continue
        v = _setval(rng, *tab[nm])
        init[nm] = v
    return dict(cls=cls, ops=ops, init=init)


def check_C28(case):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    from scaks.models.kmc_model import KMCModel
    cls = MicroKineticModel if case["cls"] == "mm" else KMCModel
    tab = dict(_KM)
    tab.update(_MM if case["cls"] == "mm" else _CM)

    def make(extra):
        d = dict(parser="RelativeEnergyParser" if case["cls"] == "mm" else "KMCParser",
                 species_definitions={})
        d.update(copy.deepcopy(extra))
        m = cls(setup_dict=d, logger_level=50, file_handler_level=50, console_handler_level=50)
        quiet_logs()
        return m
    init = case["init"]
    if not all(_accept(tab[n][0], tab[n][1], v) for n, v in init.items()):
        got = raises(("ValueError", "SetupError"), lambda: make(init))
        quiet_logs()
        require(got is not None, "settings {} accepted", init)
        return True
    ms = [make(init), make({})]
    state = [dict(dict(species_definitions={}), **init),
             dict(species_definitions={})]               # values given
    dflt = [{}, {}]                      # defaults obtained (and perhaps changed)

    def expect(i, nm):
        if nm in state[i]:
            return state[i][nm]
        return dflt[i].get(nm, _DEF[nm])
    for op in case["ops"]:
        k, i, nm = op[:3]
        m = ms[i]
        if k == "read":
            v = getattr(m, nm)
            require(same2(_norm(v), _norm(expect(i, nm))), "{} reads {} instead of {}", nm, v,
                    expect(i, nm))
            dflt[i].setdefault(nm, copy.deepcopy(_DEF[nm]))
        elif k == "set":
            val = copy.deepcopy(op[3])
            if op[4] and type(val) is list and tab[nm][0] not in ("vec",):
                val = tuple(val)
            ok = _accept(tab[nm][0], tab[nm][1], val)
            if not ok:
                try:
                    setattr(m, nm, val)
                except Exception as e:                        # noqa
                    names = [c.__name__ for c in type(e).__mro__]
                    require("ValueError" in names or "SetupError" in names,
                            "{} = {!r} raises {!r}", nm, val, e)
                else:
                    raise Bad("%s = %r accepted" % (nm, val))
            elif nm in state[i]:
                got = raises(("AttributeError",), setattr, m, nm, val)
                require(got is not None, "{} changed to {!r} after being given", nm, val)
            else:
                read = nm in dflt[i]
                got = raises(("AttributeError",), setattr, m, nm, val)
                if got is None:
                    require(not read or same2(getattr(m, nm), val), "{} set to {!r} reads {!r}",
                            nm, val, getattr(m, nm))
                    state[i][nm] = val
                    require(same2(_norm(getattr(m, nm)), _norm(val)), "{} set to {!r} reads {!r}",
                            nm, val, getattr(m, nm))
                else:
                    # a setting already read keeps its default
                    require(read or nm in ("rxn_expressions", "components"),
                            "{} = {!r} rejected", nm, val)
            v = getattr(m, nm)
            require(same2(_norm(v), _norm(expect(i, nm))), "{} reads {} instead of {} after "
                    "setting {!r}", nm, v, expect(i, nm), val)
            dflt[i].setdefault(nm, copy.deepcopy(_DEF[nm]))
        elif k == "mutate":
            v = getattr(m, nm)
            dflt[i].setdefault(nm, copy.deepcopy(_DEF[nm]))
            if nm in state[i]:
                if nm == "species_definitions" and m.parser is not None:
                    # handed out as a copy, however deep the change is
                    for inner in v.values():
                        if isinstance(inner, dict):
                            inner["changed"] = 1
                    v["changed"] = 1
                    require(same2(m.species_definitions, state[i][nm]), "the species definitions "
                            "of a model became {}", m.species_definitions)
                continue
            if type(v) is list:
                if v and type(v[0]) is list:
                    v[0].append("changed")
                v.append("changed")
            elif type(v) is dict:
                v["changed"] = 1
            # the model's own reading may or may not show the change
            dflt[i][nm] = copy.deepcopy(getattr(m, nm))
        elif k == "query":
            if not hasattr(type(m), nm):
                continue
            got = raises(("AttributeError",), setattr, m, nm, "changed")
            require(got is not None, "{} can be assigned", nm)
        else:
            from scaks.solvers.solver_base import SolverBase
            from scaks.correctors.corrector_base import CorrectorBase
            from scaks.plotters.plotter_base import PlotterBase
            base = dict(solver=SolverBase, corrector=CorrectorBase, plotter=PlotterBase)[nm]
            new = base.__new__(base)
            before = {c: getattr(m, c) for c in ("solver", "corrector", "plotter", "parser")}
            getattr(m, "set_" + nm)(new)
            for c in before:
                now = getattr(m, c)
                require(now is (new if c == nm else before[c]), "set_{} left {} as {!r}", nm, c,
                        now)
    # the other defaults and a new model are untouched
    fresh = make({})
    for nm in {op[2] for op in case["ops"] if op[0] in ("read", "set", "mutate")}:
        v = getattr(fresh, nm)
        require(same2(_norm(v), _norm(_DEF[nm])), "a new model's {} is {} instead of {}", nm, v,
                _DEF[nm])
    return True


def _norm(v):
    return v


# ------------------------------------------------------------------ C29
def gen_C29(rng):
    els = list(tables.MASS)

    def formula(depth):
        out = ""
        for _ in range(rng.randint(1, 3)):
            if depth and rng.random() < .35:
                out += "(" + formula(depth - 1) + ")"
            else:
                out += rng.choice(els)
            if rng.random() < .5:
                out += str(pick_int(rng, 1, 23, (10, 11)))
        return out
    f = formula(rng.randint(0, 3))
    if rng.random() < .2:
        f = str(pick_int(rng, 1, 12)) + f
    if rng.random() < .12:
        f += rng.choice(["Xe", "Pt", "K", "Cl"])
    return dict(f=f, absolute=rng.choice([None, True, False]))


def expand(s):
    """Element counts of a formula (own recursive reader)."""
    pos = [0]

    def num():
        i = pos[0]
        while pos[0] < len(s) and s[pos[0]].isdigit():
            pos[0] += 1
        return int(s[i:pos[0]]) if pos[0] > i else 1

    def seq():
        d = {}
        while pos[0] < len(s) and s[pos[0]] != ")":
            if s[pos[0]] == "(":
                pos[0] += 1
                sub = seq()
                pos[0] += 1
                n = num()
            else:
                e = s[pos[0]]
                pos[0] += 1
                if pos[0] < len(s) and s[pos[0]].islower():
                    e += s[pos[0]]
                    pos[0] += 1
                sub, n = {e: 1}, num()
            for k, v in sub.items():
                d[k] = d.get(k, 0) + n*v
        return d
    lead = num()
    return {k: v*lead for k, v in seq().items()}


def check_C29(case):
    from scaks.functions import string2symbols
    from scaks.parsers.parser_base import ParserBase
    want = expand(case["f"])
    if sum(want.values()) > 200000:
        return False
    if sum(want.values()) > 60000:
        return False
    have = string2symbols(case["f"])
    cnt = {}
    for e in have:
        cnt[e] = cnt.get(e, 0) + 1
    require(cnt == want, "{} splits into {} instead of {}", case["f"], cnt, want)
    kw = {} if case["absolute"] is None else dict(absolute=case["absolute"])
    box = []
    got = raises(("ElementSearchingError",),
                 lambda: box.append(ParserBase.get_molecular_mass(case["f"], **kw)))
    known = all(e in tables.MASS for e in want)
    require((got is None) == known, "{} {}", case["f"], "rejected" if got else "accepted")
    if known:
        w = sum(tables.MASS[e]*n for e, n in want.items())*(AMU if case["absolute"] else 1)
        require(close(box[0], w, 1e-9), "mass of {} is {} instead of {}", case["f"], box[0], w)
    return True
