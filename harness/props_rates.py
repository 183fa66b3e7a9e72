"""C09-C19, C33-C35: rates, coverages, Jacobians and steady states."""
import copy
import itertools
import math
import os

import mpmath as mp
from common import *
import common as cm
import tables
from props_energy import entropy, _thermo_case, _defs

LIMITS = {"C17": 12, "C33": 15, "C35": 12, "C14": 90, "C19": 90, "C34": 120}


def _rel(case):
    return relative(case["energies"]["Ga"], case["energies"]["dG"])


def _k(case, rel=None):
    rel = rel or _rel(case)
    T = case["T"]
    return [kTST(g, T) for g in rel["Gaf"]], [kTST(g, T) for g in rel["Gar"]]


def _rates(case, o, cvgs, rel=None):
    """forward rates, reverse rates, theta (mpf)"""
    kf, kr = _k(case, rel)
    th = {k: mp.mpf(v) for k, v in o.theta(case, [mp.mpf(c) for c in cvgs]).items()}
    f = [o.rate(case, th, rx[0], k) for rx, k in zip(case["rxns"], kf)]
    r = [o.rate(case, th, rx[-1], k) for rx, k in zip(case["rxns"], kr)]
    return f, r, th


def _vec(have, want, what, tol=1e-10, scale=None):
    have = list(have)
    require(len(have) == len(want), "{}: {} values, expected {}", what, len(have), len(want))
    for i, (h, w) in enumerate(zip(have, want)):
        h, w = mp.mpf(h), mp.mpf(w)
        s = max(abs(w), abs(h))
        if scale is not None:
            s = max(s, scale[i])
        require(abs(h - w) <= tol*s or abs(h - w) < mp.mpf(10)**-250,
                "{}[{}] = {} expected {}", what, i, mp.nstr(h, 15), mp.nstr(w, 15))


def _names(case):
    return [rxn_text(r) for r in case["rxns"]]


def rand_rel(rng, n):
    Gaf = [pick_float(rng, -.1, 2.0, (0.0,)) for _ in range(n)]
    Gar = [pick_float(rng, -.1, 2.0, (0.0,)) for _ in range(n)]
    return dict(Gaf=Gaf, Gar=Gar, dG=[a - b for a, b in zip(Gaf, Gar)])


# ------------------------------------------------------------------ C09
def gen_C09(rng):
    c = gen_model_case(rng, nmax=4, min_ads=0)
    c["rel"] = rand_rel(rng, len(c["rxns"])) if rng.random() < .5 else None
    c["drop"] = rng.choice([None, None, None, "Gaf", "Gar", "both"]) if c["rel"] else None
    return c


def check_C09(case):
    o = Oracle(case["rxns"])
    m = build_model(case)
    mp.mp.dps = 100
    rel = case["rel"]
    if rel and case["drop"]:
        bad = {k: v for k, v in rel.items() if k != case["drop"] and
               not (case["drop"] == "both" and k != "dG")}
        got = raises(("ParameterError",),
                     lambda: m.solver.get_rate_constants(relative_energies=bad))
        require(got is not None, "energies with only {} accepted", sorted(bad))
        return True
    kw = {} if rel is None else dict(relative_energies=copy.deepcopy(rel))
    kf, kr = m.solver.get_rate_constants(**kw)
    wf, wr = _k(case, rel)
    _vec(kf, wf, "kf")
    _vec(kr, wr, "kr")
    e = rel or _rel(case)
    T = mp.mpf(case["T"])
    for i in range(len(wf)):
        K = mp.exp(-(mp.mpf(e["Gaf"][i]) - mp.mpf(e["Gar"][i]))/(mp.mpf(KB_EV)*T))
        require(close(kf[i]/kr[i], K, 1e-9), "kf/kr of reaction {}", i)
    for i, (t, rx) in enumerate(zip(_names(case), case["rxns"])):
        for inc in (False, True):
            f, r = m.solver.get_rxn_rates_TST(t, e, **(dict(include_pressure=True)
                                                       if inc else {}))
            pf = pr = 1
            if inc:
                for fo in rx[0]:
                    if fo[3] == "g":
                        pf = pf*mp.mpf(case["defs"][f_site_text(fo)]["pressure"])**fo[0]
                for fo in rx[-1]:
                    if fo[3] == "g":
                        pr = pr*mp.mpf(case["defs"][f_site_text(fo)]["pressure"])**fo[0]
            _vec([f, r], [wf[i]*pf, wr[i]*pr],
                 "TST rates of {!r} (pressures {})".format(t, inc))
    return True


# ------------------------------------------------------------------ C10
def gen_C10(rng):
    kind = rng.random()
    if kind < .12:
        return dict(kind="kct", Ea=rng.uniform(0, 2), Auc=rng.uniform(1e-20, 1e-18),
                    ratio=rng.choice([1.0, .5, 1.0001, 2.0]), f=rng.choice([1.0, .7, 1.001, 3.]),
                    m=rng.uniform(1e-27, 1e-25), T=rng.uniform(250, 1200),
                    p=rng.choice([None, rng.uniform(1, 3e5)]))
    while True:
        rxns, o, T, defs = _thermo_case(rng)
        rxns = [r for r in rxns
                if all(set(species_atoms(f[1])) <= set(tables.MASS)
                       for s in r for f in s) and
                all(sum(f[3] == "g" for f in s) <= 1 for s in (r[0], r[-1]))]
        if rxns:
            break
    o = Oracle(rxns)
    defs = _defs(o, rng=rng)
    T = rng.uniform(200, 1200)
    n = len(rxns)
    return dict(kind="rates", rxns=rxns, T=T, defs=defs, algo="CT", rel=rand_rel(rng, n),
                area=rng.choice([9e-20, 3.1e-19, 0.0, -1e-20] if rng.random() < .3
                                else [9e-20, 5.3e-20]),
                ratio=rng.choice([1.0, .44, .1]), solver=rng.choice(["SteadyStateSolver"]))


def ct_pair(case, rx, a, r, d, inc):
    """Collision-theory rates of one reaction and the entropy correction used."""
    T, area, ratio = case["T"], case["area"], case["ratio"]
    gi = [f for f in rx[0] if f[3] == "g"]
    gf = [f for f in rx[-1] if f[3] == "g"]
    g = (gi or gf or [None])[0]
    p = P_STD
    if g is not None and inc:
        p = P_STD*case["defs"][f_site_text(g)]["pressure"]
    c = 0.0
    if g is not None:
        c = g[0]*entropy(g[1], "g", T, p)
    if gi:
        mass = AMU*sum(tables.MASS[e]*n for e, n in species_atoms(g[1]).items())
        wf = ratio*math.exp(-a/(KB_EV*T))*p*area/math.sqrt(2*math.pi*mass*KB_J*T)
        eq = -math.log(wf*H_EV/(KB_EV*T))*KB_EV*T
        b = max(0.0, eq - (d - c))
        wr = kTST(b, T)
    elif gf:
        wf, wr = kTST(a, T), kTST(r - c, T)
    else:
        wf, wr = kTST(a, T), kTST(r, T)
    return wf, wr, c


def check_C10(case):
    from scaks.solvers.solver_base import SolverBase
    mp.mp.dps = 100
    if case["kind"] == "kct":
        kw = dict(Ea=case["Ea"], Auc=case["Auc"], act_ratio=case["ratio"], m=case["m"],
                  T=case["T"], f=case["f"])
        if case["p"] is not None:
            kw["p"] = case["p"]
        box = []
        got = raises(("ParameterError",), lambda: box.append(SolverBase.get_kCT(**kw)))
        ok = case["ratio"] <= 1.0 and case["f"] <= 1.0
        require((got is None) == ok, "ratio {} factor {}: {}", case["ratio"], case["f"],
                "rejected" if got else "accepted")
        if ok:
            p = case["p"] if case["p"] is not None else P_STD
            w = (case["f"]*case["ratio"]*math.exp(-case["Ea"]/(KB_EV*case["T"]))*p *
                 case["Auc"]/math.sqrt(2*math.pi*case["m"]*KB_J*case["T"]))
            require(close(box[0], w, 1e-9), "kCT {} expected {}", box[0], w)
        return True
    T, area, ratio = case["T"], case["area"], case["ratio"]
    m = build_model(case)
    rel = case["rel"]
    names = _names(case)
    if not area > 0:
        got = raises(("AttributeError",),
                     lambda: m.solver.get_rate_constants(relative_energies=rel))
        require(got is not None, "unit cell area {} accepted", area)
        return True
    have = m.solver.get_rate_constants(relative_energies=copy.deepcopy(rel))
    nontriv = False
    for i, rx in enumerate(case["rxns"]):
        a, r, d = rel["Gaf"][i], rel["Gar"][i], rel["dG"][i]
        for inc in (False, True):
            wf, wr, c = ct_pair(case, rx, a, r, d, inc)
            nontriv = nontriv or (c != 0)
            got = m.solver.get_rxn_rates_CT(names[i], rel, **(
                dict(include_pressure=True) if inc else {}))
            _vec(got, [wf, wr], "CT rates of {!r} (pressures {})".format(names[i], inc), 1e-8)
            if not inc:
                _vec([have[0][i], have[1][i]], [wf, wr], "CT rate constants", 1e-8)
    return nontriv


# ------------------------------------------------------------------ C11
OPS = ["k", "rates", "net", "dtheta", "jac", "tof", "resid", "deriv"]


def gen_C11(rng):
    c = gen_model_case(rng, nmax=3, dups=False, min_ads=1)
    for g in c["defs"].values():
        if g.get("pressure") == 0.0:
            g["pressure"] = .3
    n = len(c["rxns"])
    o = Oracle(c["rxns"])
    c["rels"] = [rand_rel(rng, n) for _ in range(2)]
    # energies that agree in some keys only, and small changes
    e = copy.deepcopy(c["rels"][0])
    e[rng.choice(["Gar", "Gaf"])][rng.randrange(n)] += rng.choice([1e-3, 1e-6, .5, 1e-9, 1e-12,
                                                                  2e-13, 1e-14])
    c["rels"].append(e)
    if rng.random() < .2:
        # numbers with equal hashes, exchanged lists, integers
        i = rng.randrange(n)
        a, b = copy.deepcopy(c["rels"][0]), copy.deepcopy(c["rels"][0])
        how = rng.choice(["hash", "swap", "int"])
        if how == "hash":
            a["Gar"][i], b["Gar"][i] = -1.0, -2.0
        elif how == "swap":
            b["Gaf"], b["Gar"] = a["Gar"], a["Gaf"]
        else:
            a["Gaf"][i], b["Gaf"][i] = 1.0, True + 1e-11
        c["rels"][:2] = [a, b]
    elif rng.random() < .1:
        c["rels"][1] = {}       # as if not given
    c["cv"] = [gen_cvgs(rng, o, c["defs"]) for _ in range(2)]
    if rng.random() < .3:
        c["cv"][1] = list(c["cv"][0])
        c["cv"][1][rng.randrange(len(o.ads))] += rng.choice([1e-9, 1e-12, 1e-15, 1e-17])
    other = copy.deepcopy({k: c[k] for k in ("rxns", "defs", "T", "algo", "energies",
                                             "area", "ratio", "cvgs")})
    what = rng.choice(["T", "total", "energies", "pressure", "rxns"])
    if what == "T":
        other["T"] = c["T"] + rng.choice([50.0, 1.0])
    elif what == "total":
        for s in o.sites:
            other["defs"][s]["total"] = round(c["defs"][s]["total"]*rng.choice([.5, 2.]), 4)
    elif what == "pressure":
        for g in o.gas:
            other["defs"][g]["pressure"] *= 2
    elif what == "energies":
        other["energies"] = closed_energies(rng, n)
    else:
        other["rxns"] = other["rxns"][::-1]
        other["energies"] = {k: v[::-1] for k, v in other["energies"].items()}
    c["other"] = other
    c["hist"] = [[rng.randint(0, 1), rng.choice(OPS), rng.choice([None, None, 0, 1, 2]),
                  rng.randint(0, 1)] for _ in range(rng.randint(2, 9))]
    c["query"] = [rng.choice(OPS), rng.choice([None, None, 0, 1, 2]), rng.randint(0, 1)]
    c["newE"] = closed_energies(rng, n) if rng.random() < .4 else None
    if c["rels"][1] == {}:
        c["query"][1] = 1
        c["hist"].append([0, c["query"][0], 1, c["query"][2]])
    return c


def _ask(m, op, rel, cv):
    s = m.solver
    kw = {} if rel is None else dict(relative_energies=copy.deepcopy(rel))
    if op == "k":
        return [list(x) for x in s.get_rate_constants(**kw)]
    if op == "rates":
        return [list(x) for x in s.get_rates(tuple(cv), **kw)]
    if op == "net":
        return list(s.get_net_rates(tuple(cv), **kw))
    if op == "dtheta":
        return list(s.steady_state_function(tuple(cv), **kw))
    if op == "jac":
        J = s.analytical_jacobian(tuple(cv), **kw)
        return [[J[i, j] for j in range(J.cols)] for i in range(J.rows)]
    if op == "tof":
        return list(s.get_tof(tuple(cv), **kw))
    if op == "resid":
        return [s.get_residual(tuple(cv), **kw)]
    if op == "deriv":
        ex = s.get_dtheta_dt_expressions()
        return [s.poly_adsorbate_derivation(adsorbate_name=a, poly_expression=e)
                for a in m.adsorbate_names for e in ex]


def _flat(x):
    return [z for y in x for z in _flat(y)] if isinstance(x, list) else [x]


def check_C11(case):
    mp.mp.dps = 100
    both = [case, case["other"]]
    ms = [build_model(c) for c in both]
    cvs = [case["cv"], [case["other"]["cvgs"]]*2]
    if case["other"]["rxns"] != case["rxns"]:
        cvs[1] = case["cv"]
    kept = []
    for w, op, e, v in case["hist"]:
        r = _ask(ms[w], op, None if e is None else case["rels"][e], cvs[w][v])
        kept.append((r, copy.deepcopy(r)))
    if case["newE"]:
        ms[0].parser.parse_data(filename="no_such", energy_data=copy.deepcopy(case["newE"]))
    op, e, v = case["query"]
    rel = None if e is None else case["rels"][e]
    have = _ask(ms[0], op, rel, cvs[0][v])
    for a, b in kept:
        require(_flat(a) == _flat(b), "an earlier result changed after later calls")
    fresh_case = dict(case)
    if case["newE"]:
        fresh_case["energies"] = case["newE"]
    want = _ask(build_model(fresh_case), op, rel, cvs[0][v])
    require(_flat(have) == _flat(want),
            "{} (energies {}) after history {}: {} instead of {}", op, e, case["hist"],
            [str(x)[:25] for x in _flat(have)][:6], [str(x)[:25] for x in _flat(want)][:6])
    return True


# ------------------------------------------------------------------ C12
def gen_C12(rng):
    c = gen_model_case(rng, nmax=4, min_ads=0)
    c["rel"] = rand_rel(rng, len(c["rxns"])) if rng.random() < .4 else None
    return c


def check_C12(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    m = build_model(case)
    kw = {} if case["rel"] is None else dict(relative_energies=case["rel"])
    wf, wr, _ = _rates(case, o, case["cvgs"], case["rel"])
    f, r = m.solver.get_rates(tuple(case["cvgs"]), **kw)
    _vec(f, wf, "forward rate", 1e-9)
    _vec(r, wr, "reverse rate", 1e-9)
    net = m.solver.get_net_rates(tuple(case["cvgs"]), **kw)
    _vec(net, [a - b for a, b in zip(wf, wr)], "net rate", 1e-9,
         scale=[max(abs(a), abs(b)) for a, b in zip(wf, wr)])
    return True


# ------------------------------------------------------------------ C13
gen_C13 = gen_C12


def _dtheta(case, o, wf, wr):
    want, scale = [], []
    for a in o.ads:
        t = [o.net(i, a)*(f - r) for i, (f, r) in enumerate(zip(wf, wr))]
        want.append(mp.fsum(t))
        scale.append(max([abs(o.net(i, a))*max(abs(f), abs(r))
                          for i, (f, r) in enumerate(zip(wf, wr))] + [0]))
    return want, scale


def check_C13(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    if not o.ads:
        return False
    m = build_model(case)
    kw = {} if case["rel"] is None else dict(relative_energies=case["rel"])
    wf, wr, th = _rates(case, o, case["cvgs"], case["rel"])
    want, scale = _dtheta(case, o, wf, wr)
    have = m.solver.steady_state_function(tuple(case["cvgs"]), **kw)
    _vec(have, want, "dtheta/dt", 1e-9, scale)
    res = m.solver.get_residual(tuple(case["cvgs"]), **kw)
    require(abs(mp.mpf(res) - max(abs(w) for w in want)) <= 1e-9*max(scale + [mp.mpf(1e-290)]),
            "residual {} expected {}", mp.nstr(res, 12), mp.nstr(max(map(abs, want)), 12))
    kf, kr = _k(case, case["rel"])
    env = dict(kf=kf, kr=kr, theta=th, dtheta_dt=[None]*len(o.ads),
               p={g: mp.mpf(case["defs"][g]["pressure"]) for g in o.gas},
               c={l: mp.mpf(case["defs"][l]["concentration"]) for l in o.liq})
    ex = m.solver.get_dtheta_dt_expressions()
    require(len(ex) == len(o.ads), "{} expressions for {} adsorbates", len(ex), len(o.ads))
    for e in ex:
        exec(e, env)
    _vec(env["dtheta_dt"], want, "dtheta/dt expression", 1e-9, scale)
    return any(w != 0 for w in want)


# ------------------------------------------------------------------ C14
def gen_C14(rng):
    c = gen_model_case(rng, nmax=4, dups=False, min_ads=1)
    c["rel"] = rand_rel(rng, len(c["rxns"])) if rng.random() < .3 else None
    c["wrong"] = rng.random() < .05
    return c


def _jac(case, o, th, rel=None):
    """d(dtheta_i/dt)/dtheta_j by the product rule on the network structure."""
    kf, kr = _k(case, rel)

    def drate(st, k, j):
        """derivative of k*prod conc**n wrt adsorbate j"""
        tot = mp.mpf(0)
        site = o.site_of[j]
        powers = {}
        for f in st:
            powers[f_site_text(f)] = powers.get(f_site_text(f), 0) + f[0]
        for nm, n in powers.items():
            if nm == j:
                d = 1
            elif nm == site:
                d = -1
            else:
                continue
            t = k*n*d*mp.mpf(o.conc(case, th, nm))**(n - 1)
            for nm2, n2 in powers.items():
                if nm2 != nm:
                    t = t*mp.mpf(o.conc(case, th, nm2))**n2
            tot += t
        return tot
    J, S = [], []
    for a in o.ads:
        row, srow = [], []
        for j in o.ads:
            ts = []
            for i, rx in enumerate(case["rxns"]):
                n = o.net(i, a)
                if n:
                    ts += [n*drate(rx[0], kf[i], j), -n*drate(rx[-1], kr[i], j)]
            row.append(mp.fsum(ts))
            srow.append(max([abs(t) for t in ts] + [mp.mpf(0)]))
        J.append(row)
        S.append(srow)
    return J, S


def check_C14(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    m = build_model(case)
    kw = {} if case["rel"] is None else dict(relative_energies=case["rel"])
    if case["wrong"]:
        for cv in (case["cvgs"] + [0.0], case["cvgs"][:-1]):
            got = raises(("ParameterError",),
                         lambda: m.solver.analytical_jacobian(tuple(cv), **kw))
            require(got is not None, "{} coverages for {} adsorbates accepted", len(cv),
                    len(o.ads))
        return True
    th = {k: mp.mpf(v) for k, v in
          o.theta(case, [mp.mpf(c) for c in case["cvgs"]]).items()}
    J, S = _jac(case, o, th, case["rel"])
    H = m.solver.analytical_jacobian(tuple(case["cvgs"]), **kw)
    n = len(o.ads)
    require((H.rows, H.cols) == (n, n), "Jacobian is {}x{} for {}", H.rows, H.cols, n)
    for i in range(n):
        _vec([H[i, j] for j in range(n)], J[i],
             "Jacobian row of " + o.ads[i] + " in " + repr(_names(case)), 1e-9, S[i])
    return True


# ------------------------------------------------------------------ C15
def gen_C15(rng):
    c = gen_model_case(rng, nmax=4, min_ads=1)
    o = Oracle(c["rxns"])
    kind = rng.choice(["ok", "wild", "wild", "over", "edge"])
    if kind == "wild":
        c["cvgs"] = [rng.choice([rng.uniform(-1, 2), rng.uniform(0, 1), rng.uniform(0, 3),
                                 0.0, 1.0]) for _ in o.ads]
    elif kind == "over":
        c["cvgs"] = [rng.uniform(0.2, .9) for _ in o.ads]
    elif kind == "edge":
        c["cvgs"] = [rng.choice([0.0, 1.0, -1e-12, 1 + 1e-12, c["defs"][o.site_of[a]]["total"]])
                     for a in o.ads]
    c["mpf"] = rng.random() < .5
    return c


def check_C15(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    # a huge tolerance makes the starting point itself the answer
    m = build_model(case, tolerance=1e300)
    cv = tuple(mp.mpf(c) if case["mpf"] else c for c in case["cvgs"])
    have = m.solver.get_steady_state_cvgs(c0=cv)
    require(have is not None and len(have) == len(o.ads), "start coverages {}", have)
    clip = {}
    for a, c in zip(o.ads, case["cvgs"]):
        clip[a] = min(max(mp.mpf(c), 0), 1, mp.mpf(case["defs"][o.site_of[a]]["total"]))
    changed = False
    for s in o.sites:
        on = [a for a in o.ads if o.site_of[a] == s]
        tot = mp.mpf(case["defs"][s]["total"])
        sm = mp.fsum(clip[a] for a in on)
        eps = mp.mpf(10)**-14
        for a in on:
            h = mp.mpf(have[o.ads.index(a)])
            w = clip[a] if sm <= tot else clip[a]/sm*tot
            require(abs(h - w) <= 1e-12, "start coverage of {}: {} expected {} (given {})",
                    a, float(h), float(w), case["cvgs"])
            require(-eps <= h <= min(1, tot) + eps, "start coverage of {} is {}", a, float(h))
            changed = changed or w != mp.mpf(case["cvgs"][o.ads.index(a)])
        hs = mp.fsum(mp.mpf(have[o.ads.index(a)]) for a in on)
        require(hs <= tot + 1e-13, "coverages on {} sum to {} of {}", s, float(hs), float(tot))
    if not changed:
        require(all(mp.mpf(h) == mp.mpf(c) for h, c in zip(have, case["cvgs"])),
                "valid start coverages {} changed to {}", case["cvgs"],
                [float(h) for h in have])
    return changed


# ------------------------------------------------------------------ C16
def gen_C16(rng):
    c = gen_model_case(rng, nmax=5, min_ads=1)
    if rng.random() < .5:
        o = Oracle(c["rxns"])
        c["cvgs"] = [rng.uniform(-.5, 1.5) for _ in o.ads]
    c["mpf"] = rng.random() < .5
    return c


def check_C16(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    m = build_model(case)
    cv = tuple(mp.mpf(c) if case["mpf"] else c for c in case["cvgs"])
    d = m.solver._cvg_tuple2dict(cv)
    require(set(d) == set(o.ads) | set(o.sites), "named coverages {}", sorted(d))
    for a, c in zip(o.ads, cv):
        require(d[a] == c, "coverage of {} is {} of {}", a, d[a], c)
    th = o.theta(case, cv)
    for s in o.sites:
        require(close(d[s], th[s], 1e-12, 1e-13), "free coverage of {}: {} expected {}", s,
                d[s], th[s])
    require(m.solver._cvg_dict2tuple(d) == cv, "round trip of {} gives {}", cv,
            m.solver._cvg_dict2tuple(d))
    return len(o.sites) > 1


# ------------------------------------------------------------------ steady states
def _solvable(rng, nmax=3):
    """Small closed cycles that have a physical steady state."""
    s = rng.choice(["s", "t", "hcp"])
    two = rng.random() < .3
    rx = []
    r = rng.random()
    if r < .25:
        rx = [[[[1, "CO", 1, "g"], [1, "*", 1, s]], [[1, "CO", 1, s]]]]
    elif r < .5:
        rx = [[[[1, "O2", 1, "g"], [2, "*", 1, s]], [[2, "O", 1, s]]]]
    elif r < .75:
        rx = [[[[1, "CO", 1, "g"], [1, "*", 1, s]], [[1, "CO", 1, s]]],
              [[[1, "O2", 1, "g"], [2, "*", 1, s]], [[2, "O", 1, s]]],
              [[[1, "CO", 1, s], [1, "O", 1, s]], [[1, "C-OO", 2, s]],
               [[1, "CO2", 1, "g"], [2, "*", 1, s]]]]
    else:
        rx = [[[[1, "H", 1, "g"], [1, "*", 1, s]], [[1, "H", 1, s]]],
              [[[1, "H", 1, s]], [[1, "H", 1, "l"], [1, "*", 1, s]]]]
    if two:
        rx.append([[[1, "N", 1, "g"], [1, "*", 1, "b"]], [[1, "N", 1, "b"]]])
    o = Oracle(rx)
    defs = {}
    for g in o.gas:
        defs[g] = {"pressure": rng.choice([1.0, .5, rng.uniform(.05, 2)])}
    for l in o.liq:
        defs[l] = {"concentration": rng.uniform(.1, 2)}
    for x in o.sites:
        defs[x] = {"site_name": x[2:], "type": "site",
                   "total": rng.choice([1.0, 1.0, .7, 1.3])}
    n = len(rx)
    Ga = [rng.uniform(.3, .9) for _ in range(n)]
    dG = [rng.uniform(-.4, .3) for _ in range(n)]
    c = dict(rxns=rx, defs=defs, T=rng.uniform(400., 900.), algo="TST",
             energies=dict(Ga=Ga, dG=dG), area=9e-20, ratio=1.0)
    c["cvgs"] = gen_cvgs(rng, o, defs)
    return c


def _rel_close(rng, case):
    e = copy.deepcopy(_rel(case))
    for i in range(len(e["Gaf"])):
        d = rng.uniform(-.15, .15)
        e["Gaf"][i] += d
        e["Gar"][i] += d + rng.uniform(-.1, .1)
        e["dG"][i] = e["Gaf"][i] - e["Gar"][i]
    return e


def gen_C17(rng):
    c = _solvable(rng)
    o = Oracle(c["rxns"])
    c["rel"] = _rel_close(rng, c) if rng.random() < .4 else None
    c["root"] = rng.choice(["MDNewton", "MDNewton", "ConstrainedNewton"])
    c["maxit"] = rng.choice([100, 100, 0, 1, 2, 3])
    c["tol"] = rng.choice([1e-8, 1e-8, 1e-4, 1e-12, 1.0, 1e2])
    c["start"] = rng.choice(["c0", "c0", "none", "root", "neg"])
    # how many bad proposals the hybrid method makes before the exact root
    c["nbad"] = rng.randint(0, 3)
    c["props"] = [[rng.choice([rng.uniform(0, 1), rng.uniform(-1, 0), rng.uniform(0, .01)])
                   for _ in o.ads] for _ in range(4)]
    c["negroot"] = rng.random() < .5
    return c


def _exact(case, rel, seed=0):
    """High precision physical steady state by an independent Newton search."""
    o = Oracle(case["rxns"])

    def F(*x):
        f, r, _ = _rates(case, o, x, rel)
        return [mp.fsum(o.net(i, a)*(f[i] - r[i]) for i in range(len(f))) for a in o.ads]
    import random
    rng = random.Random(seed)
    for t in range(12):
        x0 = [mp.mpf(v) for v in gen_cvgs(rng, o, case["defs"])]
        try:
            with mp.workdps(60):
                x = mp.findroot(F, x0, J=lambda *x: mp.matrix(_jac(
                    case, o, {k: mp.mpf(v) for k, v in o.theta(case, x).items()}, rel)[0]),
                    tol=mp.mpf(10)**-80, maxsteps=60, verify=False)
        except Exception:                                     # noqa
            continue
        x = list(x) if len(o.ads) > 1 else [x[0] if hasattr(x, "rows") else x]
        res = max(abs(v) for v in F(*x))
        th = o.theta(case, x)
        if res < mp.mpf(10)**-25 and all(v >= 0 for v in th.values()):
            return x, F
    return None, F


def _exact_all(case, rel, start):
    """The physical steady states found near a point and from many others."""
    found = []
    for seed in range(20, 26):
        x, F = _exact(case, rel, seed)
        if x is not None and all(max(abs(a - b) for a, b in zip(x, y)) > 1e-12 for y in found):
            found.append(x)
    o = Oracle(case["rxns"])
    try:
        with mp.workdps(60):
            x = mp.findroot(F, [mp.mpf(v) for v in start], J=lambda *x: mp.matrix(_jac(
                case, o, {k: mp.mpf(v) for k, v in o.theta(case, x).items()}, rel)[0]),
                tol=mp.mpf(10)**-80, maxsteps=60, verify=False)
        x = list(x) if len(o.ads) > 1 else [x[0] if hasattr(x, "rows") else x]
        if max(abs(v) for v in F(*x)) < mp.mpf(10)**-25:
            found.append(x)
    except Exception:                                         # noqa
        pass
    return found


def _singular(e):
    """mpmath's linear solver gave up on a matrix that is not finite."""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return "mpmath" in tb.tb_frame.f_code.co_filename


def _negative_roots(case, rel, F):
    """A root with a negative coverage, if one is found."""
    o = Oracle(case["rxns"])
    import random
    rng = random.Random(7)
    for _ in range(8):
        x0 = [mp.mpf(rng.uniform(-2, 2)) for _ in o.ads]
        try:
            with mp.workdps(60):
                x = mp.findroot(F, x0, J=lambda *x: mp.matrix(_jac(
                    case, o, {k: mp.mpf(v) for k, v in o.theta(case, x).items()}, rel)[0]),
                    tol=mp.mpf(10)**-80, maxsteps=60, verify=False)
        except Exception:                                     # noqa
            continue
        x = list(x) if len(o.ads) > 1 else [x[0] if hasattr(x, "rows") else x]
        if max(abs(v) for v in F(*x)) < mp.mpf(10)**-25 and any(v < -1e-9 for v in x):
            return x
    return None


def _slack(case, rel, x):
    """Rounding allowance: none for multi-precision coverages."""
    if all(isinstance(c, mp.mpf) for c in x):
        return mp.mpf(0)
    kf, kr = _k(case, rel)
    o = Oracle(case["rxns"])
    one = {n: 1 for n in o.ads + o.sites}
    tot = mp.mpf(0)
    for i, rx in enumerate(case["rxns"]):
        tot += o.rate(case, one, rx[0], kf[i]) + o.rate(case, one, rx[-1], kr[i])
    return 1e-14*tot


class _Tired(Exception):
    pass


def check_C17(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    m = build_model(case, rootfinding=case["root"], tolerance=case["tol"],
                    max_rootfinding_iterations=case["maxit"])
    rel = case["rel"]
    mp.mp.dps = 100
    exact, F = _exact(case, rel)
    if exact is None:
        return False
    neg = _negative_roots(case, rel, F) if case["negroot"] else None
    n = [0]
    steps = []

    def hyb(model, N):
        n[0] += 1
        if n[0] > 6:
            raise _Tired()
        if n[0] <= case["nbad"]:
            if neg is not None and n[0] == 1:
                return list(neg)
            return list(case["props"][n[0]])
        return list(exact)
    from scaks.models.micro_kinetic_model import MicroKineticModel
    old = MicroKineticModel.__dict__["hybrid_method"]
    MicroKineticModel.hybrid_method = staticmethod(hyb)

    class Spy(object):
        interval = 1

        def setup(self, *a):
            del steps[:]

        def register_step(self, model, nt, ic):
            steps.append(nt)

        def finalize(self, *a):
            pass
    try:
        m.analysis.append(Spy())
    except Exception:                                         # noqa
        pass
    c0 = {"c0": case["cvgs"], "none": None, "root": list(exact),
          "neg": list(neg or case["cvgs"])}[case["start"]]
    if c0 is not None and case["nbad"] != 2:
        c0 = [mp.mpf(x) for x in c0]
    kw = {} if rel is None else dict(relative_energies=copy.deepcopy(rel))
    try:
        x = m.solver.get_steady_state_cvgs(c0=None if c0 is None else tuple(c0), **kw)
    except (_Tired, ValueError, ZeroDivisionError, OverflowError) as e:
        return False
    finally:
        MicroKineticModel.hybrid_method = old
        del m.analysis[:]
    if x is None:
        return False
    require(len(x) == len(o.ads), "{} coverages for {} adsorbates", len(x), len(o.ads))
    for a, c in zip(o.ads, x):
        require(c >= 0, "returned coverage of {} is {}", a, float(c))
    f, r, _ = _rates(case, o, x, rel)
    want, scale = _dtheta(case, o, f, r)
    res = max(abs(w) for w in want)
    slack = _slack(case, rel, x) + 1e-60*max(scale + [1])
    require(res <= case["tol"]*(1 + 1e-9) + slack,
            "returned {} with residual {} over tolerance {} (roots {})",
            [float(c) for c in x], mp.nstr(res, 8), case["tol"], [float(c) for c in exact])
    rep = m.solver.coverages
    require(len(rep) == len(x) and all(a == b for a, b in zip(rep, x)),
            "reported coverages {} returned {}", [float(c) for c in rep],
            [float(c) for c in x])
    err = m.solver.error
    nrm = mp.sqrt(mp.fsum(w*w for w in want))
    require(min(abs(mp.mpf(err) - nrm), abs(mp.mpf(err) - res)) <= 1e-6*max(nrm, res) +
            10*slack,
            "reported error {} of a point with norm {} and residual {}", mp.nstr(err, 10),
            mp.nstr(nrm, 10), mp.nstr(res, 10))
    require(len(steps) <= case["maxit"], "a root after {} iterations (limit {}) returned",
            len(steps) + 1, case["maxit"])
    return True


# ------------------------------------------------------------------ C18
def gen_C18(rng):
    c = gen_model_case(rng, nmax=5, min_ads=0)
    c["rel"] = rand_rel(rng, len(c["rxns"])) if rng.random() < .4 else None
    c["rf"] = [rng.choice([rng.uniform(1e-9, 1e9), -rng.uniform(.1, 5)]) for _ in range(rng.randint(1, 6))]
    c["rr"] = [rng.choice([rng.uniform(1e-9, 1e9), 0.0, rng.uniform(0, 1)]) for _ in c["rf"]]
    # rates beyond the range of machine numbers: a common power of ten per reaction
    c["pow"] = [rng.choice([0, 0, 0, -330, -1000, 310, rng.randint(-30, 30)]) for _ in c["rf"]]
    c["cut"] = rng.choice([0, 0, 1, -1])
    c["who"] = rng.randint(0, 20)
    return c


def check_C18(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    m = build_model(case)
    kw = {} if case["rel"] is None else dict(relative_energies=case["rel"])
    f, r, _ = _rates(case, o, case["cvgs"], case["rel"])
    want, scale = [], []
    for g in o.gas + o.liq:
        want.append(mp.fsum(o.net(i, g)*(f[i] - r[i]) for i in range(len(f))))
        scale.append(max([abs(o.net(i, g))*max(f[i], r[i]) for i in range(len(f))]))
    have = m.solver.get_tof(tuple(case["cvgs"]), **kw)
    _vec(have, want, "TOF of " + repr(o.gas + o.liq), 1e-9, scale)
    if o.gas:
        g = o.gas[case["who"] % len(o.gas)]
        one = m.solver.get_tof(tuple(case["cvgs"]), gas_name=g, **kw)
        require(mp.mpf(one) == mp.mpf(have[o.gas.index(g)]), "TOF of {}: {} but {} in {}",
                g, one, have[o.gas.index(g)], have)
    for bad in ["XX_g", "*_s"] + o.ads[:1]:
        got = raises(("ParameterError",),
                     lambda: m.solver.get_tof(tuple(case["cvgs"]), gas_name=bad, **kw))
        require(got is not None, "TOF of {} given", bad)
    rf, rr = list(case["rf"]), list(case["rr"])
    if any(case.get("pow", [])):
        rf, rr = [[mp.mpf(x)*mp.mpf(10)**p for x, p in zip(l, case["pow"])] for l in (rf, rr)]
    if case["cut"] == 1:
        rr.append(1.0)
    elif case["cut"] == -1:
        rf.append(1.0)
    box = []
    got = raises(("ValueError",), lambda: box.append(m.solver.get_reversibilities(rf, rr)))
    require((got is None) == (case["cut"] == 0), "{} forward and {} reverse rates {}",
            len(rf), len(rr), "rejected" if got else "accepted")
    if box:
        require(len(box[0]) == len(rf) and
                all(close(h, b/a, 1e-12) for h, a, b in zip(box[0], rf, rr)),
                "reversibilities {} of {} / {}", box[0], rr, rf)
    return True


# ------------------------------------------------------------------ C19
def gen_C19(rng):
    return gen_model_case(rng, nmax=3, min_ads=1)


def check_C19(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    if any(v == 0 for v in case["cvgs"]):
        case["cvgs"] = [v or 0.01 for v in case["cvgs"]]
    m = build_model(case)
    s = m.solver
    s.get_data_symbols()
    cv = tuple(case["cvgs"])
    f, r, _ = _rates(case, o, cv)
    kf, kr = _k(case)
    a, b = s.get_rate_constants_by_sym()
    _vec(a, kf, "symbolic kf", 1e-9)
    _vec(b, kr, "symbolic kr", 1e-9)
    a, b = s.get_rates_by_sym(cv)
    sc = [mp.mpf(10)**-280]*len(f)
    sites = [max(1, case["defs"][x]["total"]) for x in o.sites]
    cs = [k*mp.mpf(1e-6)*0 + abs(x) for k, x in zip(kf, f)]
    _vec(a, f, "symbolic forward rate", 1e-7, cs)
    _vec(b, r, "symbolic reverse rate", 1e-7, [abs(x) for x in r])
    net = s.get_net_rates_by_sym(cv)
    sc = [max(abs(x), abs(y)) for x, y in zip(f, r)]
    _vec(net, [x - y for x, y in zip(f, r)], "symbolic net rate", 1e-7, sc)
    want = [mp.fsum(o.net(i, g)*(f[i] - r[i]) for i in range(len(f))) for g in o.gas + o.liq]
    scale = [max([abs(o.net(i, g))*sc[i] for i in range(len(f))]) for g in o.gas + o.liq]
    if want:
        _vec(s.get_tof_by_sym(cv), want, "symbolic TOF", 1e-7, scale)
    num = s.get_rates(cv)
    _vec(num[0], f, "forward rate", 1e-9)
    return True


# ------------------------------------------------------------------ C33
def gen_C33(rng):
    while True:
        c = _solvable(rng)
        if len(c["rxns"]) >= 2:
            break
    o = Oracle(c["rxns"])
    c["rel"] = _rel_close(rng, c) if rng.random() < .4 else None
    c["eps"] = rng.choice([None, 1e-3, 1e-4, .01, .1, -1e-3])
    c["gas"] = rng.choice(o.gas)
    c["fresh"] = rng.random() < .1
    return c


def check_C33(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    m = build_model(case)
    rel = case["rel"]
    kw = {} if rel is None else dict(relative_energies=copy.deepcopy(rel))
    eps = case["eps"]
    if case["fresh"]:
        got = raises(("AttributeError",), lambda: m.solver.get_single_XRC(case["gas"], **kw))
        require(got is not None, "rate control given before coverages have converged")
        return True
    exact, F = _exact(case, rel)
    if exact is None:
        return False
    try:
        x = m.solver.get_steady_state_cvgs(c0=tuple(exact), **kw)
        m.tolerance
        x = m.solver.coverages
    except (ValueError, ZeroDivisionError):
        return False
    except TypeError as err:
        if _singular(err):
            return False
        raise
    x = tuple(x)
    before = copy.deepcopy(m.relative_energies)
    kwbefore = copy.deepcopy(kw)
    e = copy.deepcopy(rel or _rel(case))

    def tof(cv, en):
        f, r, _ = _rates(case, o, cv, en)
        return mp.fsum(o.net(i, case["gas"])*(f[i] - r[i]) for i in range(len(f)))

    r0 = tof(x, e)
    k0 = _k(case, e)[0]
    step = mp.mpf(eps) if eps is not None else mp.mpf(0.01)
    want, tol = [], []
    size = max(max(a, b) for a, b in zip(*_rates(case, o, x, e)[:2]))
    if abs(r0) < 1e-6*size or abs(r0) < 1e-4:
        return False
    for i in range(len(k0)):
        e2 = copy.deepcopy(e)
        e2["Gaf"][i] = mp.mpf(e2["Gaf"][i]) + step
        e2["Gar"][i] = mp.mpf(e2["Gar"][i]) + step
        y, _ = _exact(case, e2, seed=3)
        if y is None:
            return False
        r1 = tof(y, e2)
        k1 = _k(case, e2)[0][i]
        want.append((k0[i]/r0)*(r1 - r0)/(k1 - k0[i]))
        # coverages are converged to a residual of 1e-8 only
        tol.append(abs(k0[i]/r0)*mp.mpf(3e-8)*len(k0)/abs(k1 - k0[i])*4)
    kw2 = dict(kw)
    if eps is not None:
        kw2["epsilon"] = eps
    try:
        have = m.solver.get_single_XRC(case["gas"], **kw2)
    except (ZeroDivisionError, ValueError):
        return False
    except TypeError as err:
        if _singular(err):
            return False
        raise
    require(len(have) == len(want), "{} values for {} reactions", len(have), len(want))
    sharp = False
    for i, (h, w, t) in enumerate(zip(have, want, tol)):
        if not abs(mp.mpf(h) - w) <= 1e-5*abs(w) + t + mp.mpf(1e-6):
            # more than one steady state: any of them will do
            e2 = copy.deepcopy(e)
            e2["Gaf"][i] = mp.mpf(e2["Gaf"][i]) + step
            e2["Gar"][i] = mp.mpf(e2["Gar"][i]) + step
            k1 = _k(case, e2)[0][i]
            states = [(k0[i]/r0)*(tof(y, e2) - r0)/(k1 - k0[i])
                      for y in _exact_all(case, e2, x)]
            w = min(states + [w], key=lambda v: abs(mp.mpf(h) - v))
        require(abs(mp.mpf(h) - w) <= 1e-5*abs(w) + t + mp.mpf(1e-6),
                "rate control of reaction {} for {}: {} expected {} (+-{})", i, case["gas"],
                mp.nstr(h, 10), mp.nstr(w, 10), mp.nstr(t, 3))
        sharp = sharp or t < .05
    require(m.relative_energies == before, "the model's energies changed")
    require(kw == kwbefore, "the given energies changed")
    y = tuple(m.solver.coverages)
    require(y == x, "converged coverages {} became {}", [float(v) for v in x],
            [float(v) for v in y])
    return sharp


# ------------------------------------------------------------------ C34
def gen_C34(rng):
    return gen_model_case(rng, nmax=3, min_ads=1, dups=False)


def _sym_defect(case, o, a, i):
    """The known defect: coefficient ignored / first state wins."""
    rx = case["rxns"][i]
    for k, st in enumerate(rx):
        if any(f_site_text(f) == a for f in st):
            return -1 if k == 0 else 1
    return 0


def check_C34(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    m = build_model(case)
    s = m.solver
    s.get_data_symbols()
    cv = tuple(v or 0.01 for v in case["cvgs"])
    f, r, th = _rates(case, o, cv)
    want, scale = _dtheta(case, o, f, r)
    have = list(s.steady_state_function_by_sym(cv)) if all(
        not isinstance(x, int) for x in s.get_dtheta_dt_syms()) else None
    affected = [a for a in o.ads if any(_sym_defect(case, o, a, i) != o.net(i, a)
                                        for i in range(len(case["rxns"])))]
    if have is None:
        # an adsorbate in no initial or final state: outside the statement
        return False
    require(len(have) == len(o.ads), "{} symbolic derivatives", len(have))
    J, S = _jac(case, o, th)
    H = s.analytical_jacobian_by_sym(cv)
    require((H.rows, H.cols) == (len(o.ads), len(o.ads)), "symbolic Jacobian {}x{}", H.rows,
            H.cols)
    known = False
    for i, a in enumerate(o.ads):
        if a in affected:
            # recorded finding: coefficients taken as +-1 by the first state; the
            # values must be exactly those of that reading
            w = mp.fsum(_sym_defect(case, o, a, k)*(f[k] - r[k]) for k in range(len(f)))
            c2 = copy.deepcopy(case)
            _vec([have[i]], [w], "symbolic dtheta/dt of %s (known reading)" % a, 1e-7,
                 [scale[i] + max(max(f), max(r))])
            known = True
            continue
        _vec([have[i]], [want[i]], "symbolic dtheta/dt of " + a, 1e-7, [scale[i]])
        _vec([H[i, j] for j in range(len(o.ads))], J[i], "symbolic Jacobian row of " + a,
             1e-7, S[i])
    if known:
        return ("symbolic dtheta/dt and Jacobian take every adsorbate coefficient as one "
                "(get_elementary_dtheta_dt_sym)")
    return True


# ------------------------------------------------------------------ C35
def gen_C35(rng):
    c = _solvable(rng)
    o = Oracle(c["rxns"])
    c["rel"] = _rel_close(rng, c) if rng.random() < .5 else None
    c["mode"] = rng.choice(["run", "run", "run", "bad"])
    c["coarse"] = rng.choice([True, True, False])
    c["start"] = rng.choice(["c0", "c0", "none"])
    c["badkind"] = rng.choice(["long", "short", "str", "dict", "set"])
    c["xrc"] = rng.random() < .25
    c["again"] = rng.random() < .3
    return c


def check_C35(case):
    mp.mp.dps = 100
    o = Oracle(case["rxns"])
    m = build_model(case)
    cv = list(case["cvgs"])
    if case["mode"] == "bad":
        b = {"long": cv + [.1], "short": cv[:-1] or [.1, .1], "str": "0.1",
             "dict": dict(zip(o.ads, cv)), "set": set(cv + [.123])}[case["badkind"]]
        got = raises(("ParameterError",), lambda: m.run(init_cvgs=b))
        require(got is not None, "initial coverages {!r} accepted", b)
        try:
            t = m.TOFs
        except AttributeError:
            t = None
        require(t is None, "TOFs {} after a rejected run", t)
        return True
    exact, F = _exact(case, case["rel"])
    if exact is None:
        return False
    kw = dict(coarse_guess=case["coarse"])
    if case["rel"] is not None:
        kw["relative_energies"] = copy.deepcopy(case["rel"])
    if case["start"] == "c0":
        kw["init_cvgs"] = list(exact) if not case["coarse"] else cv
    if case["xrc"] and len(case["rxns"]) > 1:
        kw.update(XRC=True, product_name=o.gas[0], epsilon=1e-3)
    if os.path.exists("data.pkl"):
        os.remove("data.pkl")
    n = [0]

    def hyb(model, N):
        n[0] += 1
        if n[0] > 4:
            raise _Tired()
        return [float(x) for x in exact]
    from scaks.models.micro_kinetic_model import MicroKineticModel
    old = MicroKineticModel.__dict__["hybrid_method"]
    MicroKineticModel.hybrid_method = staticmethod(hyb)
    try:
        m.run(**kw)
        if case["again"]:
            kw.pop("XRC", None)
            m.run(**kw)
    except (_Tired, ValueError, ZeroDivisionError, OverflowError, TypeError) as e:
        if isinstance(e, TypeError) and "NoneType" not in str(e):
            raise
        return False
    finally:
        MicroKineticModel.hybrid_method = old
        if os.path.exists("data.pkl"):
            os.remove("data.pkl")
    x = list(m.steady_state_coverages)
    f, r, _ = _rates(case, o, x, case["rel"])
    want, scale = _dtheta(case, o, f, r)
    require(max(abs(w) for w in want) <= 1.0000001e-8 + 1e-60*max(scale) +
            _slack(case, case["rel"], x),
            "reported coverages have residual {}", mp.nstr(max(abs(w) for w in want), 5))
    tof = [mp.fsum(o.net(i, g)*(f[i] - r[i]) for i in range(len(f))) for g in o.gas + o.liq]
    sc = [max([abs(o.net(i, g))*max(f[i], r[i]) for i in range(len(f))]) for g in o.gas + o.liq]
    _vec(m.TOFs, tof, "TOFs after a run", 1e-9, sc)
    _vec(m.reversibilities, [b/a for a, b in zip(f, r)], "reversibilities after a run", 1e-9)
    if not (case["xrc"] and "XRC" in kw):
        require(m.error == m.solver.error, "reported error {} solver error {}", m.error,
                m.solver.error)
        require([mp.mpf(v) for v in m.solver.coverages] == [mp.mpf(v) for v in x],
                "reported coverages differ from the solver's")
    return True
