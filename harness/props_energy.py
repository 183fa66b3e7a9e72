"""C06-C08, C30, C31: energies and thermodynamic corrections."""
import math
import os

from common import *
import common as cm
import tables


def _defs(o, pressure=None, rng=None):
    d = {}
    for g in o.gas:
        d[g] = {"pressure": rng.uniform(.05, 5.0) if rng else 1.0}
    for l in o.liq:
        d[l] = {"concentration": 1.0}
    for s in o.sites:
        d[s] = {"site_name": s[2:], "type": "site", "total": 1.0}
    return d


# ------------------------------------------------------------------ C06
def gen_C06(rng):
    net = Net(rng)
    n = pick_int(rng, 1, 7)
    rxns = net.network(n)
    k = len(rxns)
    sp = [0.0, 0.0, 1e-11, -1e-11, 1e-9, 2e-10, 1e-5, -1e-9]

    def e(lo, hi):
        return [pick_float(rng, lo, hi, sp + [0.5, -0.5]) for _ in range(k)]
    case = dict(rxns=rxns, Ga=e(-0.3, 2.5), dG=e(-2.0, 2.0), T=500.0, bad=None)
    if rng.random() < 0.3:
        case["bad"] = rng.choice(["Ga+", "dG+", "Ga-", "dG-", "both"])
    case["file"] = rng.random() < .4
    return case


def check_C06(case):
    o = Oracle(case["rxns"])
    c = dict(case, defs=_defs(o))
    m = build_model(c, solver=None, parse=False)
    Ga, dG = list(case["Ga"]), list(case["dG"])
    bad = case["bad"]
    if bad:
        if bad == "Ga+" or bad == "both":
            Ga.append(0.3)
        if bad == "dG+" or bad == "both":
            dG.append(0.3)
        if bad == "Ga-":
            Ga.pop()
        if bad == "dG-":
            dG.pop()

    def run():
        if case["file"]:
            with open("c06_rel.py", "w") as f:
                f.write("Ga = %r\ndG = %r\n" % (Ga, dG))
            try:
                m.parser.parse_data(filename="c06_rel.py")
            finally:
                os.remove("c06_rel.py")
        else:
            m.parser.parse_data(filename="no_such_file.py",
                                energy_data=dict(Ga=list(Ga), dG=list(dG)))
    got = raises(("ValueError",), run)
    require((got is None) == (not bad), "lists of {} and {} values for {} reactions: {}",
            len(Ga), len(dG), len(case["rxns"]), "rejected" if got else "accepted")
    if bad:
        require(not m.has_relative_energy and not m.relative_energies,
                "rejected lists left relative energies {}", m.relative_energies)
        return True
    require(m.has_relative_energy is True, "has_relative_energy not set")
    want = relative(Ga, dG)
    have = m.relative_energies
    for k in ("Gaf", "Gar", "dG"):
        require(len(have[k]) == len(Ga), "{} has {} values", k, len(have[k]))
        for i, (w, h) in enumerate(zip(want[k], have[k])):
            ok = (w == h) if k != "Gar" else close(w, h, 1e-12, 1e-14)
            require(ok, "{}[{}] = {} expected {} (Ga={} dG={})", k, i, h, w, Ga[i], dG[i])
    return True


# ------------------------------------------------------------------ C07
def gen_C07(rng):
    net = Net(rng, ts_prob=.5)
    rxns = net.network(rng.randint(1, 5))
    o = Oracle(rxns)
    names = o.gas + o.liq + o.ads + o.ts + o.sites
    return dict(rxns=rxns, T=500.0,
                G={n: pick_float(rng, -6.0, 6.0, (0.0,)) for n in names})


def check_C07(case):
    o = Oracle(case["rxns"])
    m = build_model(dict(case, defs=_defs(o)), parser="AbsoluteEnergyParser",
                    solver=None, parse=False)
    with open("c07_abs.py", "w") as f:
        f.write("absolute_energies = %r\n" % (case["G"],))
    m.parser.parse_data(filename="c07_abs.py")
    os.remove("c07_abs.py")
    G = case["G"]

    def E(st):
        return sum(f[0]*G[f_site_text(f)] for f in st)
    have = m.relative_energies
    for k in ("Gaf", "Gar", "dG"):
        require(len(have[k]) == len(case["rxns"]), "{} has {} values", k, len(have[k]))
    scale = 1 + max(abs(f[0]*G[f_site_text(f)]) for r in case["rxns"] for s in r for f in s)
    for i, rx in enumerate(case["rxns"]):
        i0, f0 = E(rx[0]), E(rx[-1])
        t0 = E(rx[1]) if len(rx) == 3 else max(i0, f0)
        for k, w in (("dG", f0 - i0), ("Gaf", t0 - i0), ("Gar", t0 - f0)):
            require(close(have[k][i], w, 1e-9, 1e-11*scale),
                    "{} of {!r}: {} expected {}", k, rxn_text(rx), have[k][i], w)
    return any(f[0] > 1 for r in case["rxns"] for s in r for f in s)


# ------------------------------------------------------------------ thermodynamics
def shomate(gas, T):
    """Independent Shomate correction with the reference table."""
    rows = [(lo, hi, p) for (g, lo, hi), p in tables.SHOMATE if g == gas]
    res = None
    for lo, hi, P in rows:
        A, B, C, D, E, F, G, H = P

        def h(x):
            t = x/1000.0
            return A*t + B*t*t/2 + C*t**3/3 + D*t**4/4 - E/t + F - H

        def s(x):
            t = x/1000.0
            return A*math.log(t) + B*t + C*t*t/2 + D*t**3/3 - E/(2*t*t) + G

        def cp(x):
            t = x/1000.0
            return A + B*t + C*t*t + D*t**3 + E/(t*t)
        if lo <= T <= hi:
            dH = 298.15*cp(298.15)/1000.0 + h(T) - h(298.15)
            res = (dH - T*s(T)/1000.0)*0.01036427
        elif T < lo and lo < 300:
            res = (T*cp(lo)/1000.0 - T*s(lo)/1000.0)*0.01036427
        if res is not None:
            return res
    return 0.0


def entropy(name, site, T, p, m=None):
    key = name + "_" + site
    if site != "g" or key not in tables.ROT or key not in tables.VIB:
        return 0.0
    if m is None:
        m = AMU*sum(tables.MASS[e]*n for e, n in species_atoms(name).items())
    sigma, th = tables.ROT[key]
    qt = KB_J*T/p*(2*math.pi*m*KB_J*T/H_J**2)**1.5
    if len(th) == 1:
        t = th[0]
        qr = T/(sigma*t)
        if t/T > 0.01:
            qr *= 1 + t/(3*T) + t*t/(15*T*T)
    else:
        qr = math.sqrt(math.pi)/sigma*math.sqrt(T**3/(th[0]*th[1]*th[2]))
    v = tables.VIB[key]
    if len(v) == 1:
        qv = math.exp(-v[0]/(2*T))/(1 - math.exp(-v[0]/T))
    else:
        qv = 1.0
        for x in v:
            qv /= 1 - math.exp(-x/T)
    return -KB_EV*T*math.log(qt*qr*qv)


def _boundaries():
    out = []
    for (g, lo, hi), _ in tables.SHOMATE:
        out += [lo, hi]
    return sorted(set(out))


_TNET = None


def _thermo_case(rng):
    """A network of real gases (with tabulated data) and adsorbates."""
    both = sorted(set(tables.ROT) & set(tables.VIB))
    sho = sorted({g for (g, _, _), _ in tables.SHOMATE})
    pool = rng.sample(both, rng.randint(1, 3)) + rng.sample(sho, rng.randint(0, 2))
    pool = [g for g in dict.fromkeys(pool)
            if set(species_atoms(g[:-2])) <= set(tables.MASS)]
    if rng.random() < .3 or not pool:
        pool.append("HF_g")
    rxns = []
    s = rng.choice(["s", "t"])
    for g in pool:
        sp = g[:-2]
        r = rng.random()
        k = rng.choice([1, 1, 2, 3, 11])
        if r < .3:
            rx = [[[k, sp, 1, "g"], [k, "*", 1, s]], [[k, sp, 1, s]]]
        elif r < .5:
            rx = [[[1, sp, 1, "g"], [1, "*", 1, s]], [[1, "H-" + sp if 0 else sp, 1, s]],
                  [[1, sp, 1, s]]]
        elif r < .65:                    # gas spectator and gas in the middle state
            rx = [[[1, sp, 1, "g"], [1, "*", 1, s]], [[1, sp, 1, "g"], [1, "*", 1, s]],
                  [[1, sp, 1, s]]]
        elif r < .8:
            rx = [[[2, sp, 1, s]], [[1, sp, 1, "g"], [1, "*", 1, s], [1, sp, 1, s]]]
        else:
            rx = [[[1, sp, 1, s], [1, sp, 1, "g"]],
                  [[1, sp, 1, s], [1, sp, 1, s]] if 0 else [[1, sp, 1, s], [1, sp, 1, "l"]]]
        if rng.random() < .4:
            rx = rx[::-1]
        rxns.append(rx)
    if rng.random() < .5:
        rxns += Net(rng).network(rng.randint(1, 2))
    rng.shuffle(rxns)
    texts, out = set(), []
    for r in rxns:
        if rxn_text(r) not in texts:
            texts.add(rxn_text(r))
            out.append(r)
    b = [float(x) for x in _boundaries()]
    T = rng.choice([rng.uniform(60., 2600.), rng.choice(b), rng.choice(b) + rng.choice([.5, -.5]),
                    298.0, 298.15, rng.uniform(250, 900), rng.uniform(250, 900)])
    o = Oracle(out)
    return out, o, T, _defs(o, rng=rng)


def _corr(method, name, T, defs):
    """per-molecule correction of species-with-site text"""
    sp, st = name.split("_")
    if st != "g":
        return 0.0
    if method == "shomate":
        return shomate(name, T)
    return entropy(sp, st, T, P_STD*defs[name]["pressure"])


# ------------------------------------------------------------------ C08
def gen_C08(rng):
    rxns, o, T, defs = _thermo_case(rng)
    n = len(rxns)
    Gaf = [pick_float(rng, 0, 2.5, (0.0,)) for _ in range(n)]
    dG = [pick_float(rng, -2, 2, (0.0,)) for _ in range(n)]
    closed = rng.random() < .8
    Gar = [a - d for a, d in zip(Gaf, dG)]
    for i, r in enumerate(rxns):
        if len(r) == 2:
            Gaf[i] = max(0.0, dG[i])
            Gar[i] = Gaf[i] - dG[i]
    if not closed:
        Gar = [g + rng.uniform(-.5, .5) for g in Gar]
    method = rng.choice(["shomate", "entropy", "shomate", "entropy", "Shomate", "none", ""])
    return dict(rxns=rxns, T=T, defs=defs, method=method,
                rel=dict(Gaf=Gaf, Gar=Gar, dG=dG), closed=closed)


def check_C08(case):
    m = build_model(case, solver=None, parse=False, corrector="ThermodynamicCorrector")
    rel = {k: list(v) for k, v in case["rel"].items()}
    method = case["method"]
    box = []
    got = raises(("ValueError",), lambda: box.append(
        m.corrector.correct_relative_energies(rel, method=method)))
    ok = method in ("shomate", "entropy")
    require((got is None) == ok, "method {!r} {}", method, "rejected" if got else "accepted")
    if not ok:
        require(rel == case["rel"], "rejected method changed the energies")
        return False
    have = box[0]
    nz = False
    for i, rx in enumerate(case["rxns"]):
        sh = [sum(f[0]*_corr(method, f_site_text(f), case["T"], case["defs"]) for f in st)
              for st in rx]
        nz = nz or any(sh)
        a, r, d = [case["rel"][k][i] for k in ("Gaf", "Gar", "dG")]
        if len(rx) == 3:
            w = dict(Gaf=a + sh[1] - sh[0], Gar=r + sh[1] - sh[2], dG=d + sh[2] - sh[0])
        else:
            e0, e1 = sh[0], d + sh[1]
            t = max(e0, e1)
            w = dict(Gaf=t - e0, Gar=t - e1, dG=e1 - e0)
        for k in w:
            require(close(have[k][i], w[k], 1e-9, 1e-9*(1 + max(map(abs, sh)))),
                    "{} of {!r} after {} correction: {} expected {}", k, rxn_text(rx),
                    method, have[k][i], w[k])
    for k in have:
        require(len(have[k]) == len(case["rxns"]), "{} has {} values", k, len(have[k]))
    return nz


# ------------------------------------------------------------------ C30
def gen_C30(rng):
    both = sorted(set(tables.ROT) | set(tables.VIB))
    sho = sorted({g for (g, _, _), _ in tables.SHOMATE})
    name = rng.choice(both + sho + ["HF_g", "CO_s", "H2O_l", "*_s", "O2_2t", "C2H6_g"])
    b = [float(x) for x in _boundaries()]
    T = rng.choice([None, rng.uniform(60, 2600), rng.choice(b), rng.choice(b) + .5,
                    rng.choice(b) - .5, 298.15, rng.uniform(250, 900)])
    if name in tables.ROT and rng.random() < .3:
        th = tables.ROT[name][1]
        if len(th) == 1:
            T = max(th[0]*rng.choice([99, 101, 50, 3, 4, 120, 100.0]), 30.0)
    return dict(name=name, T=T, T0=rng.choice([298.0, 500.0, rng.uniform(260, 900)]),
                m=rng.choice([None, None, rng.uniform(1e-27, 1e-25)]),
                p=rng.choice([None, None, rng.uniform(10., 5e5)]),
                press=rng.uniform(0.02, 9.0))


_c30 = {}


def check_C30(case):
    name = case["name"]
    sp, st = name.split("_")
    T0 = case["T0"]
    rxns = [[[[1, "CO", 1, "g"], [1, "*", 1, "s"]], [[1, "CO", 1, "s"]]]]
    defs = {"CO_g": {"pressure": 1.0}, "*_s": {"site_name": "s", "type": "site", "total": 1.}}
    if st == "g":
        defs[name] = {"pressure": case["press"]}
    m = build_model(dict(rxns=rxns, defs=defs, T=T0), solver=None, parse=False)
    T = case["T"] if case["T"] is not None else T0
    nsite = "".join(c for c in st if c.isdigit())
    site = st[len(nsite):]
    kw = {} if case["T"] is None else {"T": case["T"]}
    want = shomate(name, T) if site == "g" else 0.0
    have = m.corrector.shomate_correction(name, **kw)
    require(close(have, want, 1e-9, 1e-11), "Shomate correction of {} at {} K: {} expected {}",
            name, T, have, want)
    p = case["p"]
    if p is not None:
        kw["p"] = p
    else:
        p = P_STD*case["press"]
    if case["m"] is not None:
        kw["m"] = case["m"]
    try:
        want = entropy(sp, site, T, p, case["m"]) if site == "g" else 0.0
    except KeyError:
        return False                     # element without a reference mass
    have = m.corrector.entropy_correction(name, **kw)
    require(close(have, want, 1e-9, 1e-11),
            "entropy correction of {} at {} K ({}): {} expected {}", name, T, kw, have, want)
    return want != 0.0


# ------------------------------------------------------------------ C31
def gen_C31(rng):
    rxns = Net(rng, ts_prob=.3).network(rng.randint(1, 4))
    o = Oracle(rxns)
    names = o.gas + o.liq + o.ads + o.ts + o.sites
    return dict(rxns=rxns, T=rng.uniform(250., 1200.),
                G={n: pick_float(rng, -2.0, 2.0, (0.0,)) for n in names},
                absolute=rng.random() < .85,
                arg=rng.choice([None, True, False]))


def check_C31(case):
    import mpmath as mp
    o = Oracle(case["rxns"])
    if not o.ads:
        return False
    c = dict(case, defs=_defs(o))
    if not case["absolute"]:
        c["energies"] = dict(Ga=[.5]*len(case["rxns"]), dG=[.1]*len(case["rxns"]))
        m = build_model(c)
        got = raises(("IOError", "OSError"), m.solver.boltzmann_coverages)
        require(got is not None, "Boltzmann coverages given without absolute energies")
        return True
    m = build_model(c, parser="AbsoluteEnergyParser", parse=False)
    with open("c31_abs.py", "w") as f:
        f.write("absolute_energies = %r\n" % (case["G"],))
    m.parser.parse_data(filename="c31_abs.py")
    os.remove("c31_abs.py")
    arg = case["arg"]
    have = m.solver.boltzmann_coverages(**({} if arg is None else
                                           dict(include_empty_site=arg)))
    T = mp.mpf(case["T"])
    w = [mp.exp(-mp.mpf(case["G"][a])/(mp.mpf(KB_EV)*T)) for a in o.ads]
    z = sum(w)
    if arg is not False:
        z += sum(mp.exp(-mp.mpf(case["G"][s])/(mp.mpf(KB_EV)*T)) for s in o.sites)
    require(len(have) == len(w), "{} coverages for {} adsorbates", len(have), len(w))
    for a, h, x in zip(o.ads, have, w):
        require(close(h, x/z, 1e-10), "Boltzmann coverage of {}: {} expected {}", a,
                float(h), float(x/z))
    return len(w) > 1
