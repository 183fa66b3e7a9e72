"""Shared part of the concrete harness: scratch set-up, model building,
structured random reaction networks and the independent oracles.

A network is data (never text parsed by the code under test):
  formula  = [coef, species, nsite, site]
  state    = [formula, ...]
  reaction = [state, ...]              (2 or 3 states)
The text handed to SCAKS is rendered from it, so every oracle works on the
structure and never reads reaction text.
"""
import ast
import json
import math
import os
import random
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

KB_EV = 8.6173324e-5
H_EV = 4.135667662e-15
KB_J = 1.38064852e-23
H_J = 6.626070040e-34
P_STD = 101325
AMU = 1.66053904e-27


class Bad(AssertionError):
    """A property is broken by the current case."""


def require(cond, msg, *args):
    if not cond:
        raise Bad(msg.format(*args) if args else msg)


def close(a, b, rel=1e-9, abs_=0.0):
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(rel*max(abs(a), abs(b)), abs_)


def raises(exc_names, fn, *args, **kwargs):
    """Name of the exception if fn raises one of exc_names, else None (a normal
    return); any other exception propagates."""
    try:
        fn(*args, **kwargs)
    except Exception as e:                                    # noqa
        names = [c.__name__ for c in type(e).__mro__]
        for n in exc_names:
            if n in names:
                return n
        raise
    return None


# --------------------------------------------------------------------------
# literals of the current source, used to aim inputs at special values
# --------------------------------------------------------------------------
_BASE = None


def literals():
    """(ints, floats, strings) that occur as literals in the current source but
    not in the recorded baseline; used only to bias input generation."""
    global _BASE
    if _BASE is not None:
        return _BASE
    ints, floats, strs = set(), set(), set()
    try:
        base = json.load(open(os.path.join(HERE, "literals.json")))
    except IOError:
        base = dict(ints=[], floats=[], strs=[])
    for root, _, files in os.walk(os.path.join(REPO, "scaks")):
        if "/tests" in root:
            continue
        for fn in files:
            if not fn.endswith(".py") or fn == "images2gif.py":
                continue
            try:
                tree = ast.parse(open(os.path.join(root, fn)).read())
            except SyntaxError:
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if type(v) is int:
                        ints.add(v)
                    elif type(v) is float:
                        floats.add(v)
                    elif type(v) is str and len(v) < 40:
                        strs.add(v)
    _BASE = (sorted(ints - set(base["ints"])),
             sorted(floats - set(base["floats"])),
             sorted(strs - set(base["strs"])))
    return _BASE


def pick_int(rng, lo, hi, special=()):
    """Integer in [lo, hi]: mostly small, sometimes large or a source literal."""
    pool = [i + d for i in literals()[0] for d in (-1, 0, 1) if lo <= i + d <= hi]
    r = rng.random()
    if pool and r < 0.3:
        return rng.choice(pool)
    if special and r < 0.45:
        return rng.choice([s for s in special if lo <= s <= hi] or [lo])
    if r < 0.85:
        return rng.randint(lo, min(hi, lo + 3))
    return rng.randint(lo, hi)


def pick_float(rng, lo, hi, special=()):
    pool = [f for f in literals()[1] if lo <= f <= hi]
    pool += [float(i) for i in literals()[0] if lo <= i <= hi]
    r = rng.random()
    if pool and r < 0.25:
        c = rng.choice(pool)
        return min(hi, max(lo, c*(1 + rng.choice([0, 0, 1e-3, -1e-3, .2, -.2]))))
    if special and r < 0.4:
        return rng.choice(list(special))
    return rng.uniform(lo, hi)


# --------------------------------------------------------------------------
# networks
# --------------------------------------------------------------------------
ELEMENTS = ["H", "C", "N", "O", "S", "Cl", "F"]
SITES = ["s", "t", "b", "hcp", "gs", "lx", "top", "G", "ll", "ts", "st", "bs"]


def sp_name(atoms, rng):
    """Species name from a list of element symbols."""
    atoms = list(atoms)
    if rng.random() < 0.3:
        rng.shuffle(atoms)
    else:
        atoms.sort(key=lambda a: ELEMENTS.index(a))
    out, i = "", 0
    while i < len(atoms):
        j = i
        while j < len(atoms) and atoms[j] == atoms[i]:
            j += 1
        if rng.random() < 0.1 and j - i > 1:        # write COO instead of CO2
            out += atoms[i]*(j - i)
        else:
            out += atoms[i] + (str(j - i) if j - i > 1 else "")
        i = j
    return out


def species_atoms(name):
    """Element symbols of a species name (independent reader)."""
    d, i = {}, 0
    name = name.replace("-", " ")
    while i < len(name):
        c = name[i]
        if c in "* ":
            i += 1
            continue
        assert c.isalpha(), name
        sym = c
        i += 1
        if c.isupper() and i < len(name) and name[i].islower():
            sym += name[i]
            i += 1
        j = i
        while j < len(name) and name[j].isdigit():
            j += 1
        n = int(name[i:j]) if j > i else 1
        d[sym] = d.get(sym, 0) + n
        i = j
    return d


def f_site_text(f):
    """species-with-site text"""
    return f[1] + "_" + (str(f[2]) if f[2] != 1 else "") + f[3]


def f_text(f):
    return (str(f[0]) if f[0] != 1 else "") + f_site_text(f)


def f_kind(f):
    if f[3] == "g":
        return "gas"
    if f[3] == "l":
        return "liquid"
    if "*" in f[1]:
        return "site"
    return "adsorbate"


def state_text(st):
    return " + ".join(f_text(f) for f in st)


def rxn_text(rx):
    if len(rx) == 2:
        return state_text(rx[0]) + " -> " + state_text(rx[1])
    return (state_text(rx[0]) + " <-> " + state_text(rx[1]) + " -> " +
            state_text(rx[2]))


def state_elements(st):
    d = {}
    for n, sp, _, _ in st:
        for e, k in species_atoms(sp).items():
            d[e] = d.get(e, 0) + n*k
    return d


def state_sites(st):
    d = {}
    for n, sp, ns, s in st:
        if s in ("g", "l"):
            continue
        d[s] = d.get(s, 0) + n*ns
    return d


def balanced(rx):
    first = rx[0]
    return all(state_elements(s) == state_elements(first) and
               state_sites(s) == state_sites(first) for s in rx[1:])


def merge_dups(st):
    """Write every species once (sum of coefficients)."""
    out, idx = [], {}
    for f in st:
        k = (f[1], f[2], f[3])
        if k in idx:
            out[idx[k]][0] += f[0]
        else:
            idx[k] = len(out)
            out.append(list(f))
    return out


def split_atoms(rng, atoms, nmax):
    """Random partition of a list of atoms into 1..nmax groups."""
    atoms = list(atoms)
    rng.shuffle(atoms)
    k = rng.randint(1, max(1, min(nmax, len(atoms))))
    groups = [[a] for a in atoms[:k]]
    for a in atoms[k:]:
        rng.choice(groups).append(a)
    return groups


class Net(object):
    """Generator of balanced reaction networks over a fixed species pool."""

    def __init__(self, rng, max_sites=3, dups=True, ts_prob=0.45, liquid=True,
                 spectators=True, big=True, gas_ok=None):
        self.rng = rng
        sites = [s for s in SITES]
        new = [s for s in literals()[2] if s.isalpha() and s not in ("g", "l")
               and len(s) < 6 and s.isascii()]
        self.sites = rng.sample(sites, rng.randint(1, max_sites))
        if new and rng.random() < 0.4:
            self.sites[0] = rng.choice(new)
        if "s" not in self.sites and rng.random() < 0.5:
            self.sites[0] = "s"
        self.sites = sorted(set(self.sites))
        self.dups, self.ts_prob, self.liquid = dups, ts_prob, liquid
        self.spectators, self.big = spectators, big
        self.names = {}
        self.els = rng.sample(ELEMENTS, rng.randint(1, 3))

    def name(self, atoms):
        key = tuple(sorted(atoms))
        if key not in self.names or (len(self.names[key]) < 2 and
                                     self.rng.random() < 0.1):
            self.names.setdefault(key, []).append(sp_name(atoms, self.rng))
        return self.rng.choice(self.names[key])

    def state(self, atoms, budget, ts=False):
        """Formulas using all atoms and exactly the given site budget (dict)."""
        rng = self.rng
        left = dict(budget)
        out = []
        for grp in split_atoms(rng, atoms, 3):
            nm = self.name(grp)
            usable = [s for s, n in left.items() if n > 0]
            if ts and len(grp) > 1 and usable:
                s = rng.choice(usable)
                ns = rng.randint(1, min(2, left[s]))
                left[s] -= ns
                cut = rng.randint(1, len(grp) - 1)
                nm = sp_name(grp[:cut], rng) + "-" + sp_name(grp[cut:], rng)
                out.append([1, nm, ns, s])
            elif usable and rng.random() < 0.7:
                s = rng.choice(usable)
                ns = 1 if rng.random() < 0.75 else rng.randint(1, min(3, left[s]))
                left[s] -= ns
                out.append([1, nm, ns, s])
            else:
                out.append([1, nm, 1, "l" if self.liquid and rng.random() < 0.2
                            else "g"])
        for s in sorted(left):
            if left[s] > 0:
                if self.dups and left[s] > 1 and rng.random() < 0.2:
                    out.append([1, "*", 1, s])
                    left[s] -= 1
                out.append([left[s], "*", 1, s])
        if self.dups and rng.random() < 0.3:
            pass
        else:
            out = merge_dups(out)
        if rng.random() < 0.5:
            rng.shuffle(out)
        return out

    def reaction(self):
        rng = self.rng
        n = pick_int(rng, 1, 6) if not self.big else pick_int(rng, 1, 24, (11, 12))
        # a unit of atoms repeated, so that coefficients > 1 appear
        unit = [rng.choice(self.els) for _ in range(rng.randint(1, 3))]
        mode = rng.random()
        s = rng.choice(self.sites)
        if mode < 0.25:                               # adsorption A_g + n* -> A
            ns = rng.randint(1, 3)
            sp = self.name(unit)
            g = [1, sp, 1, "g"]
            if rng.random() < 0.2:
                k = pick_int(rng, 1, 12)
                rx = [[[k, sp, 1, "g"], [k*ns, "*", 1, s]], [[k, sp, ns, s]]]
            else:
                rx = [[g, [ns, "*", 1, s]], [[1, sp, ns, s]]]
        elif mode < 0.5:                              # dissociative, coef n
            a = unit[0]
            k = max(2, n)
            big = self.name([a]*k)
            rx = [[[1, big, 1, "g"], [k, "*", 1, s]], [[k, self.name([a]), 1, s]]]
        else:
            atoms = list(unit)
            for _ in range(rng.randint(0, 3)):
                atoms.append(rng.choice(self.els))
            budget = {}
            for x in rng.sample(self.sites, rng.randint(1, len(self.sites))):
                budget[x] = rng.randint(1, 3)
            if not budget:
                budget = {s: 1}
            rx = [self.state(atoms, budget), self.state(atoms, budget)]
            if rng.random() < self.ts_prob:
                rx.insert(1, self.state(atoms, budget, ts=True))
        if len(rx) == 2 and rng.random() < self.ts_prob/2:
            # transition state = initial state rearranged on its sites
            atoms = []
            for c, sp, _, _ in rx[0]:
                for e, k in species_atoms(sp).items():
                    atoms += [e]*(k*c)
            if len(atoms) <= 30:
                rx.insert(1, self.state(atoms, state_sites(rx[0]), ts=True))
        if rng.random() < 0.35:
            rx.reverse()
        if self.spectators and rng.random() < 0.25:   # species on both sides
            cands = [f for st in (rx[0], rx[-1]) for f in st if "-" not in f[1]]
            f = rng.choice(cands)
            for i in range(len(rx)):
                st = rx[i]
                same = [x for x in st if x[1:] == f[1:]]
                if same and not self.dups:
                    same[0][0] += 1
                else:
                    st.append([1] + list(f[1:]))
        return rx

    def network(self, n):
        out, texts = [], set()
        tries = 0
        while len(out) < n and tries < 50:
            tries += 1
            rx = [[list(f) for f in st] for st in self.reaction()]
            t = rxn_text(rx)
            # '-' only in middle states; never two reactions with one text
            if any("-" in f[1] for st in (rx[0], rx[-1]) for f in st):
                continue
            if t in texts:
                continue
            assert balanced(rx), t
            texts.add(t)
            out.append(rx)
        return out


# --------------------------------------------------------------------------
# oracle views of a network
# --------------------------------------------------------------------------
class Oracle(object):
    def __init__(self, rxns):
        self.rxns = rxns
        gas, liq, ads, ts, site = set(), set(), set(), set(), set()
        for rx in rxns:
            for st in rx:
                for f in st:
                    k = f_kind(f)
                    if f[3] not in ("g", "l"):
                        site.add("*_" + f[3])
                    if k == "gas":
                        gas.add(f_site_text(f))
                    elif k == "liquid":
                        liq.add(f_site_text(f))
                    elif "-" in f[1]:
                        ts.add(f_site_text(f))
                    elif k == "adsorbate":
                        ads.add(f_site_text(f))
        self.gas, self.liq = sorted(gas), sorted(liq)
        self.ads, self.ts, self.sites = sorted(ads), sorted(ts), sorted(site)
        self.site_of = {}
        for rx in rxns:
            for st in rx:
                for f in st:
                    self.site_of[f_site_text(f)] = "*_" + f[3]

    def coef(self, st, name):
        return sum(f[0] for f in st if f_site_text(f) == name)

    def net(self, i, name):
        """final minus initial coefficient"""
        return (self.coef(self.rxns[i][-1], name) -
                self.coef(self.rxns[i][0], name))

    def theta(self, case, cvgs):
        th = dict(zip(self.ads, cvgs))
        for s in self.sites:
            th[s] = case["defs"][s]["total"] - sum(
                th[a] for a in self.ads if self.site_of[a] == s)
        return th

    def conc(self, case, theta, name):
        if name in theta:
            return theta[name]
        d = case["defs"][name]
        return d["pressure"] if "pressure" in d else d["concentration"]

    def rate(self, case, theta, st, k):
        r = k
        for f in st:
            r = r*self.conc(case, theta, f_site_text(f))**f[0]
        return r


def closed_energies(rng, n):
    Ga = [rng.choice([0.0, 0.0, rng.uniform(0.01, 1.6), rng.uniform(0, .2)])
          for _ in range(n)]
    dG = [rng.choice([rng.uniform(-1.5, 1.0), 0.0, rng.uniform(-.3, .3)])
          for _ in range(n)]
    # mean-field runs need Gar >= 0 only for physics; keep values as they are
    return dict(Ga=Ga, dG=dG)


def relative(Ga, dG):
    Gaf = [d if (abs(a) < 1e-10 and d > 0.0) else a for a, d in zip(Ga, dG)]
    return dict(Gaf=Gaf, Gar=[a - d for a, d in zip(Gaf, dG)], dG=list(dG))


def gen_model_case(rng, nmax=5, dups=True, liquid=True, algo="TST", ts_prob=.45,
                   spectators=True, unit_total=False, min_ads=1, max_sites=3):
    while True:
        net = Net(rng, dups=dups, liquid=liquid, ts_prob=ts_prob,
                  spectators=spectators, max_sites=max_sites)
        rxns = net.network(rng.randint(1, nmax) if rng.random() < .9
                           else pick_int(rng, 1, 14))
        if not rxns:
            continue
        o = Oracle(rxns)
        if len(o.ads) < min_ads or len(o.ads) > 12:
            continue
        break
    defs = {}
    for g in o.gas:
        defs[g] = {"pressure": rng.choice([1.0, 0.0, rng.uniform(0.01, 3.0),
                                           rng.uniform(.01, .9)])}
        if algo == "TST+" and defs[g]["pressure"] == 0.0:
            defs[g]["pressure"] = 0.25
    for l in o.liq:
        defs[l] = {"concentration": rng.choice([1.0, rng.uniform(0.01, 4.0)])}
    for s in o.sites:
        defs[s] = {"site_name": s[2:], "type": "site",
                   "total": 1.0 if unit_total or rng.random() < .4
                   else round(rng.uniform(0.05, 1.5), 3)}
    case = dict(rxns=rxns, defs=defs, T=pick_float(rng, 250.0, 1200.0, (298.0, 500.0)),
                algo=algo.rstrip("+"), area=9.0e-20, ratio=rng.choice([1.0, 0.44]),
                energies=closed_energies(rng, len(rxns)))
    case["cvgs"] = gen_cvgs(rng, o, defs)
    return case


def gen_cvgs(rng, o, defs):
    """Coverages that leave every site type non-negatively free."""
    cv = {}
    for s in o.sites:
        on = [a for a in o.ads if o.site_of[a] == s]
        w = [rng.random() for _ in on] + [rng.random()*2]
        tot = defs[s]["total"]
        for a, x in zip(on, w):
            cv[a] = tot*x/sum(w)
        if on and rng.random() < 0.1:
            cv[on[0]] = 0.0
    return [cv[a] for a in o.ads]


# --------------------------------------------------------------------------
# models of the code under test
# --------------------------------------------------------------------------
_models = {}


def setup_imports():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.append(os.path.join(HERE, "stubs"))
    os.environ.setdefault("MPLBACKEND", "Agg")
    import logging
    logging.raiseExceptions = False
    import warnings
    warnings.simplefilter("ignore")


def quiet_logs():
    import logging
    lg = logging.getLogger("model")
    for h in list(lg.handlers):
        try:
            h.close()
        except Exception:                                    # noqa
            pass
    lg.handlers = []


def build_model(case, parser="RelativeEnergyParser", solver="SteadyStateSolver",
                parse=True, **extra):
    from scaks.models.micro_kinetic_model import MicroKineticModel
    setup = dict(rxn_expressions=[rxn_text(r) for r in case["rxns"]],
                 species_definitions=json.loads(json.dumps(case["defs"])),
                 temperature=case["T"], parser=parser, solver=solver,
                 corrector="ThermodynamicCorrector",
                 plotter="EnergyProfilePlotter",
                 rate_algo=case.get("algo", "TST"),
                 unitcell_area=case.get("area", 9e-20),
                 active_ratio=case.get("ratio", 1.0))
    setup.update(case.get("setup", {}))
    setup.update(extra)
    setup = {k: v for k, v in setup.items() if v is not None}
    m = MicroKineticModel(setup_dict=setup, logger_level=50,
                          file_handler_level=50, console_handler_level=50)
    quiet_logs()
    if parse and "energies" in case and parser == "RelativeEnergyParser":
        e = case["energies"]
        m.parser.parse_data(filename="no_such_file.py",
                            energy_data=dict(Ga=list(e["Ga"]), dG=list(e["dG"])))
        if solver == "SteadyStateSolver":
            m.solver.get_data()
    return m


def kTST(G, T):
    import mpmath as mp
    kB, h = mp.mpf(KB_EV), mp.mpf(H_EV)
    return kB*T/h*mp.exp(-mp.mpf(G)/(kB*mp.mpf(T)))
