"""C01-C05, C36, C37: reading reaction text, inventories, matrices."""
import ast
import os

from common import *
import common as cm


def _blank(rng, k=2):
    return rng.choice(["", " ", " ", "  ", "\t"][:k + 3])


def styled(rng, rx, styles=None):
    """Text of a reaction with random blanks; [text, per-state arrow kinds]."""
    def state(st):
        return "".join((_blank(rng) + "+" + _blank(rng) if i else "") + f_text(f)
                       for i, f in enumerate(st))
    parts = [state(s) for s in rx]
    out = _blank(rng) + parts[0]
    for i, p in enumerate(parts[1:]):
        if len(parts) == 3:
            arrow = "<->" if i == 0 else "->"
        else:
            arrow = "->"
        out += _blank(rng) + arrow + _blank(rng) + p
    return out + _blank(rng)


def rand_name(rng, dash_ok=True):
    els = rng.sample(["H", "C", "N", "O", "S", "Cl", "Si", "Pt", "F", "Au", "Co"],
                     rng.randint(1, 4))
    atoms = [rng.choice(els) for _ in range(rng.randint(1, 5))]
    nm = ""
    for a in atoms:
        nm += a
        if rng.random() < 0.35:
            nm += str(pick_int(rng, 2, 130, (10, 11, 12, 100)))
        if dash_ok and rng.random() < 0.15:
            nm += "-"
    nm = nm.strip("-")
    return nm


def rand_site(rng):
    new = [s for s in literals()[2] if s.isalpha() and s.isascii() and len(s) < 8]
    if new and rng.random() < 0.3:
        return rng.choice(new)
    return rng.choice(["s", "t", "g", "l", "hcp", "fcc", "gl", "lg", "gg", "G", "L",
                       "ll", "b", "top", "Pt", "".join(rng.choice("abcdxyzglGLXY")
                                                       for _ in range(rng.randint(1, 5)))])


def rand_formula(rng):
    if rng.random() < 0.25:
        s = rand_site(rng)
        while s in ("g", "l"):
            s = rand_site(rng)
        return [pick_int(rng, 1, 400, (1, 9, 10, 11, 99, 100)), "*", 1, s]
    return [pick_int(rng, 1, 400, (1, 9, 10, 11, 99, 100)), rand_name(rng),
            pick_int(rng, 1, 200, (1, 1, 2, 10, 12)), rand_site(rng)]


# ------------------------------------------------------------------ C01
def gen_C01(rng):
    net = Net(rng, ts_prob=0.6)
    rx = [[list(f) for f in s] for s in net.reaction()]
    kind = rng.choice(["keep", "keep", "atom", "coef", "site", "nsite", "drop",
                       "dup", "swap", "rename", "move"])
    i = rng.randrange(len(rx))
    st = rx[i]
    f = rng.choice(st)
    if kind == "atom" and f[1] != "*":
        f[1] = f[1] + rng.choice(["H", "O", "2", "10", "Cl"])
    elif kind == "coef":
        f[0] = max(1, f[0] + rng.choice([1, -1, 9, 10]))
    elif kind == "site" and f[3] not in ("g", "l"):
        f[3] = rng.choice([s for s in cm.SITES if s != f[3]])
    elif kind == "nsite" and f[1] != "*" and f[3] not in ("g", "l"):
        f[2] = max(1, f[2] + rng.choice([1, -1, 10]))
    elif kind == "drop" and len(st) > 1:
        st.remove(f)
    elif kind == "dup":
        st.append(list(f))
    elif kind == "rename" and f[1] != "*":
        f[1] = f[1].replace("O", "N") if rng.random() < .5 else f[1].replace("C", "Cl")
    elif kind == "move" and f[1] != "*":
        f[3] = "g" if f[3] not in ("g", "l") else rng.choice(cm.SITES)
        if f[3] == "g":
            f[2] = 1
    elif kind == "swap":
        rx[i] = [list(f) for f in rx[i - 1]]
    others = net.network(rng.randint(0, 2))
    pos = rng.randint(0, len(others))
    return dict(rx=rx, others=others, pos=pos, kind=kind)


def check_C01(case):
    from scaks.parsers.rxn_parser import RxnEquation
    rx = case["rx"]
    ok = balanced(rx)
    text = rxn_text(rx)
    got = raises(("ValueError",), RxnEquation(text).check_conservation)
    require((got is None) == ok,
            "check_conservation of {!r}: balanced={} but {}", text, ok,
            "accepted" if got is None else "rejected")
    rxns = case["others"][:]
    if any(rxn_text(r) == text for r in rxns):
        return True
    rxns.insert(case["pos"], rx)
    o = Oracle(rxns)
    defs = {g: {"pressure": 1.0} for g in o.gas}
    defs.update({l: {"concentration": 1.0} for l in o.liq})
    defs.update({s: {"site_name": s[2:], "type": "site", "total": 1.0} for s in o.sites})
    c = dict(rxns=rxns, defs=defs, T=500.0)
    made = []
    got = raises(("ValueError",),
                 lambda: made.append(build_model(c, parse=False, solver=None)))
    require((got is None) == ok, "model with reaction {!r}: balanced={} but {}", text,
            ok, "created" if got is None else "rejected")
    return case["kind"] != "keep" or len(rx) == 3


# ------------------------------------------------------------------ C02
def gen_C02(rng):
    r = rng.random()
    if r < 0.2:
        return dict(kind="bad", text=rng.choice(
            ["", " ", "CO", "CO_", "2CO", "CO_2", "_", "*", "2*", "O-O_", "CO_12 ",
             "-", "H2O_ s", "CO2", "H2 _", "C.O_3", "N2_#", "CO_-s"]),
            where=rng.choice(["formula", "state", "rxn"]),
            rx=[[rand_formula(rng)], [rand_formula(rng)]])
    n = rng.choice([2, 2, 3])
    rx = [[rand_formula(rng) for _ in range(rng.randint(1, 4))] for _ in range(n)]
    return dict(kind="ok", rx=rx, text=styled(rng, rx))


def _same_formula(fo, f, ctx):
    coef, sp, ns, site = f
    require(fo.stoichiometry() == coef, "{}: coefficient {} read as {}", ctx, coef,
            fo.stoichiometry())
    require(fo.species() == sp, "{}: species {} read as {}", ctx, sp, fo.species())
    require(fo.species_site() == f_site_text(f), "{}: species_site {} read as {}", ctx,
            f_site_text(f), fo.species_site())
    require(fo.nsite() == ns, "{}: nsite {} read as {}", ctx, ns, fo.nsite())
    require(fo.site() == site, "{}: site {} read as {}", ctx, site, fo.site())
    require(fo.type() == f_kind(f), "{}: type {} read as {}", ctx, f_kind(f), fo.type())
    el = {e: coef*k for e, k in species_atoms(sp).items()}
    require(fo.get_elements_dict() == el, "{}: elements {} read as {}", ctx, el,
            fo.get_elements_dict())
    require(fo.get_species_elements_dict() == species_atoms(sp),
            "{}: species elements {}", ctx, fo.get_species_elements_dict())
    require(fo.get_sites_dict() == {site: coef*ns}, "{}: sites {} read as {}", ctx,
            {site: coef*ns}, fo.get_sites_dict())


def check_C02(case):
    from scaks.parsers.rxn_parser import RxnEquation, ChemState, ChemFormula
    if case["kind"] == "bad":
        t = case["text"]
        a, b = [f_text(s[0]) for s in case["rx"]]
        if case["where"] == "formula":
            got = raises(("ChemFormulaError",), ChemFormula, t)
        elif case["where"] == "state":
            got = raises(("ChemFormulaError",),
                         lambda: ChemState(a + " + " + t + " + " + b).tolist())
        else:
            got = raises(("ChemFormulaError",),
                         lambda: RxnEquation(a + " + " + t + " -> " + b).to_formula_list())
        require(got is not None, "text {!r} without a formula is accepted ({})", t,
                case["where"])
        return True
    rx, text = case["rx"], case["text"]
    for st in rx:
        for f in st:
            _same_formula(ChemFormula(f_text(f)), f, f_text(f))
    eq = RxnEquation(text)
    states = eq.tolist()
    require(len(states) == len(rx), "{!r}: {} states read as {}", text, len(rx),
            len(states))
    lists = eq.to_formula_list()
    require(len(lists) == len(rx), "{!r}: states {}", text, len(lists))
    for st, so, fl in zip(rx, states, lists):
        fo = so.tolist()
        require(len(fo) == len(st) and len(fl) == len(st),
                "{!r}: {} formulas read as {}/{}", text, len(st), len(fo), len(fl))
        for f, x, y in zip(st, fo, fl):
            _same_formula(x, f, text)
            _same_formula(y, f, text)
        require(so.get_elements_dict() == state_elements(st),
                "{!r}: state elements {} read as {}", text, state_elements(st),
                so.get_elements_dict())
        require(so.get_sites_dict() == state_sites(st),
                "{!r}: state sites {} read as {}", text, state_sites(st),
                so.get_sites_dict())
        require(so.get_species_site_list() == [f_site_text(f) for f in st],
                "{!r}: species list {}", text, so.get_species_site_list())
    gi = [f_site_text(f) for f in rx[0] if f_kind(f) == "gas"]
    gf = [f_site_text(f) for f in rx[-1] if f_kind(f) == "gas"]
    require([g.species_site() for g in eq.adsorption_gases()] == gi,
            "{!r}: adsorption gases", text)
    require([g.species_site() for g in eq.desorption_gases()] == gf,
            "{!r}: desorption gases", text)
    return any(f[0] > 1 or f[2] > 1 or len(f[1]) > 2 for st in rx for f in st)


# ------------------------------------------------------------------ C03
def gen_C03(rng):
    if rng.random() < .5:
        rx = Net(rng, ts_prob=.6).reaction()
    else:
        rx = [[rand_formula(rng) for _ in range(rng.randint(1, 4))]
              for _ in range(rng.choice([2, 3, 3]))]
    return dict(rx=rx, text=styled(rng, rx))


def _view(eq):
    return [[[f.stoichiometry(), f.species(), f.nsite(), f.site()] for f in st]
            for st in eq.to_formula_list()]


def check_C03(case):
    from scaks.parsers.rxn_parser import RxnEquation
    eq = RxnEquation(case["text"])
    rx = [[list(f) for f in s] for s in case["rx"]]
    rev = eq.revert()
    require(_view(rev) == rx[::-1], "reverse of {!r} is {!r}", case["text"],
            rev.rxn_equation())
    t = rev.rxn_equation()
    arrows = ["<->", "->"] if len(rx) == 3 else ["->"]
    got, i = [], 0
    while i < len(t):
        if t.startswith("<->", i):
            got.append("<->")
            i += 3
        elif t.startswith("->", i):
            got.append("->")
            i += 2
        else:
            i += 1
    require(got == arrows, "arrows of the reverse {!r}", t)
    require(_view(rev.revert()) == rx, "double reverse of {!r} is {!r}", case["text"],
            rev.revert().rxn_equation())
    require(_view(eq) == rx, "reversing changed the equation {!r}", case["text"])
    if balanced(rx):
        require(rev.check_conservation() is True, "reverse of balanced {!r} rejected",
                case["text"])
    return len(rx) == 3 or len(rx[0]) != len(rx[-1])


# ------------------------------------------------------------------ C04
def gen_C04(rng):
    net = Net(rng, ts_prob=.5)
    return dict(rxns=net.network(rng.randint(1, 6)), T=500.0)


def _plain_model(case, **kw):
    o = Oracle(case["rxns"])
    case = dict(case)
    case.setdefault("T", 500.0)
    case["defs"] = {g: {"pressure": 1.0} for g in o.gas}
    case["defs"].update({l: {"concentration": 1.0} for l in o.liq})
    case["defs"].update({s: {"site_name": s[2:], "type": "site", "total": 1.0}
                         for s in o.sites})
    return o, build_model(case, parse=False, solver=kw.pop("solver", None), **kw)


def check_C04(case):
    o, m = _plain_model(case)
    for nm, want in (("gas_names", o.gas), ("liquid_names", o.liq),
                     ("adsorbate_names", o.ads), ("transition_state_names", o.ts),
                     ("site_names", o.sites)):
        require(list(getattr(m, nm)) == want, "{} of {}: expected {} got {}", nm,
                [rxn_text(r) for r in case["rxns"]], want, list(getattr(m, nm)))
    got = [[[[f.stoichiometry(), f.species(), f.nsite(), f.site()] for f in st]
            for st in rx] for rx in m.elementary_rxns_list]
    want = [[[list(f) for f in st] for st in rx] for rx in case["rxns"]]
    require(got == want, "parsed reaction list {} of {}", got, want)
    return len(o.ads) > 1


# ------------------------------------------------------------------ C05
def gen_C05(rng):
    return dict(rxns=Net(rng, ts_prob=.4).network(rng.randint(1, 5)), T=500.0)


def check_C05(case):
    o, m = _plain_model(case)
    sm, gm = m.parser.get_stoichiometry_matrices()
    for mat, names in ((sm, o.sites + o.ads), (gm, o.gas + o.liq)):
        require(tuple(mat.shape) == (len(case["rxns"]), len(names)),
                "matrix shape {} for {}", mat.shape, names)
        for i, rx in enumerate(case["rxns"]):
            for j, nm in enumerate(names):
                want = -o.net(i, nm)
                require(mat[i, j] == want, "entry of {} in {!r}: expected {} got {}",
                        nm, rxn_text(rx), want, mat[i, j])
    return any(f[0] > 1 for r in case["rxns"] for s in r for f in s)


# ------------------------------------------------------------------ C36
def gen_C36(rng):
    return dict(rxns=Net(rng, ts_prob=.4).network(rng.randint(1, 6)), T=500.0)


def check_C36(case):
    o, m = _plain_model(case)
    m.generate_relative_energies_file("rel_tmpl.py")
    m.generate_absolute_energies_file("abs_tmpl.py")
    rel = open("rel_tmpl.py").read()
    ab = open("abs_tmpl.py").read()
    os.remove("rel_tmpl.py")
    os.remove("abs_tmpl.py")
    texts = [rxn_text(r) for r in case["rxns"]]
    # relative: one Ga and one dG entry per reaction under its expression
    lines = [l.strip() for l in rel.splitlines() if l.strip()]
    seen, counts = [], []
    for l in lines:
        if l.startswith("#"):
            body = l.lstrip("#").strip()
            if body in texts:
                seen.append(body)
                counts.append([])
        elif l.startswith("Ga.append(") or l.startswith("dG.append("):
            require(counts, "entry before the first reaction in {!r}", rel)
            counts[-1].append(l[:2])
    require(seen == texts, "template reactions {} for {}", seen, texts)
    for t, c in zip(seen, counts):
        require(sorted(c) == ["Ga", "dG"], "entries {} under {!r}", c, t)
    globs = {}
    filled = rel.replace(".append()", ".append(0.5)")
    exec(compile(filled, "rel", "exec"), globs)
    require(globs["Ga"] == [0.5]*len(texts) and globs["dG"] == [0.5]*len(texts),
            "filled template gives {} {}", globs.get("Ga"), globs.get("dG"))
    globs = {}
    exec(compile(ab, "abs", "exec"), globs)
    want = {s: 0.0 for s in o.gas + o.liq + o.ads + o.ts + o.sites}
    require(globs["absolute_energies"] == want, "absolute template {} for {}",
            globs["absolute_energies"], sorted(want))
    tree = ast.parse(ab)
    keys = [k.value for n in ast.walk(tree) if isinstance(n, ast.Dict) for k in n.keys]
    require(len(keys) == len(set(keys)), "repeated keys {}", keys)
    return len(texts) > 1


# ------------------------------------------------------------------ C37


def _name_of(rng, atoms):
    """One of the names of this composition (elements may repeat)."""
    es = list(atoms.items())
    if rng.random() < .4:
        rng.shuffle(es)
    if rng.random() < .3:
        e, k = rng.choice(es)
        if k > 1:
            es.remove((e, k))
            j = rng.randint(1, k - 1)
            es.insert(rng.randint(0, len(es)), (e, j))
            es.insert(rng.randint(0, len(es)), (e, k - j))
    return "".join(e + (str(k) if k > 1 else "") for e, k in es)


def gen_C37(rng):
    """A mechanism with one catalytic cycle: some gases or liquids adsorb, the
    adsorbates combine (over some isomers), the result desorbs; forward or all
    reversed.  Each adsorbate links two reactions and the reactions form a tree,
    so exactly one combination cancels the intermediates."""
    from fractions import Fraction
    s = rng.choice(["s", "t", "hcp"])
    els = rng.sample(["C", "N", "S", "F", "H", "O"], 4)
    if rng.random() < .03:                       # no intermediates at all
        a, b = pick_int(rng, 2, 40), pick_int(rng, 2, 40)
        return dict(rxns=[[[[b, els[0] + str(a), 1, "g"]],
                           [[a, els[0] + str(b) if a != b else els[0]*b, 1, "l"]]]],
                    mult=[[1, 1]], T=500.0)
    k_in = rng.choice([1, 2, 2, 3])
    used = set()

    def fresh(atoms):
        for _ in range(30):
            nm = _name_of(rng, atoms)
            if nm not in used:
                used.add(nm)
                return nm
        return None
    iso = rng.random() < .35                     # several species of one formula
    base = {els[0]: rng.randint(1, 2), els[1]: rng.randint(1, 3)}
    comps, names = [], []
    for i in range(k_in):
        at = dict(base) if iso else {els[i]: pick_int(rng, 1, 3)}
        nm = fresh(at)
        if nm is None:
            continue
        comps.append(at)
        names.append(nm)
    pick = lambda: pick_int(rng, 1, rng.choice([1, 2, 4, 17]))
    take = [pick() for _ in names]               # per combining reaction
    out = {}
    for k, c in zip(take, comps):
        for e in c:
            out[e] = out.get(e, 0) + k*c[e]
    parts = 1                                    # number of result molecules
    if iso:
        parts = sum(take)
        out = dict(base)
    elif rng.random() < .4 and all(v % 2 == 0 for v in out.values()):
        parts, out = 2, {e: v//2 for e, v in out.items()}
    res = fresh(out)
    if res is None:
        return gen_C37(rng)
    rxns, mult = [], []
    left = []
    sites = 0
    for nm, c, k in zip(names, comps, take):
        ph = rng.choice(["g", "g", "g", "l"])
        if rng.random() < .3:                    # straight from the gas or liquid
            left.append([k, nm, 1, ph])
            continue
        n = pick()                               # molecules per adsorption step
        if len(c) == 1 and rng.random() < .3:    # dissociative adsorption
            e, q = list(c.items())[0]
            mol = e + str(2*q)
            if mol not in used:
                used.add(mol)
                rxns.append([[[n, mol, 1, ph], [2*n, "*", 1, s]], [[2*n, nm, 1, s]]])
                mult.append(Fraction(k, 2*n))
                left.append([k, nm, 1, s])
                sites += k
                continue
        rxns.append([[[n, nm, 1, ph], [n, "*", 1, s]], [[n, nm, 1, s]]])
        mult.append(Fraction(k, n))
        left.append([k, nm, 1, s])
        sites += k
    if sites > parts:
        right = [[parts, res, 1, s], [sites - parts, "*", 1, s]]
    elif sites < parts:
        left.append([parts - sites, "*", 1, s])
        right = [[parts, res, 1, s]]
    else:
        right = [[parts, res, 1, s]]
    rxns.append([left, right])
    mult.append(Fraction(1))
    cur = res
    for _ in range(rng.choice([0, 0, 1, 2])):    # isomers on the surface
        nxt = fresh(out)
        if nxt is None:
            break
        n = pick()
        rxns.append([[[n, cur, 1, s]], [[n, nxt, 1, s]]])
        mult.append(Fraction(parts, n))
        cur = nxt
    if rng.random() < .12:                       # a long row of additions
        comp = dict(out)
        more = rng.choice(["I", "B", "P"])
        for _ in range(pick_int(rng, 1, 70)):
            comp[more] = comp.get(more, 0) + 1
            nxt = fresh(comp)
            if nxt is None:
                break
            rxns.append([[[1, cur, 1, s], [1, more, 1, "g"]], [[1, nxt, 1, s]]])
            mult.append(Fraction(parts))
            cur = nxt
    n = pick()
    ph = rng.choice(["g", "g", "g", "l"])
    rxns.append([[[n, cur, 1, s]], [[n, cur, 1, ph], [n, "*", 1, s]]])
    mult.append(Fraction(parts, n))
    if rng.random() < .35:                       # a gas that only helps
        nm = rng.choice(["He", "Ar", "Xe"])
        for r in rng.sample(rxns, rng.randint(1, len(rxns))):
            r[0].append([1, nm, 1, "g"])
            r[-1].append([1, nm, 1, "g"])
    if rng.random() < .4:
        rxns = [r[::-1] for r in rxns]
    order = list(range(len(rxns)))
    rng.shuffle(order)
    for f in (f for r in rxns for st in r for f in st):
        f[0] = max(f[0], 1)
    return dict(rxns=[rxns[i] for i in order],
                mult=[[mult[i].numerator, mult[i].denominator] for i in order], T=500.0)


def _combinations(rows):
    """Basis of the vectors x with x*rows = 0, exactly."""
    from fractions import Fraction
    m = len(rows)
    n = len(rows[0]) if m else 0
    a = [[Fraction(rows[i][j]) for i in range(m)] for j in range(n)]
    pivots, r = [], 0
    for c in range(m):
        p = next((i for i in range(r, n) if a[i][c]), None)
        if p is None:
            continue
        a[r], a[p] = a[p], a[r]
        a[r] = [v/a[r][c] for v in a[r]]
        for i in range(n):
            if i != r and a[i][c]:
                a[i] = [v - a[i][c]*w for v, w in zip(a[i], a[r])]
        pivots.append(c)
        r += 1
    out = []
    for f in range(m):
        if f not in pivots:
            x = [Fraction(0)]*m
            x[f] = Fraction(1)
            for i, c in enumerate(pivots):
                x[c] = -a[i][f]
            out.append(x)
    return out


def check_C37(case):
    from scaks.parsers.rxn_parser import RxnEquation
    o, m = _plain_model(case)
    inter = o.sites + o.ads
    basis = _combinations([[o.net(i, s) for s in inter] for i in range(len(case["rxns"]))])
    only = len(basis) == 1 and (all(x > 0 for x in basis[0]) or all(x < 0 for x in basis[0]))
    ends = o.gas + o.liq
    if only:
        mult = [abs(x) for x in basis[0]]
        net = {n: sum(k*o.net(i, n) for i, k in enumerate(mult)) for n in ends}
        only = any(net.values())
    box = []
    got = raises(("ValueError", "ChemFormulaError", "ZeroDivisionError", "LinAlgError"),
                 lambda: box.append(m.parser.get_total_rxn_equation()))
    if got:
        require(not only, "no total equation of {} although {} cancels the intermediates",
                [rxn_text(r) for r in case["rxns"]], only and [str(k) for k in mult])
        return False
    eq = box[0]
    lists = RxnEquation(eq).to_formula_list()
    require(len(lists) == 2, "total equation {!r}", eq)
    st = [[[f.stoichiometry(), f.species(), f.nsite(), f.site()] for f in l]
          for l in lists]
    names = [f_site_text(f) for s in st for f in s]
    require(sorted(names) == sorted(set(names)) and
            set(names) <= set(ends), "species in {!r}", eq)
    require(balanced(st), "total equation {!r} is not balanced", eq)
    if not only:
        return True
    have = {f_site_text(f): -f[0] for f in st[0]}
    have.update({f_site_text(f): f[0] for f in st[1]})
    require(sorted(n for n in net if net[n]) == sorted(n for n in have if have[n]),
            "species of {!r} are not those of the combination {}", eq,
            [str(k) for k in mult])
    scale = [net[n]/have[n] for n in have if have[n]]
    require(scale and all(x == scale[0] and x > 0 for x in scale),
            "total equation {!r} is not the combination {} of {}", eq,
            [str(k) for k in mult], [rxn_text(r) for r in case["rxns"]])
    return True
