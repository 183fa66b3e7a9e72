"""Contracts on the solvers: rate constants, rates, coverages."""
from fractions import Fraction

import z3

import net
from net import *             # noqa
import terms as T
from terms import real, integer, make_fold, fresh_index, cat, lit
from values import subst
from values import *          # noqa
from session import Unsupported
import ropeexec
import source

SB = "scaks/solvers/solver_base.py"
PB = "scaks/parsers/parser_base.py"
MF = "scaks/solvers/mean_field_solver.py"
SS = "scaks/solvers/steady_state_solver.py"
KS = "scaks/solvers/kmc_solver.py"

# constants of the statement: CODATA values used by the package
KB = z3.RealVal("8.6173324")/z3.RealVal(10**5)
KB = z3.Q(86173324, 10**12)
HH = z3.Q(4135667662, 10**24)
P0 = z3.RealVal(101325)
TK = z3.Real("temperature")

gaf, gar, dgf = (z3.Function(x, I_, R_) for x in ("Gaf", "Gar", "dG"))
kTST = z3.Function("kTST", R_, R_)


def kt(G):
    """kB*T/h*exp(-G/(kB*T))"""
    return KB*TK/HH*T.Exp(-G/(KB*TK))


def energies(I, tag=""):
    """Relative energies: three lists with one number per reaction."""
    d = I.new(SDict())
    for key, f in (("Gaf", gaf), ("Gar", gar), ("dG", dgf)):
        l = SList(GSeq(NR, lambda i, f=f: f(integer(i)), key, open_=False))
        l.frozen = True
        I.dict_set(d, key, l)
    return d


def in_use(rel):
    return rel


MP = Namespace("mpmath", {})


def solver(I, path, name, extra_owner=None, attrs=None):
    net.base_facts(I)
    I.s.assume(TK > 0)
    ex = dict(temperature=TK, species_definitions=net.species_definitions(I), kB=KB, h=HH)
    ex.update(extra_owner or {})
    o = net.Owner(I, ex)
    a = {"_owner": o.obj, "_math": MP, "_linalg": MP,
         "_rxns_num": NR, "_rxns_list": net.rxns_list()}
    for k, m in (("_mpf", "mpf"), ("_matrix", "matrix")):
        a[k] = I.external("mpmath", m)
    a.update(attrs or {})
    return I.obj(net.cls(path, name), a), o


def is_gas(i, s, k):
    return siteof(ss(i, s, k)) == lit("g")


def gas_factor(i, s):
    """Product over the gas formulas of the state of pressure to the coefficient."""
    k = fresh_index("k")
    return make_fold("prod", nf(i, s), k, z3.If(
        is_gas(i, s, k), T.Pow(pressure(ss(i, s, k)), real(stoich(i, s, k))), z3.RealVal(1)))


def c_ktst(I, self, args, kwargs):
    vals = list(args) + [kwargs[k] for k in ("Ga", "T") if k in kwargs]
    if len(vals) != 2:
        raise Unsupported("call of get_kTST")
    if not I.s.valid(real(vals[1]) == TK)[0]:
        raise Unsupported("rate constant at another temperature")
    return kTST(real(vals[0]))


def c_rel(I, self, args, kwargs):
    i = net.index_of_text(I, args[0] if args else kwargs["rxn_expression"])
    return (gaf(i), gar(i), dgf(i))


def c09(P):
    P.assumption("temperature is positive; pressures are positive")
    P.assumption("every species of an end state is in the list of its kind (C04)")
    P.assumption("kB = 8.6173324e-5 eV/K and h = 4.135667662e-15 eV s (the package's constants)")

    for path, name in ((SS, "SteadyStateSolver"), (KS, "KMCSolver"), (MF, "MeanFieldSolver")):
        def one(U, path=path, name=name):
            I = U.I
            slv, o = solver(I, path, name)
            G = z3.Real("G")
            r = U.method(slv, "get_kTST", [G, TK])
            U.prove(real(r) == kt(G), "kB*T/h*exp(-G/(kB*T))")
        P.unit("%s.get_kTST" % name, one, {}, expect=["kB*T/h*exp(-G/(kB*T))"])

    def lemma(U):
        a, b, e = z3.Real("a"), z3.Real("b"), KB*TK
        U.s.assume(TK > 0)
        # law of the exponential function
        U.s.assume(T.Exp(-a/e) == T.Exp(-(a - b)/e)*T.Exp(-b/e))
        x, y, w = T.Exp(-a/e), T.Exp(-b/e), T.Exp(-(a - b)/e)
        U.prove(kt(a) == w*kt(b), "kf = kr*exp(-(Gaf-Gar)/(kB*T))")
    P.unit("detailed balance", lemma, {}, expect=["kf = kr*exp(-(Gaf-Gar)/(kB*T))"])

    def rel(U):
        I = U.I
        slv, o = solver(I, SS, "SteadyStateSolver")
        i = z3.Int("i0")
        U.s.assume(z3.And(i >= 0, i < NR))
        r = I.unpack(U.method(slv, "_get_relative_energies", [rx(i), energies(I)]), 3)
        for x, f, l in zip(r, (gaf, gar, dgf), ("Gaf", "Gar", "dG")):
            U.prove(real(x) == f(i), "%s of this reaction" % l)
    P.unit("SolverBase._get_relative_energies", rel, net.contracts(),
           expect=["Gaf of this reaction", "Gar of this reaction", "dG of this reaction"])

    con = net.contracts()
    con["SolverBase.get_kTST"] = c_ktst
    con["SolverBase._get_relative_energies"] = c_rel
    for inc in (False, True):
        def rates(U, inc=inc):
            I = U.I
            slv, o = solver(I, SS, "SteadyStateSolver")
            i = z3.Int("i0")
            U.s.assume(z3.And(i >= 0, i < NR))
            rf, rr = I.unpack(U.method(slv, "get_rxn_rates_TST", [rx(i), energies(I)],
                                       {"include_pressure": inc}), 2)
            if not inc:
                U.prove(real(rf) == kTST(gaf(i)), "forward constant")
                U.prove(real(rr) == kTST(gar(i)), "reverse constant")
            else:
                U.prove(real(rf) == kTST(gaf(i))*gas_factor(i, z3.IntVal(0)),
                        "forward constant with pressures of the initial state")
                U.prove(real(rr) == kTST(gar(i))*gas_factor(i, nst(i) - 1),
                        "reverse constant with pressures of the final state")
        P.unit("SolverBase.get_rxn_rates_TST(include_pressure=%s)" % inc, rates, con,
               expect=["forward constant with pressures of the initial state",
                       "reverse constant with pressures of the final state"] if inc else
               ["forward constant", "reverse constant"])

    rate_constants(P, "TST", kTST, ("forward constants", "reverse constants"))


def rate_constants(P, algo, spec, labels):
    """MeanFieldSolver.get_rate_constants over the per-reaction contract."""
    kf_, kr_ = z3.Function("k_forward_" + algo, I_, R_), z3.Function("k_reverse_" + algo, I_, R_)

    def c_rate(I, self, args, kwargs):
        i = net.index_of_text(I, args[0])
        d = args[1]
        for key, f in (("Gaf", gaf), ("Gar", gar)):
            l = I.getitem(d, key)
            if not I.s.valid(real(I.getitem(l, i)) == f(i))[0]:
                raise Unsupported("rate function called with other energies")
        if kwargs.get("include_pressure", args[2] if len(args) > 2 else False) is not False:
            raise Unsupported("rate constants with pressures")
        return (kf_(i), kr_(i))
    con = net.contracts()
    con["SolverBase.get_rxn_rates_" + algo] = c_rate

    def run(U, given, keys):
        I = U.I
        d = energies(I) if keys is None else I.new(SDict())
        if keys is not None:
            for k in keys:
                l = SList(GSeq(NR, lambda i: gaf(integer(i)), k, open_=False))
                l.frozen = True
                I.dict_set(d, k, l)
        slv, o = solver(I, SS, "SteadyStateSolver",
                        dict(rate_algo=algo, has_relative_energy=not given, relative_energies=None if given else d))
        try:
            kfs, krs = I.unpack(U.method(slv, "get_rate_constants", [],
                                         {"relative_energies": d} if given else {}), 2)
        except PyRaise as e:
            if keys is not None:
                U.prove(e.name == "ParameterError", "energies without a barrier are rejected")
                return
            raise
        if keys is not None:
            U.fail("energies without a barrier are rejected", "accepted")
            return
        for l, f, lab in ((kfs, kf_, "forward"), (krs, kr_, "reverse")):
            U.prove(integer(I.length(l)) == NR, "one %s constant per reaction" % lab)
            U.forall(NR, lambda i: real(I.getitem(l, i)) == f(i), "%s constants in order" % lab)
    for given in (False, True):
        P.unit("MeanFieldSolver.get_rate_constants(%s, %s)" % (algo, "given" if given else "own"),
               lambda U, given=given: run(U, given, None), con,
               expect=["one forward constant per reaction", "forward constants in order",
                       "one reverse constant per reaction", "reverse constants in order"])
        for keys in (("Gaf",), ("Gar", "dG")):
            P.unit("MeanFieldSolver.get_rate_constants(%s, %s, only %s)" % (algo, "given" if given else "own", "+".join(keys)),
                   lambda U, given=given, keys=keys: run(U, given, keys), con,
                   expect=["energies without a barrier are rejected"])


# ------------------------------------------------------------------ C10
KBJ = z3.Q(138064852, 10**31)
kCT = z3.Function("kCT", *([R_]*8))          # Ea, area, ratio, mass, T, p, f -> rate
eqbar = z3.Function("equivalent_barrier", R_, R_, R_)
mass = z3.Function("mass", S, R_)
entropy = z3.Function("entropy", S, R_, R_, R_, R_)
AUC, RATIO = z3.Real("unitcell_area"), z3.Real("active_ratio")
PI = z3.Real("pi")


def ct_rate(Ea, A, r, m, t, p, f):
    return f*r*T.Exp(-Ea/(KB*t))*(p*A)/T.Sqrt(2*PI*m*KBJ*t)


def c10(P):
    P.assumption("temperature, masses and pressures are positive")
    P.assumption("kB_J = 1.38064852e-23 J/K, standard pressure 101325 Pa (the package's constants)")
    P.assumption("molecular masses and entropy corrections are functions of their arguments (C29, C30)")
    x = {n: z3.Real(n) for n in ("Ea", "Auc", "act_ratio", "m", "T", "p", "f")}

    def kct(U, given):
        I = U.I
        U.s.assume(z3.And(x["m"] > 0, x["T"] > 0))
        fn = U.function(SB, "SolverBase.get_kCT")
        kw = {n: v for n, v in x.items() if given or n not in ("p", "f")}
        f = x["f"] if given else z3.RealVal(1)
        p = x["p"] if given else P0
        try:
            r = I.run_function(fn, [], kw)
        except PyRaise as e:
            U.prove(e.name == "ParameterError", "rejected with ParameterError")
            U.prove(z3.Or(x["act_ratio"] > 1, f > 1), "rejected only for a ratio or factor above one")
            return
        U.prove(z3.And(x["act_ratio"] <= 1, f <= 1), "a ratio or factor above one is rejected")
        U.prove(real(r) == ct_rate(x["Ea"], x["Auc"], x["act_ratio"], x["m"], x["T"], p, f),
                "collision formula")
    ok = ["rejected with ParameterError", "rejected only for a ratio or factor above one",
          "a ratio or factor above one is rejected", "collision formula"]
    P.unit("SolverBase.get_kCT", lambda U: kct(U, True), {}, expect=ok)
    P.unit("SolverBase.get_kCT(default pressure and factor)", lambda U: kct(U, False), {}, expect=ok)

    def barrier(U):
        I = U.I
        k, t = z3.Real("k"), z3.Real("T")
        U.s.assume(z3.And(k > 0, t > 0))
        fn = U.function(SB, "SolverBase.get_TST_barrier_from_CT")
        r = real(I.run_function(fn, [k, t], {}))
        arg = k*HH/(KB*t)
        U.prove(r == -T.Log(arg)*(KB*t), "equivalent barrier")
        # exp undoes log
        U.s.assume(z3.Implies(arg > 0, T.Exp(T.Log(arg)) == arg))
        U.s.assume(arg > 0)
        q = -r/(KB*t)
        U.s.assume(z3.Implies(q == T.Log(arg), T.Exp(q) == T.Exp(T.Log(arg))))
        U.prove(q == T.Log(arg), "its exponent is the logarithm")
        U.s.assume(q == T.Log(arg))
        U.prove(KB*t/HH*T.Exp(q) == k, "TST with the equivalent barrier gives the rate back")
    P.unit("SolverBase.get_TST_barrier_from_CT", barrier, {},
           expect=["equivalent barrier", "its exponent is the logarithm",
                   "TST with the equivalent barrier gives the rate back"])

    con = net.contracts()
    con["SolverBase.get_kTST"] = c_ktst
    con["SolverBase._get_relative_energies"] = c_rel

    def c_kct(I, self, args, kwargs):
        names = ("Ea", "Auc", "act_ratio", "m", "T", "p", "f")
        v = dict(zip(names, args))
        v.update(kwargs)
        v.setdefault("p", P0)
        v.setdefault("f", 1)
        return kCT(*[real(v[n]) for n in names])

    def c_bar(I, self, args, kwargs):
        v = dict(zip(("kCT", "T"), args))
        v.update(kwargs)
        return eqbar(real(v["kCT"]), real(v["T"]))

    def c_mass(I, self, args, kwargs):
        v = dict(zip(("species_name", "absolute"), args))
        v.update(kwargs)
        if v.get("absolute") is not True:
            raise Unsupported("relative mass")
        return mass(as_S(v["species_name"]))

    def c_entropy(I, self, args, kwargs):
        v = dict(zip(("gas_name", "m", "p", "T"), args))
        v.update(kwargs)
        return entropy(as_S(v["gas_name"]), *[real(v[n]) for n in ("m", "p", "T")])
    con["SolverBase.get_kCT"] = c_kct
    con["SolverBase.get_TST_barrier_from_CT"] = c_bar
    con["ParserBase.get_molecular_mass"] = c_mass
    con["ThermodynamicCorrector.entropy_correction"] = c_entropy

    def run(U, inc, case, cname="SteadyStateSolver", path=SS):
        I = U.I
        corr = I.obj(net.cls("scaks/correctors/thermodynamic_corrector.py", "ThermodynamicCorrector"), {})
        slv, o = solver(I, path, cname, dict(unitcell_area=AUC, active_ratio=RATIO, corrector=corr,
                                             setup_file="setup"))
        i, w = z3.Int("i0"), z3.Int("w0")
        U.s.assume(z3.And(i >= 0, i < NR))
        s0, s1 = z3.IntVal(0), nst(i) - 1
        none = lambda s: U.s.assume_all(lambda k: z3.Implies(z3.And(k >= 0, k < nf(i, s)), z3.Not(is_gas(i, s, k))))
        s = s0
        if case != "adsorption":
            none(s0)
            s = s1
        if case == "surface":
            none(s1)
        else:
            U.s.assume(z3.And(w >= 0, w < nf(i, s), is_gas(i, s, w)))
            U.s.assume_all(lambda k: z3.Implies(z3.And(k >= 0, k < w), z3.Not(is_gas(i, s, k))))
        try:
            rf, rr = I.unpack(U.method(slv, "get_rxn_rates_CT", [rx(i), energies(I)],
                                       {"include_pressure": inc}), 2)
        except PyRaise as e:
            U.prove(e.name == "AttributeError" and U.s.valid(AUC <= 0)[0],
                    "rejected only for a non-positive area")
            return
        U.prove(AUC > 0, "a non-positive area is rejected")
        t = ss(i, s, w)
        p = P0*pressure(t) if inc else P0
        m, n = mass(speciesof(t)), real(stoich(i, s, w))
        c = n*entropy(t, m, p, TK)
        if case == "adsorption":
            f = kCT(gaf(i), AUC, RATIO, m, TK, p, z3.RealVal(1))
            b = eqbar(f, TK) - (dgf(i) - c)
            U.prove(real(rf) == f, "forward rate from collision theory")
            U.prove(real(rr) == kTST(z3.If(b < 0, z3.RealVal(0), b)), "reverse rate")
        else:
            U.prove(real(rf) == kTST(gaf(i)), "forward rate from TST")
            U.prove(real(rr) == kTST(gar(i) - (c if case == "desorption" else 0)), "reverse rate")
    for inc in (False, True):
        for case in ("adsorption", "desorption", "surface"):
            P.unit("SolverBase.get_rxn_rates_CT(%s, include_pressure=%s)" % (case, inc),
                   lambda U, inc=inc, case=case: run(U, inc, case), con,
                   expect=["rejected only for a non-positive area", "a non-positive area is rejected",
                           "forward rate from " + ("collision theory" if case == "adsorption" else "TST"),
                           "reverse rate"])
    rate_constants(P, "CT", None, ("forward constants", "reverse constants"))


PROPS = {"C09": c09, "C10": c10}


# ------------------------------------------------------------------ C16, C12
cov = z3.Function("cov", I_, R_)             # coverage of adsorbate j
theta = z3.Function("theta", S, R_)          # named coverages
kf_ = z3.Function("k_forward", I_, R_)
kr_ = z3.Function("k_reverse", I_, R_)


def coverages(I):
    l = SList(GSeq(ADS.n, lambda j: cov(integer(j)), "cvgs", open_=False))
    l.frozen = True
    l.is_tuple = True
    return l


def classified(I):
    """Adsorbates per site type, in model order (contract of __classify_adsorbates)."""
    def get(t):
        j = fresh_index("j")
        c = T.cat(lit("*_"), siteof(ADS.name(j))) == t
        l = SList(FlatSeq(ADS.n, j, [(c, (ADS.name(j),)), (True, ())]))
        l.frozen = True
        return l
    d = SDict(DictBase(lambda k: SITES.has(as_S(k)), lambda k: get(as_S(k))))
    d.frozen = True
    return d


def same_filtered(I, a, b):
    """Do two filtered lists over the adsorbates keep the same elements?"""
    sa, sb = I.segments(a), I.segments(b)
    sa = [x for x in sa if x != ()]
    if len(sa) != 1 or len(sb) != 1 or not isinstance(sa[0], FlatSeq):
        raise Unsupported("shape of the list")
    j = fresh_index("j")

    def item(seg):
        """(condition, element) of position j"""
        p = [(seg.var, j)]
        c, x = seg.cases[0]
        rest = [y for _, y in seg.cases[1:]]
        if any(y != () for y in rest) or not isinstance(x, tuple) or len(x) != 1:
            raise Unsupported("shape of the list")
        return (True if c is True else subst(c, p)), subst(x[0], p)
    (c1, x1), (c2, x2) = item(sa[0]), item(sb[0])
    ok = I.s.valid(integer(sa[0].n) == integer(sb[0].n))[0]
    facts = [j >= 0, j < integer(sb[0].n)]
    c1, c2 = (z3.BoolVal(True) if c is True else c for c in (c1, c2))
    ok = ok and I.s.under(facts, lambda: I.s.valid(c1 == c2)[0])
    return ok and I.s.under(facts + [c1], lambda: I.s.valid(I.eq(x1, x2))[0])


def on_site(t, f):
    """Sum over the adsorbates on site t of f(adsorbate index)."""
    j = fresh_index("j")
    return make_fold("sum", ADS.n, j, z3.If(T.cat(lit("*_"), siteof(ADS.name(j))) == t, f(j),
                                            z3.RealVal(0)))


def c16(P):
    P.assumption("names of sites, adsorbates, gases and liquids are the inventory of C04")
    con = net.contracts()

    def classify(U):
        I = U.I
        slv, o = solver(I, SS, "SteadyStateSolver")
        d = U.method(slv, "_MeanFieldSolver__classify_adsorbates")
        x = z3.Int("x0")
        U.s.assume(z3.And(x >= 0, x < SITES.n))
        l = I.getitem(d, SITES.name(x))
        spec = I.getitem(classified(I), SITES.name(x))
        U.prove(same_filtered(I, l, spec), "adsorbates of the site in model order")
    P.unit("MeanFieldSolver.__classify_adsorbates", classify, con,
           expect=["adsorbates of the site in model order"])

    def t2d(U):
        I = U.I
        slv, o = solver(I, SS, "SteadyStateSolver", attrs=dict(_classified_adsorbates=classified(I)))
        d = U.method(slv, "_cvg_tuple2dict", [coverages(I)])
        U.forall(ADS.n, lambda j: real(I.getitem(d, ADS.name(j))) == cov(j), "adsorbates keep their coverage")
        U.forall(SITES.n, lambda x: real(I.getitem(d, SITES.name(x))) ==
                 total(SITES.name(x)) - on_site(SITES.name(x), cov), "free site = total minus its adsorbates")
    P.unit("MeanFieldSolver._cvg_tuple2dict", t2d, con,
           expect=["adsorbates keep their coverage", "free site = total minus its adsorbates"])

    def d2t(U):
        I = U.I
        slv, o = solver(I, SS, "SteadyStateSolver", attrs=dict(_classified_adsorbates=classified(I)))
        d = net.user_dict(I, lambda t: z3.Or(ADS.has(t), SITES.has(t)), theta)
        r = U.method(slv, "_cvg_dict2tuple", [d])
        U.prove(integer(I.length(r)) == ADS.n, "one coverage per adsorbate")
        U.forall(ADS.n, lambda j: real(I.getitem(r, j)) == theta(ADS.name(j)), "in adsorbate order")
    P.unit("MeanFieldSolver._cvg_dict2tuple", d2t, con,
           expect=["one coverage per adsorbate", "in adsorbate order"])


def value(t, th=theta):
    """Coverage, pressure or concentration of a species text."""
    return z3.If(contains_star(t), th(t), z3.If(siteof(t) == lit("g"), pressure(t),
                 z3.If(siteof(t) == lit("l"), concentration(t), th(t))))


def mass_action(i, s):
    k = fresh_index("k")
    return make_fold("prod", nf(i, s), k, T.Pow(value(ss(i, s, k)), real(stoich(i, s, k))))


def rate_solver(U, energies_arg=None):
    I = U.I
    p = net.user_dict(I, GAS.has, pressure)
    c = net.user_dict(I, LIQ.has, concentration)
    slv, o = solver(I, SS, "SteadyStateSolver", attrs=dict(_classified_adsorbates=classified(I), _p=p, _c=c))
    return slv, o


def c_t2d(I, self, args, kwargs):
    return net.user_dict(I, lambda t: z3.Or(ADS.has(t), SITES.has(t)), theta)


def klists(I):
    out = []
    for f, n in ((kf_, "kf"), (kr_, "kr")):
        l = SList(GSeq(NR, lambda i, f=f: f(integer(i)), n, open_=False))
        l.frozen = True
        out.append(I.new(l))
    return tuple(out)


def c_constants(given):
    """Contract of get_rate_constants: the constants of the energies of the call."""
    def c(I, self, a, k):
        e = k.get("relative_energies", a[0] if a else None)
        if e is not given[0]:
            raise Unsupported("rate constants of other energies")
        return klists(I)
    return c


def c12(P):
    P.assumption("names of species contain no quote, backslash or line break")
    P.assumption("every species of an end state is in the list of its kind (C04)")
    con = net.contracts()
    con["MeanFieldSolver._cvg_tuple2dict"] = c_t2d
    con["ModelShell.archive_data"] = lambda I, self, a, k: None
    given = [None]
    con["MeanFieldSolver.get_rate_constants"] = c_constants(given)

    def rates(U, own):
        I = U.I
        given[0] = None if own else energies(I)
        slv, o = rate_solver(U)
        rfs, rrs = I.unpack(U.method(slv, "get_rates", [coverages(I)],
                                     {} if own else {"relative_energies": given[0]}), 2)
        for l, f, s, lab in ((rfs, kf_, lambda i: z3.IntVal(0), "forward"),
                             (rrs, kr_, lambda i: nst(i) - 1, "reverse")):
            U.prove(integer(I.length(l)) == NR, "one %s rate per reaction" % lab)
            U.forall(NR, lambda i: real(I.getitem(l, i)) == f(i)*mass_action(i, s(i)), "%s rates" % lab)
    for own in (True, False):
        P.unit("MeanFieldSolver.get_rates(%s energies)" % ("own" if own else "given"),
               lambda U, own=own: rates(U, own), con,
               expect=["one forward rate per reaction", "forward rates", "one reverse rate per reaction",
                       "reverse rates"])

    rf_, rr_ = z3.Function("forward_rate", I_, R_), z3.Function("reverse_rate", I_, R_)
    con2 = dict(con)

    def c_rates(I, self, a, k):
        if (k.get("relative_energies", a[1] if len(a) > 1 else None)) is not given[0] or a[0] is not given[1]:
            raise Unsupported("rates of other coverages or energies")
        return tuple(numbers(I, NR, f, n) for f, n in ((rf_, "rfs"), (rr_, "rrs")))
    con2["MeanFieldSolver.get_rates"] = c_rates

    def net_rates(U, own):
        I = U.I
        cv = coverages(I)
        given[:] = [None if own else energies(I), cv]
        slv, o = rate_solver(U)
        r = U.method(slv, "get_net_rates", [cv] + ([] if own else [given[0]]))
        U.prove(integer(I.length(r)) == NR, "one net rate per reaction")
        U.forall(NR, lambda i: real(I.getitem(r, i)) == rf_(i) - rr_(i), "forward minus reverse")
    for own in (True, False):
        P.unit("MeanFieldSolver.get_net_rates(%s energies)" % ("own" if own else "given"),
               lambda U, own=own: net_rates(U, own), con2,
               expect=["one net rate per reaction", "forward minus reverse"])

    def data(U):
        I = U.I
        slv, o = solver(I, SS, "SteadyStateSolver")
        U.method(slv, "get_data")
        for attr, N, f in (("_p", GAS, pressure), ("_c", LIQ, concentration)):
            d = I.getattr(slv, attr)
            U.forall(N.n, lambda j: real(I.getitem(d, N.name(j))) == f(N.name(j)),
                     "%s of every %s" % (f.name(), "gas" if N is GAS else "liquid"))
    P.unit("MeanFieldSolver.get_data", data, con,
           expect=["pressure of every gas", "concentration of every liquid"])


def numbers(I, n, f, name):
    l = SList(GSeq(n, lambda i: f(integer(i)), name, open_=False))
    l.frozen = True
    return I.new(l)


PROPS.update({"C16": c16, "C12": c12})


# ------------------------------------------------------------------ C13
def coef(i, s, t):
    """Total coefficient of species t in state s of reaction i."""
    k = fresh_index("k")
    return make_fold("sum", nf(i, s), k, z3.If(ss(i, s, k) == t, real(stoich(i, s, k)), z3.RealVal(0)))


def net_rate(i):
    return kf_(i)*mass_action(i, z3.IntVal(0)) - kr_(i)*mass_action(i, nst(i) - 1)


def dtheta_dt(j):
    return dtheta_of(ADS.name(j))


def rate_scope(I, env):
    """The generated text is read where kf, kr, theta, p, c are the quantities it names."""
    def same(name, index, facts, spec):
        d = env.lookup(name)
        ok = I.s.under(facts, lambda: I.s.valid(real(I.getitem(d, index)) == spec)[0])
        if not ok:
            raise Unsupported("'%s' where a rate expression is evaluated" % name)
    i, t = fresh_index("i"), z3.Const(T.fresh_name("t"), T.S)
    for name, f in (("kf", kf_), ("kr", kr_)):
        same(name, i, [i >= 0, i < NR], f(i))
    same("theta", t, [z3.Or(ADS.has(t), SITES.has(t))], theta(t))
    same("p", t, [GAS.has(t)], pressure(t))
    same("c", t, [LIQ.has(t)], concentration(t))


def code(value, prec):
    return rope(Code(value, prec, rate_scope))


def rate_env(I):
    """A scope as in rate_scope."""
    from interp import Env
    e = Env(I, source.Module.get(MF))
    e.vars["kf"], e.vars["kr"] = klists(I)
    e.vars["theta"] = c_t2d(I, None, (), {})
    e.vars["p"] = net.user_dict(I, GAS.has, pressure)
    e.vars["c"] = net.user_dict(I, LIQ.has, concentration)
    return e


def forward(i):
    return kf_(i)*mass_action(i, z3.IntVal(0))


def reverse(i):
    return kr_(i)*mass_action(i, nst(i) - 1)


def c_elementary_rate(I, self, args, kwargs):
    i = net.index_of_text(I, args[0] if args else kwargs["rxn_expression"])
    return (code(forward(i), "mul"), code(reverse(i), "mul"))


def change(i, t):
    """Particles of t one event of reaction i makes."""
    return coef(i, nst(i) - 1, t) - coef(i, z3.IntVal(0), t)


def c_elementary_dtheta(I, self, args, kwargs):
    v = dict(zip(("adsorbate_name", "rxn_expression"), args))
    v.update(kwargs)
    t = as_S(v["adsorbate_name"])
    if not I.s.valid(ADS.has(t))[0]:
        raise Unsupported("name that may not be an adsorbate")
    i = net.index_of_text(I, v["rxn_expression"])
    if I.decide(change(i, t) == 0):
        return None
    return code(change(i, t)*net_rate(i), "add")


def dtheta_of(t):
    i = fresh_index("i")
    return make_fold("sum", NR, i, change(i, t)*net_rate(i))


def c_adsorbate_dtheta(I, self, args, kwargs):
    t = as_S(args[0] if args else kwargs["adsorbate_name"])
    if not I.s.valid(ADS.has(t))[0]:
        raise Unsupported("name that may not be an adsorbate")
    return code(dtheta_of(t), "add")


def evaluates_to(U, text, env, spec, prec, label):
    """The text is a prec-expression with the value spec in env."""
    v, p = ropeexec.expression(U.I, text, env)
    if prec == "mul" and p != "mul":
        U.fail(label, "not a product")
        return
    U.prove(real(v) == spec, label)


def elementary_rate_unit(P):
    con = net.contracts()

    def rate(U):
        I = U.I
        slv, o = rate_solver(U)
        i = z3.Int("i0")
        U.s.assume(z3.And(i >= 0, i < NR))
        f, r = I.unpack(U.method(slv, "get_elementary_rate_expression", [rx(i)]), 2)
        e = rate_env(I)
        evaluates_to(U, f, e, forward(i), "mul", "forward: kf times the coverages of the initial state")
        evaluates_to(U, r, e, reverse(i), "mul", "reverse: kr times the coverages of the final state")
    P.unit("MeanFieldSolver.get_elementary_rate_expression", rate, con,
           expect=["forward: kf times the coverages of the initial state",
                   "reverse: kr times the coverages of the final state"])


def c13(P):
    P.assumption("names of species contain no quote, backslash or line break")
    P.assumption("every species of an end state is in the list of its kind (C04)")
    con = net.contracts()
    elementary_rate_unit(P)
    con["MeanFieldSolver.get_elementary_rate_expression"] = c_elementary_rate

    def one(U):
        I = U.I
        slv, o = rate_solver(U)
        i, j = z3.Int("i0"), z3.Int("j0")
        U.s.assume(z3.And(i >= 0, i < NR, j >= 0, j < ADS.n))
        t = ADS.name(j)
        r = U.method(slv, "get_elementary_dtheta_dt_expression", [t, rx(i)])
        if r is None:
            U.prove(change(i, t) == 0, "no expression only when the adsorbate does not change")
            return
        evaluates_to(U, r, rate_env(I), change(i, t)*net_rate(i), "add", "coefficient times net rate")
    P.unit("SteadyStateSolver.get_elementary_dtheta_dt_expression", one, con,
           expect=["no expression only when the adsorbate does not change", "coefficient times net rate"])

    def reject(U):
        I = U.I
        slv, o = rate_solver(U)
        i = z3.Int("i0")
        t = z3.Const("other", T.S)
        U.s.assume(z3.And(i >= 0, i < NR, z3.Not(ADS.has(t))))
        try:
            U.method(slv, "get_elementary_dtheta_dt_expression", [t, rx(i)])
        except PyRaise as e:
            U.prove(e.name == "ValueError", "a name that is no adsorbate is rejected")
            return
        U.fail("a name that is no adsorbate is rejected", "accepted")
    P.unit("SteadyStateSolver.get_elementary_dtheta_dt_expression(other name)", reject, con,
           expect=["a name that is no adsorbate is rejected"])

    con2 = dict(con)
    con2["SteadyStateSolver.get_elementary_dtheta_dt_expression"] = c_elementary_dtheta

    def ads(U):
        I = U.I
        slv, o = rate_solver(U)
        j = z3.Int("j0")
        U.s.assume(z3.And(j >= 0, j < ADS.n))
        t = ADS.name(j)
        r = U.method(slv, "get_adsorbate_dtheta_dt_expression", [t])
        evaluates_to(U, r, rate_env(I), dtheta_of(t), "add", "sum over the reactions")
    P.unit("SteadyStateSolver.get_adsorbate_dtheta_dt_expression", ads, con2,
           expect=["sum over the reactions"])

    con3 = dict(con2)
    con3["SteadyStateSolver.get_adsorbate_dtheta_dt_expression"] = c_adsorbate_dtheta
    con3["MeanFieldSolver._cvg_tuple2dict"] = c_t2d
    given = [None]
    con3["MeanFieldSolver.get_rate_constants"] = c_constants(given)

    def fun(U, own):
        I = U.I
        given[0] = None if own else energies(I)
        slv, o = rate_solver(U)
        r = U.method(slv, "steady_state_function", [coverages(I)] + ([] if own else [given[0]]))
        U.prove(integer(I.length(r)) == ADS.n, "one derivative per adsorbate")
        U.forall(ADS.n, lambda j: real(I.getitem(r, j)) == dtheta_dt(j), "sum of coefficient times net rate")
    for own in (True, False):
        P.unit("SteadyStateSolver.steady_state_function(%s energies)" % ("own" if own else "given"),
               lambda U, own=own: fun(U, own), con3,
               expect=["one derivative per adsorbate", "sum of coefficient times net rate"])


    residual_unit(P)


def residual_unit(P):
    """get_residual over the contract of steady_state_function."""
    dth = z3.Function("dtheta_dt", I_, R_)
    con = net.contracts()
    given = [None, None]

    def c_ssf(I, self, a, k):
        e = k.get("relative_energies", a[1] if len(a) > 1 else None)
        cv = a[0] if a else k["cvgs_tuple"]
        if e is not given[0] or cv is not given[1]:
            raise Unsupported("derivatives of other coverages or energies")
        return numbers(I, ADS.n, dth, "dtheta")
    con["SteadyStateSolver.steady_state_function"] = c_ssf

    def res(U, own):
        I = U.I
        U.s.assume(ADS.n > 0)
        given[:] = [None if own else energies(I), coverages(I)]
        slv, o = rate_solver(U)
        r = z3.Real("residual")
        U.s.assume(r == real(U.method(slv, "get_residual", [given[1]] + ([] if own else [given[0]]))))
        ab = lambda j: z3.If(dth(j) >= 0, dth(j), -dth(j))
        U.forall(ADS.n, lambda j: r >= ab(j), "no derivative is larger")
        # the other direction by contradiction: r differs from every |derivative|
        U.s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < ADS.n), r != ab(j)))
        U.prove(z3.BoolVal(False), "it is one of them")
    for own in (True, False):
        # vacuous only if the last obligation is: it is proved by contradiction
        P.unit("SteadyStateSolver.get_residual(%s energies)" % ("own" if own else "given"),
               lambda U, own=own: res(U, own), con, expect=["no derivative is larger"])


PROPS.update({"C13": c13})


# ------------------------------------------------------------------ C18
def c18(P):
    P.assumption("no forward rate is zero")
    f_, r_ = z3.Function("rf", I_, R_), z3.Function("rr", I_, R_)
    con = net.contracts()
    con["ModelShell.archive_data"] = lambda I, self, a, k: None
    n1, n2 = z3.Int("n1"), z3.Int("n2")

    def rev(U):
        I = U.I
        slv, o = solver(I, SS, "SteadyStateSolver")
        U.s.assume(z3.And(n1 >= 0, n2 >= 0))
        U.s.assume_all(lambda i: f_(i) != 0)
        try:
            r = U.method(slv, "get_reversibilities", [numbers(I, n1, f_, "rfs"), numbers(I, n2, r_, "rrs")])
        except PyRaise as e:
            U.prove(e.name == "ValueError", "only ValueError")
            U.prove(n1 != n2, "rejected only for different lengths")
            return
        U.prove(n1 == n2, "different lengths are rejected")
        U.prove(integer(I.length(r)) == n1, "one reversibility per reaction")
        U.forall(n1, lambda i: real(I.getitem(r, i)) == r_(i)/f_(i), "reverse over forward")
    P.unit("MeanFieldSolver.get_reversibilities", rev, con,
           expect=["rejected only for different lengths", "different lengths are rejected",
                   "one reversibility per reaction", "reverse over forward", "only ValueError"])

    net_ = z3.Function("net_rate", I_, R_)
    nu = z3.Function("nu", I_, I_, R_)
    given = [None, None]
    con2 = dict(con)

    def c_net(I, self, a, k):
        v = dict(zip(("cvgs_tuple", "relative_energies"), a))
        v.update(k)
        if v["cvgs_tuple"] is not given[1] or v.get("relative_energies") is not given[0]:
            raise Unsupported("net rates of other coverages or energies")
        l = numbers(I, NR, net_, "net")
        l.is_tuple = True
        return l

    def c_matrices(I, self, a, k):
        return (I.new(SMatrix(NR, SITES.n + ADS.n, lambda i, c: z3.Function("nu_sites", I_, I_, R_)(i, c), (), "np")),
                I.new(SMatrix(NR, GAS.n + LIQ.n, lambda i, c: nu(integer(i), integer(c)), (), "np")))
    con2["MeanFieldSolver.get_net_rates"] = c_net
    con2["ParserBase.get_stoichiometry_matrices"] = c_matrices

    def tof(U, own, ask):
        I = U.I
        parser = I.obj(net.cls(PB, "ParserBase"), {})
        slv, o = solver(I, SS, "SteadyStateSolver", dict(parser=parser))
        given[:] = [None if own else energies(I), coverages(I)]
        kw = {} if own else {"relative_energies": given[0]}

        def spec(c):
            i = fresh_index("i")
            # nu is initial minus final (C05)
            return make_fold("sum", NR, i, (-nu(i, c))*net_(i))
        if ask == "all":
            r = U.method(slv, "get_tof", [given[1]], kw)
            U.prove(integer(I.length(r)) == GAS.n + LIQ.n, "one TOF per gas and liquid")
            U.forall(GAS.n + LIQ.n, lambda c: real(I.getitem(r, c)) == spec(c), "sum of coefficient times net rate")
            return
        if ask == "one":
            c = z3.Int("c0")
            U.s.assume(z3.And(c >= 0, c < GAS.n))
            r = U.method(slv, "get_tof", [given[1]], dict(kw, gas_name=GAS.name(c)))
            U.prove(real(r) == spec(c), "its own entry")
            return
        t = z3.Const("other", T.S)
        U.s.assume(z3.Not(GAS.has(t)))
        try:
            U.method(slv, "get_tof", [given[1]], dict(kw, gas_name=t))
        except PyRaise as e:
            U.prove(e.name == "ParameterError", "an unknown name is rejected")
            return
        U.fail("an unknown name is rejected", "accepted")
    ex = dict(all=["one TOF per gas and liquid", "sum of coefficient times net rate"],
              one=["its own entry"], unknown=["an unknown name is rejected"])
    for own in (True, False):
        for ask in ("all", "one", "unknown"):
            P.unit("MeanFieldSolver.get_tof(%s energies, %s)" % ("own" if own else "given", ask),
                   lambda U, own=own, ask=ask: tof(U, own, ask), con2, expect=ex[ask])


# ------------------------------------------------------------------ C31
Eabs = z3.Function("E_abs", T.S, R_)


def boltz(t):
    return T.Exp(-Eabs(t)/(KB*TK))


def c31(P):
    P.assumption("the exponential is positive")
    con = net.contracts()
    loads = [False]

    def c_data(I, self, a, k):
        if loads[0]:
            I.set_attr(I.getattr(self, "_owner"), "has_absolute_energy", True)
    con["MeanFieldSolver.get_data"] = c_data

    def total_of(N):
        j = fresh_index("j")
        return make_fold("sum", N.n, j, boltz(N.name(j)))

    def run(U, inc, has, late=False):
        I = U.I
        loads[0] = late
        d = net.user_dict(I, lambda t: z3.Or(ADS.has(t), SITES.has(t)), Eabs)
        slv, o = solver(I, SS, "SteadyStateSolver", dict(has_absolute_energy=has, absolute_energies=d))
        try:
            r = U.method(slv, "boltzmann_coverages", [], {} if inc is None else {"include_empty_site": inc})
        except PyRaise as e:
            ok = e.name in ("IOError", "OSError") and not has and not late
            U.s.assume(z3.And(total_of(ADS) >= 0, total_of(SITES) >= 0))
            U.prove(z3.BoolVal(ok), "rejected only without energies")
            return
        inc = inc is None or inc
        if not has and not late:
            U.fail("rejected without energies", "accepted")
            return
        z = total_of(ADS) + (total_of(SITES) if inc else 0)
        U.prove(integer(I.length(r)) == ADS.n, "one coverage per adsorbate")
        U.forall(ADS.n, lambda j: real(I.getitem(r, j)) == boltz(ADS.name(j))/z, "factor over the sum")
        # consequences of the formula
        inv = z3.Real("inverse_of_the_sum")
        j = fresh_index("j")
        tot = make_fold("sum", ADS.n, j, boltz(ADS.name(j))*inv)
        U.s.assume(z3.And(ADS.n > 0, inv*z == 1))
        U.prove(tot == total_of(ADS)*inv, "the coverages add up to the adsorbates' share")
        if not inc:
            U.prove(total_of(ADS)*inv == 1, "the share is one")
        else:
            U.s.assume(SITES.n > 0)
            U.prove(total_of(ADS)*inv < 1, "the share is below one")
    ex = ["one coverage per adsorbate", "factor over the sum", "the coverages add up to the adsorbates' share"]
    P.unit("MeanFieldSolver.boltzmann_coverages()", lambda U: run(U, None, True), con,
           expect=ex + ["the share is below one"])
    for inc in (True, False):
        for late in (False, True):
            P.unit("MeanFieldSolver.boltzmann_coverages(include_empty_site=%s)%s" % (
                inc, " with energies read by get_data" if late else ""),
                lambda U, inc=inc, late=late: run(U, inc, not late, late), con,
                expect=ex + ["the share is below one" if inc else "the share is one"])
        P.unit("MeanFieldSolver.boltzmann_coverages(%s, no energies)" % inc,
               lambda U, inc=inc: run(U, inc, False), con, expect=["rejected only without energies"])


PROPS.update({"C18": c18, "C31": c31})


# ------------------------------------------------------------------ C15
def c15(P):
    P.assumption("site totals are not negative")
    con = net.contracts()
    free = z3.Function("free_site", T.S, R_)

    def c_named(I, self, a, k):
        def get(t):
            return z3.If(ADS.has(t), cov(ADS.idx(t)), free(t))
        return I.new(SDict(DictBase(lambda t: z3.Or(ADS.has(as_S(t)), SITES.has(as_S(t))),
                                    lambda t: get(as_S(t)))))
    con["MeanFieldSolver._cvg_tuple2dict"] = c_named

    def tot(j):
        return total(T.cat(lit("*_"), siteof(ADS.name(j))))

    def clip(j):
        c = z3.If(cov(j) > 1, z3.RealVal(1), cov(j))
        c = z3.If(c < 0, z3.RealVal(0), c)
        return z3.If(c > tot(j), tot(j), c)

    def final(j):
        s = on_site(T.cat(lit("*_"), siteof(ADS.name(j))), clip)
        return z3.If(s > tot(j), clip(j)/s*tot(j), clip(j))

    def run(U):
        I = U.I
        slv, o = rate_solver(U)
        U.s.assume_all(lambda x: total(SITES.name(x)) >= 0)
        r = U.method(slv, "_SteadyStateSolver__constrain_coverages", [coverages(I)])
        U.prove(integer(I.length(r)) == ADS.n, "one coverage per adsorbate")
        U.forall(ADS.n, lambda j: real(I.getitem(r, j)) == final(j), "clipped and scaled back per site")
    P.unit("SteadyStateSolver.__constrain_coverages", run, con,
           expect=["one coverage per adsorbate", "clipped and scaled back per site"])

    # what that formula gives
    def site(q):
        return T.cat(lit("*_"), siteof(ADS.name(q)))

    def consequences(U):
        rate_solver(U)
        U.s.assume_all(lambda x: total(SITES.name(x)) >= 0)
        U.forall(ADS.n, lambda q: z3.And(final(q) >= 0, final(q) <= 1, final(q) <= tot(q)),
                 "in [0, 1] and within the total")

        def factor(q):
            S, t = on_site(site(q), clip), tot(q)
            return z3.If(S > t, t/S, z3.RealVal(1))
        def one(q):
            return on_site(site(q), final) == on_site(site(q), lambda j: factor(q)*clip(j))

        def out(q):
            return on_site(site(q), lambda j: factor(q)*clip(j)) == factor(q)*on_site(site(q), clip)
        U.forall(ADS.n, one, "a site is scaled by one factor")
        U.forall(ADS.n, out, "the factor of a sum")
        U.forall(ADS.n, lambda q: z3.Implies(z3.And(one(q), out(q)), on_site(site(q), final) <= tot(q)),
                 "a site sums to at most its total")
    P.unit("coverages within the site totals", consequences, con)

    def kept(U):
        rate_solver(U)
        U.s.assume_all(lambda x: total(SITES.name(x)) >= 0)
        U.s.assume_all(lambda q: z3.Implies(z3.And(q >= 0, q < ADS.n), z3.And(
            cov(q) >= 0, cov(q) <= 1, cov(q) <= tot(q))))
        U.s.assume_all(lambda q: z3.Implies(z3.And(q >= 0, q < ADS.n), on_site(site(q), cov) <= tot(q)))
        U.forall(ADS.n, lambda q: clip(q) == cov(q), "valid coverages are not clipped")
        U.forall(ADS.n, lambda q: on_site(site(q), clip) == on_site(site(q), cov), "nor are their sums")
        U.forall(ADS.n, lambda q: final(q) == cov(q), "valid coverages are kept")
    P.unit("valid coverages", kept, con)


PROPS.update({"C15": c15})
