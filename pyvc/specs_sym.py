"""Contracts on the symbolic rate expressions (C19).

A symbol is a name with its assumptions; an expression built from symbols is known by its
value when every symbol has its value (symval), so the arithmetic of the code on expressions
is arithmetic on these values.  Substitution of a dictionary gives this value when the
dictionary holds the value of every symbol."""
import z3

import net
from net import *             # noqa
import terms as T
from terms import real, integer, fresh_index, lit
from values import *          # noqa
from values import subst
from session import Unsupported
import ast
import specs_rates as R
from specs_rates import (KB, HH, TK, MF, SS, PB, gaf, gar, dgf, kt, energies, solver, classified, cov,
                         coverages, theta, value, mass_action, on_site, numbers)

symval = z3.Function("symval", S, R_)


def num(v):
    return symval(v.term) if isinstance(v, Opq) and v.spec is SYM else v


def sym_op(I, o, args, kwargs):
    op, a, b = args
    if not all(is_number(x) for x in (a, b)):
        raise Unsupported("operator on a symbol and %r" % ((a, b),))
    return I.binop(op, num(a), num(b))


def is_number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) or \
        T.is_z3(x) and x.sort() in (R_, I_) or isinstance(x, Opq) and x.spec is SYM


SYM = Spec("symbol", methods={"__op__": sym_op, "__neg__": lambda I, o, a, k: -symval(o.term)})


def symbol(I, a, k):
    name = a[0]
    kw = ",".join("%s=%r" % (n, v) for n, v in sorted(k.items()))
    if len(a) != 1 or not is_text(name) or any(not isinstance(v, bool) for v in k.values()):
        raise Unsupported("symbol")
    if k.get("positive") and k.get("real") is False:
        raise PyRaise("InconsistentAssumptions")
    return Opq(SYM, as_S(rope(*parts_of(name))), (kw, name))


def symbols(I, a, k):
    if len(a) != 1 or not isinstance(a[0], str) or ":" in a[0]:
        raise Unsupported("symbols")
    r = tuple(symbol(I, [x], k) for x in a[0].replace(",", " ").split())
    return r if len(r) > 1 else r[0]


def e_op(I, o, args, kwargs):
    op, a, b = args
    if a is o and isinstance(op, ast.Pow) and is_number(b):
        return T.Exp(real(num(b)))
    raise Unsupported("operator on E")


E_ = Opq(Spec("E", methods={"__op__": e_op}), lit("E"))


def sym_matrix(I, a, k):
    v = a[0]
    if not isinstance(v, SMatrix):
        for seg in I.segments(v):
            x = general(lambda: seg.at(fresh_index("k"))) if isinstance(seg, GSeq) else None
            if x is not None and not is_number(x):
                raise Unsupported("matrix of %r" % (x,))
    return R_MATRIX(I, a, k)


import builtins_model                             # noqa
R_MATRIX = builtins_model.mp_matrix
OPAQUE = ("theta", "cov", "symval", "forward_rate", "reverse_rate", "net_rate", "tof_value", "pressure",
          "concentration")
NEED = {"theta", "cov", "forward_rate", "reverse_rate", "net_rate", "tof_value", "symval"}


def substituted(I, D, t):
    """The value of an expression under a substitution: the dictionary has every symbol it may hold."""
    if not isinstance(D, Opq) or D.spec is not SUBS:
        raise Unsupported("substitution that is not the one of get_subs_dict")
    if D.data[0] != "with coverages":
        names = set(c.decl().name() for c in T.consts_of(t) if z3.is_app(c))
        if names & NEED:
            raise Unsupported("substitution without coverages in an expression that may hold them")
    return t


SUBS = Spec("substitutions")


def evalf(I, o, a, k):
    if a or set(k) != {"subs"}:
        raise Unsupported("evalf")
    return substituted(I, k["subs"], real(o))


def evalf_matrix(I, m, a, k):
    if a or set(k) != {"subs"}:
        raise Unsupported("evalf")
    substituted(I, k["subs"], I.mat_read(m, fresh_index("i"), fresh_index("j")))
    return I.new(SMatrix(m.rows, m.cols, m.base, m.layers, m.kind))


EXT = {"sympy.Symbol": Builtin(symbol, "Symbol"), "sympy.symbols": Builtin(symbols, "symbols"),
       "sympy.E": E_, "sympy.exp": Builtin(lambda I, a, k: T.Exp(real(num(a[0]))), "exp"),
       "sympy.Matrix": Builtin(sym_matrix, "Matrix"),
       "number.evalf": evalf, "matrix.evalf": evalf_matrix}

# ------------------------------------------------------------------ the symbols of the model
PSYM, CSYM, TSYM = Names("psym"), Names("csym"), Names("tsym")
GASYM, DGSYM = Names("Gasym"), Names("dGsym")
CONST = dict((n, z3.Const("sym_" + n, S)) for n in ("kB", "h", "T"))


def known(N, n, val):
    T.schema("symval", lambda a: [z3.Implies(
        z3.And(a.arg(0).arg(0) >= 0, a.arg(0).arg(0) < n), a == val(a.arg(0).arg(0)))]
        if a.arg(0).decl().name() == "name" + N.tag else [])


FAMILIES = ((PSYM, GAS.n, lambda j: pressure(GAS.name(j))),
            (CSYM, LIQ.n, lambda j: concentration(LIQ.name(j))),
            (TSYM, ADS.n, lambda j: theta(ADS.name(j))),
            (GASYM, NR, lambda i: gaf(i)), (DGSYM, NR, lambda i: dgf(i)))
for f in FAMILIES:
    known(*f)
VALUES = dict(kB=KB, h=HH, T=TK)
T.schema("symval", lambda a: [a == VALUES[n] for n, c in CONST.items() if a.arg(0).get_id() == c.get_id()])


def family(N):
    return GSeq(N.n, lambda j: Opq(SYM, N.name(integer(j)), ("", N.name(integer(j)))), N.tag, open_=False)


def constant(n):
    return Opq(SYM, CONST[n], ("", CONST[n]))


def sym_solver(U, extra=None):
    """A solver that has its symbols (contract of get_data_symbols and __init__)."""
    I = U.I
    for N, n, _ in FAMILIES:
        U.s.assume(N.n == n)
    for j, c in enumerate(CONST.values()):
        U.s.assume(kindof(c) == 100 + j)
    p = net.user_dict(I, GAS.has, pressure)
    c = net.user_dict(I, LIQ.has, concentration)
    fsite = GSeq(SITES.n, lambda x: theta(SITES.name(integer(x))), "fsite", open_=False)
    at = dict(_classified_adsorbates=classified(I), _p=p, _c=c, _p_sym=family(PSYM), _c_sym=family(CSYM),
              _ads_theta_sym=family(TSYM), _fsite_theta_sym=fsite, _Ga_sym=family(GASYM),
              _dG_sym=family(DGSYM), _kB_sym=constant("kB"), _h_sym=constant("h"), _T_sym=constant("T"),
              _has_symbols=True)
    return solver(I, SS, "SteadyStateSolver", dict(relative_energies=energies(I), **(extra or {})), at)


def c19(P):
    P.assumption("sympy builds and evaluates expressions as the arithmetic of their values")
    P.assumption("names of gases, liquids, sites and adsorbates are the inventory of C04")
    P.assumption("closed energies: the reverse barrier is the forward one minus the reaction energy (C06); "
                 "the numeric side is kB*T/h*exp(-barrier/(kB*T)), mass action, forward minus reverse and "
                 "minus the gas columns times net rates (C09, C12, C18)")
    con = net.contracts()

    def rate_constants(U):
        I = U.I
        slv, o = sym_solver(U)
        kf, kr = I.unpack(U.method(slv, "get_rate_constant_syms"), 2)
        for l, G, name in ((kf, lambda i: gaf(i), "forward"), (kr, lambda i: gaf(i) - dgf(i), "reverse")):
            U.prove(integer(I.length(l)) == NR, "one %s constant per reaction" % name)
            U.forall(NR, lambda i: real(I.getitem(l, i)) == kt(G(i)), "%s constants" % name)
    P.unit("MeanFieldSolver.get_rate_constant_syms", rate_constants, con, EXT,
           expect=["one forward constant per reaction", "forward constants",
                   "one reverse constant per reaction", "reverse constants"])


    i0 = z3.Int("i0")

    # ---- rates of one reaction
    def c_constants(I, self, a, k):
        return tuple(I.new(SList(GSeq(NR, lambda i, G=G: kt(G(integer(i))), n, open_=False)))
                     for n, G in (("kf", gaf), ("kr", lambda i: gaf(i) - dgf(i))))
    con1 = dict(con)
    con1["MeanFieldSolver.get_rate_constant_syms"] = c_constants

    def elementary(U):
        I = U.I
        slv, o = sym_solver(U)
        U.s.assume(z3.And(i0 >= 0, i0 < NR))
        r = U.method(slv, "get_elementary_rate_sym", [rx(i0)])
        f, b = I.unpack(r, 2)
        U.prove(real(f) == kt(gaf(i0))*mass_action(i0, z3.IntVal(0)), "forward rate")
        U.prove(real(b) == kt(gaf(i0) - dgf(i0))*mass_action(i0, nst(i0) - 1), "reverse rate")
    P.unit("MeanFieldSolver.get_elementary_rate_sym", elementary, con1, EXT,
           expect=["forward rate", "reverse rate"])

    rf_, rr_ = z3.Function("forward_rate", I_, R_), z3.Function("reverse_rate", I_, R_)

    def c_elementary(I, self, a, k):
        i = net.index_of_text(I, (a + [k.get("rxn_expression")])[0] if isinstance(a, list) else a[0])
        return (rf_(i), rr_(i))
    con2 = dict(con)
    con2["MeanFieldSolver.get_elementary_rate_sym"] = c_elementary
    con2["MeanFieldSolver.get_latex_strs"] = lambda I, self, a, k: Opq(Spec("latex"))

    def all_rates(U):
        I = U.I
        slv, o = sym_solver(U)
        rf, rr = I.unpack(U.method(slv, "get_rate_syms"), 2)
        for l, f, name in ((rf, rf_, "forward"), (rr, rr_, "reverse")):
            U.prove(integer(I.length(l)) == NR, "one %s rate per reaction" % name)
            U.forall(NR, lambda i: real(I.getitem(l, i)) == f(i), "%s rates" % name)
    P.unit("MeanFieldSolver.get_rate_syms", all_rates, con2, EXT,
           expect=["one forward rate per reaction", "forward rates",
                   "one reverse rate per reaction", "reverse rates"])

    def c_rates(I, self, a, k):
        return tuple(numbers(I, NR, f, n) for f, n in ((rf_, "rfs"), (rr_, "rrs")))
    con3 = dict(con)
    con3["MeanFieldSolver.get_rate_syms"] = c_rates

    def net_syms(U):
        I = U.I
        slv, o = sym_solver(U)
        r = U.method(slv, "get_net_rate_syms")
        U.prove(integer(I.length(r)) == NR, "one net rate per reaction")
        U.forall(NR, lambda i: real(I.getitem(r, i)) == rf_(i) - rr_(i), "forward minus reverse")
    P.unit("MeanFieldSolver.get_net_rate_syms", net_syms, con3, EXT,
           expect=["one net rate per reaction", "forward minus reverse"])

    # ---- the dictionary
    def subs(U, given):
        I = U.I
        slv, o = sym_solver(U)
        slv.attrs["_constants_subs_dict"] = d0 = I.new(SDict())
        for n in ("kB", "h", "T"):
            I.dict_set(d0, constant(n), VALUES[n])
        d = U.method(slv, "get_subs_dict", [coverages(I)] if given else [])
        for N, n, val in FAMILIES:
            if N is TSYM:
                if given and I.decide(n > 0):
                    U.forall(n, lambda j: real(I.getitem(d, family(N).at(j))) == cov(j), "coverages")
                continue
            U.forall(n, lambda j, N=N, val=val: real(I.getitem(d, family(N).at(j))) == val(j),
                     {"psym": "pressures", "csym": "concentrations", "Gasym": "barriers",
                      "dGsym": "reaction energies"}[N.tag])
        for n in ("kB", "h", "T"):
            U.prove(real(I.getitem(d, constant(n))) == VALUES[n], "constants")
    ex = ["pressures", "concentrations", "barriers", "reaction energies", "constants"]
    for given in (True, False):
        P.unit("MeanFieldSolver.get_subs_dict(%s coverages)" % ("given" if given else "no"),
               lambda U, given=given: subs(U, given), con, EXT, expect=ex + (["coverages"] if given else []))

    # ---- substitution
    given = [None]

    def c_subs(I, self, a, k):
        c = a[0] if a else k.get("coverages")
        if c is None:
            return Opq(SUBS, data=("without coverages",))
        if c is not given[0]:
            raise Unsupported("substitution of other coverages")
        return Opq(SUBS, data=("with coverages",))
    con4 = dict(con1)
    con4["MeanFieldSolver.get_subs_dict"] = c_subs
    con4["MeanFieldSolver.get_rate_syms"] = c_rates
    con4["ModelShell.archive_data"] = lambda I, self, a, k: None
    con4["MeanFieldSolver.__log_tof"] = lambda I, self, a, k: None
    net_ = z3.Function("net_rate", I_, R_)
    tof_ = z3.Function("tof_value", I_, R_)

    def tup(I, n, f, name):
        l = numbers(I, n, f, name)
        l.is_tuple = True
        return l

    def values_of(name, kwargs, spec, contracts, labels):
        def run(U):
            I = U.I
            slv, o = sym_solver(U, dict(parser=I.obj(net.cls(PB, "ParserBase"), {})))
            given[0] = coverages(I)
            r = U.method(slv, name, [given[0]] if kwargs else [])
            parts = I.unpack(r, len(spec)) if len(spec) > 1 else [r]
            for l, (n, f), lab in zip(parts, spec, labels):
                U.prove(integer(I.length(l)) == n, "number of " + lab)
                U.forall(n, lambda i: real(I.getitem(l, i)) == f(i), lab)
        P.unit("MeanFieldSolver." + name, run, contracts, EXT,
               expect=[x for lab in labels for x in ("number of " + lab, lab)])

    values_of("get_rate_constants_by_sym", False, [(NR, lambda i: kt(gaf(i))), (NR, lambda i: kt(gaf(i) - dgf(i)))],
              con4, ["forward constants", "reverse constants"])
    values_of("get_rates_by_sym", True, [(NR, rf_), (NR, rr_)], con4, ["forward rates", "reverse rates"])
    con5 = dict(con4)
    con5["MeanFieldSolver.get_net_rate_syms"] = lambda I, self, a, k: tup(I, NR, net_, "net")
    values_of("get_net_rates_by_sym", True, [(NR, net_)], con5, ["net rates"])

    nu = z3.Function("nu", I_, I_, R_)
    con6 = dict(con5)
    con6["ParserBase.get_stoichiometry_matrices"] = lambda I, self, a, k: (
        I.new(SMatrix(NR, SITES.n + ADS.n, lambda i, c: z3.Function("nu_sites", I_, I_, R_)(i, c), (), "np")),
        I.new(SMatrix(NR, GAS.n + LIQ.n, lambda i, c: nu(integer(i), integer(c)), (), "np")))

    def tof_spec(c):
        i = fresh_index("i")
        return T.make_fold("sum", NR, i, (-nu(i, c))*net_(i))
    values_of("get_tof_syms", False, [(GAS.n + LIQ.n, tof_spec)], con6, ["TOFs"])
    con7 = dict(con6)
    con7["MeanFieldSolver.get_tof_syms"] = lambda I, self, a, k: tup(I, GAS.n + LIQ.n, tof_, "tofs")
    values_of("get_tof_by_sym", True, [(GAS.n + LIQ.n, tof_)], con7, ["TOFs"])

    # ---- the symbols
    def data(U):
        I = U.I
        _, o = solver(I, MF, "MeanFieldSolver", dict(
            relative_energies=energies(I), numerical_representation="mpmath", decimal_precision=100))
        slv = I.obj(net.cls(MF, "MeanFieldSolver"), {})
        U.method(slv, "__init__", [o.obj])
        U.method(slv, "get_data_symbols")
        constants = [I.getattr(slv, "_%s_sym" % c) for c in ("kB", "h", "T")]
        for x, v in zip(constants, (KB, HH, TK)):
            U.prove(real(I.getitem(I.getattr(slv, "_constants_subs_dict"), x)) == v, "values of the constants")
        fam = [("_p_sym", GAS.n), ("_c_sym", LIQ.n), ("_ads_theta_sym", ADS.n), ("_Ga_sym", NR), ("_dG_sym", NR)]
        at = {}
        for name, n in fam:
            l = I.getattr(slv, name)
            U.prove(integer(I.length(l)) == n, "one symbol each")
            at[name] = lambda j, l=l: I.seq_at(l, j)
        a, b = z3.Int("a"), z3.Int("b")

        def same(x, y):
            if not (isinstance(x, Opq) and isinstance(y, Opq) and x.spec is SYM and y.spec is SYM):
                raise Unsupported("no symbol")
            if x.data[0] != y.data[0]:
                return False
            return I.text_eq(x.data[1], y.data[1])
        for p, (name, n) in enumerate(fam):
            for other, m in fam[p:]:
                facts = [a >= 0, a < n, b >= 0, b < m] + ([a != b] if other == name else [])
                U.s.under(facts, lambda: U.prove(z3.Not(as_bool(same(at[name](a), at[other](b)))),
                                                 "symbols are different"))
            for c in constants:
                U.s.under([a >= 0, a < n], lambda: U.prove(
                    z3.Not(as_bool(same(at[name](a), c))), "symbols are different"))
        fs = I.getattr(slv, "_fsite_theta_sym")
        U.prove(integer(I.length(fs)) == SITES.n, "one expression per site")
        U.forall(SITES.n, lambda x: real(I.seq_at(fs, x)) == total(SITES.name(x)) - on_site(
            SITES.name(x), lambda j: num(at["_ads_theta_sym"](j))), "free site = total minus its adsorbates")
        U.prove(as_bool(I.truth(I.getattr(slv, "_has_symbols"))), "marked as done")
    con8 = dict(con)
    con8["MeanFieldSolver.__classify_adsorbates"] = lambda I, self, a, k: classified(I)
    P.unit("MeanFieldSolver.__init__, get_data_symbols", data, con8, dict(EXT, **{
        "mpmath.lu_solve": Opq(Spec("lu_solve")),
        "mpmath.mp": Opq(Spec("mp", methods={"setattr": lambda I, o, a, k: None}))}),
           expect=["values of the constants", "one symbol each", "symbols are different", "one expression per site",
                   "free site = total minus its adsorbates"])


def as_bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


PROPS = {"C19": c19}
