"""Contracts on the symbolic coverage derivatives and Jacobian (C34)."""
import z3

import net
from net import *             # noqa
import terms as T
from terms import real, integer, fresh_index, lit, make_fold
from values import *          # noqa
from session import Unsupported
import specs_sym
import specs_rates as R
from specs_rates import SS, MF, change, numbers, energies, coverages, kt, gaf, dgf, mass_action, theta, cov
from specs_sym import EXT, SYM, SUBS, sym_solver, family, TSYM, substituted

k0, s0 = z3.Int("k0"), z3.Int("s0")
absent = z3.Function("in_no_state", I_, S, B_)
i0, j0 = z3.Int("i0"), z3.Int("j0")
rf_, rr_ = z3.Function("forward_rate", I_, R_), z3.Function("reverse_rate", I_, R_)


T.schema("ss", lambda a: [z3.Implies(
    z3.And(absent(i0, ADS.name(j0)), a.arg(0) == i0, a.arg(1) >= 0, a.arg(1) < nst(i0),
           a.arg(2) >= 0, a.arg(2) < nf(i0, a.arg(1))), a != ADS.name(j0))])


def c34(P):
    P.assumption("the coefficient of an adsorbate that stands in one end state, once and with one molecule, is its "
                 "net one; for the other models it is what the known finding says")
    P.assumption("rates are those of C19 (contract of get_elementary_rate_sym); the numeric side is C13 and C14")
    P.assumption("sympy.Derivative(...).doit() is the derivative, and substitution gives the value (C19)")
    con = net.contracts()
    con["MeanFieldSolver.get_elementary_rate_sym"] = lambda I, self, a, k: (
        lambda i: (rf_(i), rr_(i)))(net.index_of_text(I, a[0] if a else k["rxn_expression"]))

    def one(U):
        I, s = U.I, U.s
        slv, o = sym_solver(U)
        s.assume(z3.And(i0 >= 0, i0 < NR, j0 >= 0, j0 < ADS.n))
        b = ADS.name(j0)
        first = lambda k: z3.And(k >= 0, k < nf(i0, 0), ss(i0, 0, k) == b)
        if s.choose(2):
            s.assume(first(k0))
            sign = -1
        else:
            s.assume_all(lambda k: z3.Not(first(k)))
            if s.choose(2):
                s.assume(z3.And(s0 > 0, s0 < nst(i0), k0 >= 0, k0 < nf(i0, s0), ss(i0, s0, k0) == b))
                sign = 1
            else:
                s.assume(absent(i0, b))
                sign = 0
        s.assume(nst(i0) >= 2)
        r = U.method(slv, "get_elementary_dtheta_dt_sym", [b, rx(i0)])
        if r is None:
            U.prove(z3.Or(z3.BoolVal(sign == 0), change(i0, b) == 0), "none only when the adsorbate does not change")
            return
        exact = real(r) == change(i0, b)*(rf_(i0) - rr_(i0))
        if I.decide(change(i0, b) == sign):
            U.prove(exact, "coefficient times net rate")
        else:
            # the known finding: the first state that has the adsorbate counts, and once
            U.prove(z3.Or(exact, real(r) == sign*(rf_(i0) - rr_(i0))),
                    "known finding: the first state that has the adsorbate, once")
    P.unit("SteadyStateSolver.get_elementary_dtheta_dt_sym", one, con, EXT,
           expect=["none only when the adsorbate does not change", "coefficient times net rate",
                   "known finding: the first state that has the adsorbate, once"])
    sums(P, con)
    values_(P, con)



dth = z3.Function("dtheta_symbol", I_, R_)
# the coefficient of get_elementary_dtheta_dt_sym: the net one outside the known finding
coef = z3.Function("coefficient", I_, I_, R_)
der = z3.Function("derivative_of", I_, I_, R_)
none_ = z3.Function("not_in_reaction", I_, I_, B_)
specs_sym.NEED |= {"dtheta_symbol", "derivative_of"}
SS_ = "SteadyStateSolver."


def deriv(I, a, k):
    """Derivative of the expression of one adsorbate by the symbol of one coverage."""
    if len(a) != 2 or k:
        raise Unsupported("Derivative")
    e, x = real(a[0]), a[1]
    if not (z3.is_app(e) and e.decl().name() == "dtheta_symbol" and isinstance(x, Opq) and x.spec is SYM
            and x.term.decl().name() == "nametsym"):
        raise Unsupported("derivative of %s" % e)
    return Opq(DERIV, data=(e.arg(0), x.term.arg(0)))


DERIV = Spec("derivative", methods={"doit": lambda I, o, a, k: der(*o.data)})


def sums(P, con):
    """The sum over the reactions and the tuple of the adsorbates."""
    def c_one(I, self, a, k):
        b = as_S(a[0] if a else k["adsorbate_name"])
        i = net.index_of_text(I, a[1] if len(a) > 1 else k["rxn_expression"])
        if I.decide(none_(i, ADS.idx(b))):
            return None
        return coef(i, ADS.idx(b))*(rf_(i) - rr_(i))
    T.schema("not_in_reaction", lambda a: [z3.Implies(a, coef(a.arg(0), a.arg(1)) == 0)])
    con = dict(con)
    con[SS_ + "get_elementary_dtheta_dt_sym"] = c_one

    def total(U):
        I = U.I
        slv, o = sym_solver(U)
        U.s.assume(z3.And(j0 >= 0, j0 < ADS.n))
        r = U.method(slv, "get_adsorbate_dtheta_dt_sym", [ADS.name(j0)])
        i = fresh_index("i")
        U.prove(real(r) == make_fold("sum", NR, i, coef(i, j0)*(rf_(i) - rr_(i))),
                "sum of coefficient times net rate")
    P.unit(SS_ + "get_adsorbate_dtheta_dt_sym", total, con, EXT, expect=["sum of coefficient times net rate"])

    con = dict(con)
    con[SS_ + "get_adsorbate_dtheta_dt_sym"] = lambda I, self, a, k: dth(
        ADS.idx(as_S(a[0] if a else k["adsorbate_name"])))
    con["MeanFieldSolver.get_latex_strs"] = lambda I, self, a, k: Opq(Spec("latex"))

    def all_(U):
        I = U.I
        slv, o = sym_solver(U)
        r = U.method(slv, "get_dtheta_dt_syms")
        U.prove(integer(I.length(r)) == ADS.n, "one derivative per adsorbate")
        U.forall(ADS.n, lambda j: real(I.getitem(r, j)) == dth(j), "order of the adsorbates")
    P.unit(SS_ + "get_dtheta_dt_syms", all_, con, EXT,
           expect=["one derivative per adsorbate", "order of the adsorbates"])


def values_(P, con):
    given = [None]

    def c_subs(I, self, a, k):
        c = a[0] if a else k.get("coverages")
        if c is None:
            return Opq(SUBS, data=("without coverages",))
        if c is not given[0]:
            raise Unsupported("substitution of other coverages")
        return Opq(SUBS, data=("with coverages",))

    def c_syms(I, self, a, k):
        l = numbers(I, ADS.n, dth, "dthetas")
        l.is_tuple = True
        return l
    con = dict(con)
    con["MeanFieldSolver.get_subs_dict"] = c_subs
    con[SS_ + "get_dtheta_dt_syms"] = c_syms

    def fun(U):
        I = U.I
        slv, o = sym_solver(U)
        given[0] = coverages(I)
        r = U.method(slv, "steady_state_function_by_sym", [given[0]])
        U.prove(integer(I.length(r)) == ADS.n, "one value per adsorbate")
        U.forall(ADS.n, lambda j: real(I.getitem(r, j)) == dth(j), "values of the derivatives")
    P.unit(SS_ + "steady_state_function_by_sym", fun, con, EXT,
           expect=["one value per adsorbate", "values of the derivatives"])

    def rows(U, r):
        I = U.I
        if isinstance(r, SMatrix):
            U.prove(z3.And(z3.BoolVal(r.kind == "lists"), integer(r.rows) == ADS.n), "one row per adsorbate")
            U.prove(integer(r.cols) == ADS.n, "one column per adsorbate")
            U.each(ADS.n, lambda i: U.forall(ADS.n, lambda j: I.mat_read(r, i, j) == der(i, j),
                                             "derivative of row by column"))
            return
        U.prove(integer(I.length(r)) == ADS.n, "one row per adsorbate")

        def row(i):
            x = I.seq_at(r, i)
            U.prove(integer(I.length(x)) == ADS.n, "one column per adsorbate")
            U.forall(ADS.n, lambda j: real(I.getitem(x, j)) == der(i, j), "derivative of row by column")
        U.each(ADS.n, row)

    def jac(U):
        slv, o = sym_solver(U)
        rows(U, U.method(slv, "analytical_jacobian_sym"))
    P.unit(SS_ + "analytical_jacobian_sym", jac, con, dict(EXT, **{
        "sympy.Derivative": Builtin(deriv, "Derivative")}),
           expect=["one row per adsorbate", "one column per adsorbate", "derivative of row by column"])

    con = dict(con)
    con[SS_ + "analytical_jacobian_sym"] = lambda I, self, a, k: I.new(SList(GSeq(
        ADS.n, lambda i: I.new(SList(GSeq(ADS.n, lambda j, i=i: der(integer(i), integer(j)), "row", open_=False))),
        "rows", open_=False)))

    def num(U):
        I = U.I
        slv, o = sym_solver(U)
        given[0] = coverages(I)
        r = U.method(slv, "analytical_jacobian_by_sym", [given[0]])
        U.prove(z3.And(integer(r.rows) == ADS.n, integer(r.cols) == ADS.n), "square")
        U.each(ADS.n, lambda i: U.forall(ADS.n, lambda j: real(I.mat_read(r, i, j)) == der(i, j),
                                         "values of the entries"))
    P.unit(SS_ + "analytical_jacobian_by_sym", num, con, EXT, expect=["square", "values of the entries"])


PROPS = {"C34": c34}
