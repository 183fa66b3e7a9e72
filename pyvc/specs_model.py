"""Contracts on runs of a model: control analysis, reported results."""
import itertools

import z3

import net
from net import *             # noqa
import terms as T
from terms import S, lit, real, integer, make_fold, fresh_index
from values import *          # noqa
from session import Unsupported
from interp import is_num
from specs_rates import SS, solver, gaf, gar, dgf, energies
from builtins_model import LOGGER


def given(args, kwargs, *names):
    """Arguments of a call by name (None when left out)."""
    d = dict(zip(names, args))
    for k, v in kwargs.items():
        if k not in names:
            raise Unsupported("argument " + k)
        d[k] = v
    return [d.get(n) for n in names]


# ------------------------------------------------------------------ C33
def c33(P):
    P.assumption("the TOF and the changes of the rate constants are not zero, and every perturbed search converges")
    eps = z3.Real("epsilon")
    r0 = z3.Real("tof")
    r1 = z3.Function("tof_perturbed", I_, R_)
    k0 = z3.Function("kf", I_, R_)
    k1 = z3.Function("kf_perturbed", I_, I_, R_)
    T.INDEXED["tof_perturbed"] = 0
    gas = z3.Const("gas", T.S)
    cvgs = Spec("coverages")
    start = Opq(cvgs, z3.IntVal(-1))

    def is_cvgs(c):
        return isinstance(c, Opq) and c.spec is cvgs

    def is_start(I, c):
        return is_cvgs(c) and I.s.valid(c.term == -1)[0]

    def perturbed(I, E):
        """None when E are the energies given; otherwise the index of the reaction whose
        barriers are raised by the perturbation."""
        lists = [I.getitem(E, key) for key in ("Gaf", "Gar", "dG")]
        at = [L.key[0] for l in lists if isinstance(l, SList) for L in l.layers]
        j = fresh_index("j")
        for cand in [None] + at[:2]:
            def same(l, f, change):
                x = real(I.getitem(l, j))
                return x == f(j) + (z3.If(j == integer(cand), eps, 0) if change and cand is not None else 0)
            goal = z3.And([integer(I.length(l)) == NR for l in lists] +
                          [I.s.under([j >= 0, j < NR], lambda l=l, f=f, c=c: same(l, f, c))
                           for l, f, c in zip(lists, (gaf, gar, dgf), (True, True, False))])
            if I.s.under([j >= 0, j < NR], lambda: I.s.valid(goal))[0]:
                return None if cand is None else integer(cand)
        raise Unsupported("energies that are neither the given nor the perturbed ones")

    def c_constants(I, self, a, k):
        E, log = given(a, k, "relative_energies", "log")
        if E is None:
            E = I.getattr(I.getattr(self, "_owner"), "relative_energies")
        at = perturbed(I, E)
        kf = (lambda i: k0(integer(i))) if at is None else (lambda i: k1(at, integer(i)))
        kr = z3.Function("kr", I_, I_, R_)
        lists = (GSeq(NR, kf), GSeq(NR, lambda i: kr(z3.IntVal(-1) if at is None else at, integer(i))))
        return tuple(I.lst(l) for l in lists)

    def c_search(I, self, a, k):
        c0, single, E = given(a, k, "c0", "single_pt", "relative_energies")
        at = perturbed(I, E)
        if at is None:
            raise Unsupported("search with the energies given")
        if not is_start(I, c0):
            raise Unsupported("search from other coverages")
        r = Opq(cvgs, at)
        I.set_attr(self, "_coverages", r)
        return r

    def c_tof(I, self, a, k):
        c, E, g = given(a, k, "cvgs", "relative_energies", "gas_name")
        if E is None:
            E = I.getattr(I.getattr(self, "_owner"), "relative_energies")
        at = perturbed(I, E)
        if g is None or I.eq(g, gas) is not True:
            raise Unsupported("TOF of another gas")
        if at is None and is_start(I, c):
            return r0
        if is_cvgs(c) and at is not None and I.s.valid(c.term == at)[0]:
            return r1(at)
        raise Unsupported("TOF at coverages of other energies")
    con = {"SteadyStateSolver.get_rate_constants": c_constants,
           "MeanFieldSolver.get_rate_constants": c_constants,
           "SteadyStateSolver.get_steady_state_cvgs": c_search,
           "SteadyStateSolver.get_tof": c_tof, "MeanFieldSolver.get_tof": c_tof}

    def spec(i):
        return k0(i)/r0*((r1(i) - r0)/(k1(i, i) - k0(i)))

    def run(U, own, own_eps):
        I, s = U.I, U.s
        E = energies(I)
        slv, o = solver(I, SS, "SteadyStateSolver", dict(relative_energies=E, perturbation_size=eps),
                        {"_coverages": start})
        s.assume(r0 != 0)
        s.assume_all(lambda i: k1(i, i) != k0(i))
        kw = {}
        if not own:
            kw["relative_energies"] = E
        if not own_eps:
            kw["epsilon"] = eps
        r = U.method(slv, "get_single_XRC", [gas], kw)
        U.prove(integer(I.length(r)) == NR, "one entry per reaction")
        U.forall(NR, lambda i: real(I.getitem(r, i)) == spec(i), "perturbation formula of that reaction")
        U.forall(NR, lambda i: z3.And([real(I.getitem(I.getitem(E, key), i)) == f(i)
                                       for key, f in (("Gaf", gaf), ("Gar", gar), ("dG", dgf))]),
                 "the energies are unchanged")
        c = I.getattr(slv, "_coverages")
        U.prove(c.term == -1 if is_cvgs(c) else z3.BoolVal(False), "the converged coverages are unchanged")

    def early(U):
        I = U.I
        slv, o = solver(I, SS, "SteadyStateSolver", dict(relative_energies=energies(I), perturbation_size=eps))
        try:
            U.method(slv, "get_single_XRC", [gas], {})
        except PyRaise as e:
            U.prove(e.name == "AttributeError", "rejected before convergence")
            return
        U.fail("rejected before convergence", "accepted")
    for own in (True, False):
        for own_eps in (True, False):
            P.unit("SteadyStateSolver.get_single_XRC(%s energies, %s perturbation)" % (
                "own" if own else "given", "own" if own_eps else "given"),
                lambda U, own=own, e=own_eps: run(U, own, e), con,
                expect=["one entry per reaction", "perturbation formula of that reaction",
                        "the energies are unchanged", "the converged coverages are unchanged"])
    P.unit("SteadyStateSolver.get_single_XRC(no coverages)", early, con, expect=["rejected before convergence"])


# ------------------------------------------------------------------ C35
MM = "scaks/models/micro_kinetic_model.py"


def c35(P):
    P.assumption("searches, rates, TOFs and reversibilities are functions of the coverages and energies they are called with")
    cvgs, rates, ener = Spec("coverages"), Spec("rates"), Spec("energies", truth=lambda I, o: True)
    tofs, revs, errs = Spec("TOFs"), Spec("reversibilities"), Spec("error")
    nads = z3.Int("n_adsorbates")
    own_E, given_E = Opq(ener, z3.IntVal(0)), Opq(ener, z3.IntVal(1))
    C = z3.DeclareSort("Coverages")
    none = z3.Const("no_guess", C)
    f = {k: z3.Function(k, C, I_, C) for k in ("coarse", "search", "fsolved")}
    eid = {k: z3.Function(k + "_error", C, I_, C) for k in ("search",)}
    frates = z3.Function("rates_at", C, I_, I_, C)
    ftof, frev = z3.Function("tof_at", C, I_, C), z3.Function("rev_of", C, C, C)

    def energy(E):
        """Index of the energies in use."""
        if E is None:
            return z3.IntVal(0)
        if isinstance(E, Opq) and E.spec is ener:
            return E.term
        raise Unsupported("energies %r" % (E,))

    def at(c):
        if c is None:
            return none
        if isinstance(c, Opq) and c.spec is cvgs:
            return c.term
        raise Unsupported("coverages %r" % (c,))

    def find(kind, remember):
        def contract(I, self, a, k):
            if kind == "search":
                c0, single, E = given(a, k, "c0", "single_pt", "relative_energies")
            else:
                c0, E = given(a, k, "c0", "relative_energies")
            start.append(kind)
            r = Opq(cvgs, f[kind](at(c0), energy(E)))
            if remember:
                I.set_attr(self, "_coverages", r)
                I.set_attr(self, "_error", Opq(errs, eid["search"](at(c0), energy(E))))
            return r
        return contract
    start = []

    def c_ode(I, self, a, k):
        start.append("ode")
        return I.lst(tuple(Opq(cvgs, z3.Const("ode_point_%d" % i, C)) for i in range(3)))

    def c_constants(I, self, a, k):
        E, log = given(a, k, "relative_energies", "log")
        energy(E)
        return (Opq(Spec("rate constants")), Opq(Spec("rate constants")))

    def c_rates(I, self, a, k):
        c, E, log = given(a, k, "cvgs_tuple", "relative_energies", "log")
        return tuple(Opq(rates, frates(at(c), energy(E), z3.IntVal(d))) for d in (0, 1))

    def c_tof(I, self, a, k):
        c, E, g = given(a, k, "cvgs", "relative_energies", "gas_name")
        if g is not None:
            raise Unsupported("TOF of one gas")
        return Opq(tofs, ftof(at(c), energy(E)))

    def c_rev(I, self, a, k):
        rf, rr = given(a, k, "rfs", "rrs")
        return Opq(revs, frev(rf.term, rr.term))

    def c_xrc(I, self, a, k):
        # searches with perturbed energies go on; the coverages stay (C33)
        I.set_attr(self, "_error", Opq(errs, z3.Const("error_of_perturbed_search", C)))
        return Opq(Spec("XRC"))
    con = {}
    for cl in ("SteadyStateSolver", "MeanFieldSolver"):
        con.update({cl + ".get_rate_constants": c_constants, cl + ".get_rates": c_rates,
                    cl + ".get_tof": c_tof, cl + ".get_reversibilities": c_rev,
                    cl + ".solve_ode": c_ode, cl + ".get_single_XRC": c_xrc,
                    cl + ".coarse_steady_state_cvgs": find("coarse", False),
                    cl + ".fsolve_steady_state_cvgs": find("fsolved", False),
                    cl + ".get_steady_state_cvgs": find("search", True)})
    def archive(I, a, k):
        d = I.new(SDict())
        if I.test(z3.Bool("coverages_archived")):
            I.dict_set(d, "steady_state_coverage", archived)
        return d
    archived = Opq(cvgs, z3.Const("archived", C))

    def model(U):
        I = U.I
        start.clear()
        I.s.assume(nads >= 1)
        slv = I.obj(net.cls(SS, "SteadyStateSolver"), {"_error": Opq(errs, z3.Const("old_error", C)),
                                                       "_coverages": Opq(cvgs, z3.Const("old_coverages", C))})
        old = z3.Const("old", C)
        m = I.obj(net.cls(MM, "MicroKineticModel"), {
            "solver": slv, "_logger": LOGGER, "relative_energies": own_E, "data_file": "data.pkl",
            "adsorbate_names": I.lst(GSeq(nads, lambda i: z3.Function("adsorbate_name", I_, T.S)(integer(i)))),
            "_MicroKineticModel__ss_cvgs": Opq(cvgs, old), "_MicroKineticModel__tofs": Opq(tofs, old),
            "_MicroKineticModel__reversibilities": Opq(revs, old), "_MicroKineticModel__error": Opq(errs, old)})
        return m, slv

    def guess(types, n):
        # a value of the given types and length; whatever its type, it may be falsy when empty
        sp = Spec("coverages", types=types, length=lambda I, o: n, truth=lambda I, o: n > 0)
        return sp
    cvgs_in = {}

    def at(c):
        if c is None:
            return none
        if isinstance(c, Opq) and (c.spec is cvgs or c.spec.name == "coverages" and c.term is not None):
            return c.term
        raise Unsupported("coverages %r" % (c,))

    def reject(U, types, wrong_length):
        I, s = U.I, U.s
        m, slv = model(U)
        n = z3.Int("n_given")
        s.assume(n >= 0)
        if wrong_length:
            s.assume(n != nads)
        kw = {"init_cvgs": Opq(guess(types, n), z3.Const("given_coverages", C))}
        for k in ("fsolve", "coarse_guess"):
            kw[k] = z3.Bool(k)
        try:
            U.method(m, "run", [], kw)
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "ParameterError"), "rejected with ParameterError")
            U.prove(z3.BoolVal(not start), "before anything is solved")
            return
        U.fail("rejected with ParameterError", "accepted")

    def run(U, E, flags):
        I, s = U.I, U.s
        m, slv = model(U)
        init = None
        if flags["init"]:
            init = Opq(guess(("list",), nads), z3.Const("given_coverages", C))
        kw = {}
        if flags["init"]:
            kw["init_cvgs"] = init
        if E is not None:
            kw["relative_energies"] = E
        for k in ("fsolve", "coarse_guess", "XRC"):
            if flags[k] is not None:
                kw[k] = flags[k]
        if flags["XRC"]:
            kw["product_name"] = z3.Const("product", T.S)
        U.method(m, "run", [], kw)
        e = energy(E)
        c = I.getattr(m, "steady_state_coverages")
        if not (isinstance(c, Opq) and c.spec is cvgs):
            U.fail("coverages of a search", repr(c))
            return
        found = start[-1]
        U.prove(z3.BoolVal(found in f), "coverages of a search")
        # the coverages are the result of the last search with the energies in use
        U.prove(z3.And(c.term.decl().eq(f[found]), c.term.arg(1) == e) if c.term.num_args() == 2
                else z3.BoolVal(False), "the coverages are steady for the energies in use")
        t, r, err = (I.getattr(m, k) for k in ("TOFs", "reversibilities", "error"))

        def token(v, spec, term, label):
            U.prove(v.term == term if isinstance(v, Opq) and v.spec is spec else z3.BoolVal(False), label)
        token(t, tofs, ftof(c.term, e), "TOFs of these coverages and energies")
        token(r, revs, frev(frates(c.term, e, z3.IntVal(0)), frates(c.term, e, z3.IntVal(1))),
              "reversibilities of these coverages and energies")
        if found == "search":
            token(err, errs, eid["search"](c.term.arg(0), e), "the error is that of the search")
        else:
            token(err, errs, z3.Const("old_error", C), "the error is that of the solver")
        token(I.getattr(slv, "coverages"), cvgs, c.term if found == "search" else z3.Const("old_coverages", C),
              "the solver keeps the coverages")
    ext = {"pickle.load": Builtin(archive, "pickle.load")}
    for types in (("list",), ("tuple",)):
        P.unit("MicroKineticModel.run(%s of a wrong length)" % types[0], lambda U, t=types: reject(U, t, True),
               con, ext, expect=["rejected with ParameterError", "before anything is solved"])
    P.unit("MicroKineticModel.run(coverages of a wrong type)", lambda U: reject(U, ("other",), False),
           con, ext, expect=["rejected with ParameterError", "before anything is solved"])
    for E, en in ((None, "own energies"), (given_E, "given energies")):
        for init in (False, True):
            for fs, cg, xrc in itertools.product((None, True), (None, False), (None, True)):
                flags = dict(init=init, fsolve=fs, coarse_guess=cg, XRC=xrc)
                nm = ", ".join([en] + [k for k, v in (("initial coverages", init), ("fsolve", fs),
                                                      ("no coarse guess", cg is False), ("XRC", xrc)) if v])
                P.unit("MicroKineticModel.run(%s)" % nm, lambda U, E=E, fl=flags: run(U, E, fl), con, ext,
                       expect=["coverages of a search", "the coverages are steady for the energies in use",
                               "TOFs of these coverages and energies",
                               "reversibilities of these coverages and energies",
                               "the error is that of the %s" % ("solver" if fs else "search")])

    def report(U):
        I = U.I
        m, slv = model(U)
        n, v = {}, {}
        for k in ("ss_cvgs", "tofs", "reversibilities"):
            n[k], v[k] = z3.Int("n_" + k), z3.Function(k, I_, R_)
            I.s.assume(n[k] >= 0)
            I.set_attr(m, "_MicroKineticModel__" + k, I.lst(GSeq(n[k], lambda i, k=k: v[k](integer(i)))))
        nm = lambda i: z3.Function("gas_name", I_, T.S)(integer(i))
        ng = z3.Int("n_gas")
        gas = I.lst(GSeq(ng, nm))
        I.s.assume(ng >= 0)
        I.set_attr(m, "gas_names", gas)
        I.set_attr(m, "rxn_expressions", I.lst(GSeq(NR, lambda i: z3.Function("expression", I_, T.S)(integer(i)))))
        info = I.getattr(m, "model_info")
        for k, key in (("ss_cvgs", "steady_state_coverages"), ("tofs", "TOFs"), ("reversibilities", "reversibilities")):
            l = I.getitem(info, key)
            U.prove(integer(I.length(l)) == n[k], key + " of the run")
            U.forall(n[k], lambda i: real(I.getitem(l, i)) == v[k](i), key + " of the run")
        for key, n_, f_ in (("gas_names", ng, nm), ("adsorbate_names", nads, None)):
            l = I.getitem(info, key)
            U.prove(integer(I.length(l)) == n_, key + " of the model")
            U.forall(n_, lambda i: I.eq(I.getitem(l, i), I.getitem(I.getattr(m, key), i)), key + " of the model")
    P.unit("MicroKineticModel.model_info", report, con, {}, expect=[
        "steady_state_coverages of the run", "TOFs of the run", "reversibilities of the run",
        "gas_names of the model", "adsorbate_names of the model"])


# ------------------------------------------------------------------ C17
RI = "scaks/solvers/rootfinding_iterators.py"


def c17(P):
    P.assumption("analysis plugins and the hybrid method leave the solver as it is; the hybrid "
                 "method gives one coverage per adsorbate")
    P.assumption("comparisons of residuals and coverages are exact (arbitrary-precision numbers)")
    C, D = z3.DeclareSort("Coverages"), z3.DeclareSort("Derivatives")
    NA = z3.Int("n_adsorbates")
    coord = z3.Function("coverage", C, I_, R_)
    dth = z3.Function("dtheta_dt", C, I_, D)
    resid = z3.Function("residual", C, I_, R_)
    norm = z3.Function("norm", D, R_)
    nonneg = z3.Function("nonnegative", C, z3.BoolSort())
    witness = z3.Function("negative_at", C, I_)
    steps = z3.Function("iterations", C, I_)
    tol, limit = z3.Real("tolerance"), z3.Int("max_iterations")
    cv = Spec("coverages", iterate=lambda I, o: GSeq(NA, lambda i: coord(o.term, integer(i))),
              length=lambda I, o: NA)
    dv = Spec("derivatives")
    ener = Spec("energies", truth=lambda I, o: True)

    def energy(E):
        if E is None:
            return z3.IntVal(0)
        if isinstance(E, Opq) and E.spec is ener:
            return E.term
        raise Unsupported("energies %r" % (E,))

    def point(c):
        if isinstance(c, Opq) and c.spec is cv:
            return c.term
        raise Unsupported("coverages %r" % (c,))

    def new_point(I):
        c = z3.Const(T.fresh_name("point"), C)
        I.s.assume_all(lambda i: z3.Implies(z3.And(nonneg(c), i >= 0, i < NA), coord(c, i) >= 0))
        I.s.assume(z3.Implies(z3.Not(nonneg(c)), z3.And(
            witness(c) >= 0, witness(c) < NA, coord(c, witness(c)) < 0)))
        return c

    fails = z3.Function("division_by_zero", C, I_, z3.BoolSort())

    def may_fail(I, sure=False):
        if sure or I.s.choose(2):
            raise PyRaise("ZeroDivisionError", "", ("ArithmeticError", "Exception", "BaseException"))

    def c_constrain(I, self, a, k):
        point(a[0])
        c = new_point(I)
        I.s.assume(z3.And(nonneg(c), steps(c) == 0))
        return Opq(cv, c)

    def c_function(I, self, a, k):
        c, E = given(a, k, "cvgs_tuple", "relative_energies")
        return Opq(dv, dth(point(c), energy(E)))

    def c_residual(I, self, a, k):
        c, E = given(a, k, "cvgs_tuple", "relative_energies")
        # the same point fails again or succeeds again
        if I.test(fails(point(c), energy(E))):
            may_fail(I, True)
        return resid(point(c), energy(E))

    def c_iterator(I, self, a, k):
        """Points with the norm of the given function there (units of the iterators)."""
        f, x0 = a[:2]
        point(x0)

        def item(I, o, a, k):
            may_fail(I)
            c = new_point(I)
            I.s.assume(steps(c) == integer(a[0]) + 1)
            x = Opq(cv, c)
            fx = I.call(f, [x])
            if not (isinstance(fx, Opq) and fx.spec is dv):
                raise Unsupported("function of the iterator")
            return (x, norm(fx.term), fx)
        return Opq(Spec("iterator", methods={"__stream__": item}))
    con = {"SteadyStateSolver.steady_state_function": c_function,
           "SteadyStateSolver.get_residual": c_residual,
           "SteadyStateSolver.__constrain_coverages": c_constrain,
           "SteadyStateSolver._SteadyStateSolver__constrain_coverages": c_constrain,
           "SteadyStateSolver.__log_sscvg": lambda I, self, a, k: None,
           "SteadyStateSolver.archive_data": lambda I, self, a, k: None,
           "ModelShell.archive_data": lambda I, self, a, k: None,
           "MDNewton": c_iterator, "ConstrainedNewton": c_iterator}

    def accepted(I, slv, e):
        c, err = I.getattr(slv, "_coverages"), I.getattr(slv, "_error")
        if not (isinstance(c, Opq) and c.spec is cv):
            raise Unsupported("coverages")
        c, err = c.term, real(err)
        return {"the residual is at most the tolerance": resid(c, e) <= tol,
                "no coverage is negative": nonneg(c),
                "not after the iteration limit": steps(c) <= limit,
                "the error is that of the coverages": z3.Or(err == norm(dth(c, e)), err == resid(c, e))}

    def run(U, kind, given_E, registered, start):
        I, s = U.I, U.s
        s.assume(z3.And(NA >= 1, tol > 0, limit >= 0))
        plug = Spec("plugin", methods={m: (lambda I, o, a, k: None) for m in ("setup", "register_step", "finalize")},
                    attrs={"interval": lambda I, o: z3.Int("interval")})
        s.assume(z3.Int("interval") >= 1)
        npl = z3.Int("n_plugins")
        s.assume(npl >= 0)

        def hybrid(I, a, k):
            return Opq(cv, z3.Const(T.fresh_name("guess"), C))
        owner = I.obj(None, {
            "log_allowed": True, "tolerance": tol, "rootfinding": kind,
            "max_rootfinding_iterations": limit, "adsorbate_names": Opq(Spec("names")),
            "hybrid_method": Builtin(hybrid, "hybrid_method") if registered else None,
            "analysis": I.lst(GSeq(npl, lambda i: Opq(plug, integer(i))))})
        slv = I.obj(net.cls(SS, "SteadyStateSolver"), {
            "_owner": owner, "_SteadyStateSolver__logger": LOGGER,
            "_coverages": Opq(cv, z3.Const("old_coverages", C)), "_error": z3.Real("old_error"),
            "_norm": Builtin(lambda I, a, k: norm(a[0].term), "norm"), "_mpf": Opq(Spec("mpf")),
            "_matrix": Opq(Spec("matrix")), "_Axb_solver": Opq(Spec("Axb"))})
        E = Opq(ener, z3.IntVal(1)) if given_E else None
        I.loop_predicates = {m: (lambda I, g, m=m: accepted(I, slv, energy(E))[m])
                             for m in accepted(I, slv, energy(E))}
        def about(f):
            return lambda v: f(v.term) if isinstance(v, Opq) and v.spec is cv else None
        I.loop_properties = [("not negative", about(nonneg)),
                             ("within the limit", about(lambda c: steps(c) <= limit))]
        c0 = Opq(cv, z3.Const("c0", C)) if start else None
        r = U.method(slv, "get_steady_state_cvgs", [], dict(
            c0=c0, single_pt=z3.Bool("single_pt"), relative_energies=E))
        if r is None:
            U.prove(z3.BoolVal(True), "or nothing is returned")
            return
        U.prove(r.term == I.getattr(slv, "_coverages").term if isinstance(r, Opq) and r.spec is cv
                else z3.BoolVal(False), "the coverages returned are those reported")
        for m, f in accepted(I, slv, energy(E)).items():
            U.prove(f, m)
    labels = ["the coverages returned are those reported", "the residual is at most the tolerance",
              "no coverage is negative", "not after the iteration limit", "the error is that of the coverages"]
    for kind, given_E, registered, start in (
            ("MDNewton", False, True, True), ("MDNewton", True, True, True),
            ("MDNewton", False, True, False), ("MDNewton", True, False, True),
            ("ConstrainedNewton", True, True, True), ("ConstrainedNewton", False, True, False)):
        P.unit("SteadyStateSolver.get_steady_state_cvgs(%s, %s energies%s%s)" % (
            kind, "given" if given_E else "own", "" if start else ", no initial coverages",
            "" if registered else ", no hybrid method"),
            lambda U, kind=kind, E=given_E, r=registered, st=start: run(U, kind, E, r, st), con,
            expect=labels)

    # the iterators: every point comes with the norm of the function there
    V = z3.DeclareSort("Vector")
    F, vnorm = z3.Function("f", V, D), z3.Function("norm", D, R_)

    def some(I, o, a, k):
        return Opq(vec, z3.Const(T.fresh_name("vector"), V))
    vec = Spec("vector", methods={"__op__": some, "__tuple__": lambda I, o, a, k: o},
               attrs={"cols": lambda I, o: z3.IntVal(1)}, types=("list",))
    fval = Spec("derivatives", methods={"__neg__": lambda I, o, a, k: Opq(vec, z3.Const(T.fresh_name("vector"), V))})

    def same(I, a, k):
        if not (isinstance(a[0], Opq) and a[0].spec in (vec, fval)):
            raise Unsupported("matrix of %r" % (a[0],))
        return a[0]

    def solve(I, a, k):
        may_fail(I)
        return some(I, None, a, k)

    def func(I, a, k):
        if not (isinstance(a[0], Opq) and a[0].spec is vec):
            raise Unsupported("function of %r" % (a[0],))
        return Opq(fval, F(a[0].term))

    def the_norm(I, a, k):
        return vnorm(a[0].term)
    ext = {"mpmath.matrix": Builtin(same, "matrix"), "mpmath.lu_solve": Builtin(solve, "lu_solve"),
           "mpmath.norm": Builtin(the_norm, "norm"),
           "scipy.optimize.golden": Builtin(lambda I, a, k: z3.Real(T.fresh_name("step")), "golden")}

    def iterate(U, kind):
        I = U.I
        x0 = Opq(vec, z3.Const("x0", V))
        f = Builtin(func, "f")
        J = Builtin(lambda I, a, k: Opq(Spec("Jacobian")), "J")
        kw = dict(J=J, verbose=z3.Bool("verbose"))
        if kind == "ConstrainedNewton":
            kw = dict(J=J, constraint=Builtin(lambda I, a, k: some(I, None, a, k)),
                      norm=Builtin(the_norm, "norm"), mpfloat=Builtin(lambda I, a, k: a[0], "mpf"),
                      matrix=Builtin(same, "matrix"), Axb_solver=Builtin(solve, "Axb"))
        it = I.obj(net.cls(RI, kind), {})
        U.method(it, "__init__", [f, x0], kw)
        I.loop_predicates = {}
        I.loop_relations = [("norm", lambda a, b: real(a) == vnorm(F(b.term)) if is_num(a) and isinstance(b, Opq)
                             and b.spec is vec else None)]

        def point_of(v):
            if not isinstance(v, tuple) or len(v) != 3 or not isinstance(v[0], Opq) or v[0].spec is not vec:
                U.fail("a point, its norm and its value", repr(v))
                return
            U.prove(real(v[1]) == vnorm(F(v[0].term)), "the norm is that of the function at the point")
        I.on_yield = point_of
        try:
            U.method(it, "__iter__", [])
        except PyRaise as e:
            # an iterator may give up
            U.prove(z3.BoolVal(e.name in ("ZeroDivisionError", "ValueError")), "only numeric failures")
    for kind in ("MDNewton", "ConstrainedNewton"):
        P.unit(kind + ".__iter__", lambda U, kind=kind: iterate(U, kind), {}, ext,
               expect=["the norm is that of the function at the point"])


PROPS = {"C17": c17, "C33": c33, "C35": c35}
