"""Contracts on the analytical Jacobian (C14).

A rate is a product k*x_1**n_1*...*x_m**n_m.  Its derivative by a coverage is the sum over
the factors that depend on it: an adsorbate on itself with 1, the free sites of the type of
the adsorbate with -1.  No species is written twice in one state, so at most one factor is
the adsorbate and at most one its site."""
import z3

import net
from net import *             # noqa
import terms as T
from terms import real, integer, fresh_index, lit, make_fold
from values import *          # noqa
from values import subst
from session import Unsupported
from interp import PyRaise
import ropeexec
import sampled
import specs_rates as R
from specs_rates import (SS, solver, classified, theta, on_site, rate_scope, rate_env, code, klists, c_t2d,
                         rate_solver, coverages, energies, forward, reverse, change, value, c_constants,
                         mass_action)

jb = z3.Int("jb")
INST = [("CO_s", "s"), ("H2O2_bb", "bb"), ("C-CO2_t", "t"), ("s_s", "s"), ("H_x", "x"), ("NH3_top", "top")]


def other_factors(k, first):
    """Factors without theta of the adsorbate and of its site, with names that look like them."""
    b, s = INST[k]
    names = [[], ["theta['O%s']**2" % b], ["theta['%s%s']" % (b, s), "theta['*_%sx']" % s, "p['%sH_g']" % b[:-1]],
             ["theta['*_x%s']**3" % s, "theta['%sH_%s']" % (b, s)], ["p['C_g']", "p['O2_g']**12"],
             ["c['H2O_l']**2", "theta['*_%s%s']" % (s, s)]][k]
    pre = ["kf[0]", "2*kr[11]", "kf[3]", "3*kf[2]", "kf[17]", "kr[5]"][k]
    return "*".join(([pre] if first else []) + (names or ([] if first else ["p['H2_g']"])))


def name_word(which):
    def word(k, p):
        if p.arg(0).get_id() != (jb if which == 0 else ADS.name(jb)).get_id():
            raise Unsupported("search for another name")
        return INST[k][which]
    return word


def others(value, first=False):
    return Code(value, "mul", rate_scope, lambda k: other_factors(k, first))


def power(x, n):
    """Derivative of x**n by x."""
    return real(n)*T.Pow(x, real(n) - 1)


def term_unit(P, con):
    P.assumption("names of adsorbates and sites hold letters, digits, '-' and '_' only")

    def unit(U, has_b, has_t):
        I, s = U.I, U.s
        sampled.NAMES.update({"nameads": name_word(0), "siteof": name_word(1)})
        slv, o = rate_solver(U)
        s.assume(z3.And(jb >= 0, jb < ADS.n))
        b, site = ADS.name(jb), rope("*_", siteof(ADS.name(jb)))
        t = as_S(site)
        s.assume(SITES.has(t))
        s.assume(theta(t) == total(t) + on_site(t, lambda j: -theta(ADS.name(j))))
        A, M, Z = z3.Reals("before between after")
        seq = [(others(A, True), A)]
        spec = []

        def factor(x, tag):
            n = z3.Int("n_" + tag)
            if s.choose(2):
                s.assume(n >= 2)
                return (rope("theta['", x, "']**", n), T.Pow(theta(as_S(x)), real(n)), power(theta(as_S(x)), n))
            return rope("theta['", x, "']"), theta(as_S(x)), z3.RealVal(1)
        xs = []
        if has_b:
            xs.append((factor(b, "b"), 1))
        if has_t:
            xs.append((factor(site, "t"), -1))
        if len(xs) == 2 and s.choose(2):
            xs.reverse()
        for k, (f, sg) in enumerate(xs):
            if k == 1 and s.choose(2):
                seq.append((others(M), M))
            spec.append((len(seq), f[2], sg))
            seq.append((f[0], f[1]))
        if s.choose(2):
            seq.append((others(Z), Z))
        text = []
        for x, _ in seq:
            text += ["*", x] if text else [x]
        d = z3.RealVal(0)
        for at, df, sg in spec:
            p = df*sg
            for k, (_, v) in enumerate(seq):
                if k != at:
                    p = p*v
            d = d + p
        r = U.method(slv, "_SteadyStateSolver__total_term_adsorbate_derivation", [b, rope(*text)])
        two = has_b and has_t
        v, prec = ropeexec.expression(I, r, rate_env(I), signed=True)
        U.prove(real(v) == d, "derivative of the term")
        plus = plus_inside(r)
        U.prove(z3.BoolVal(plus == two), "a sum exactly when adsorbate and site are in the term")
        if not two and prec != "mul":
            U.fail("a single product otherwise", "a sum")
        else:
            U.prove(z3.BoolVal(True), "a single product otherwise")
    for hb in (True, False):
        for ht in (True, False):
            P.unit("SteadyStateSolver.__total_term_adsorbate_derivation(%s, %s)" % (
                "adsorbate" if hb else "no adsorbate", "site" if ht else "no site"),
                lambda U, hb=hb, ht=ht: unit(U, hb, ht), con, sampled.externals(),
                expect=["derivative of the term", "a sum exactly when adsorbate and site are in the term"])

    def zero(U):
        slv, o = rate_solver(U)
        sampled.NAMES.update({"nameads": name_word(0), "siteof": name_word(1)})
        U.s.assume(z3.And(jb >= 0, jb < ADS.n))
        r = U.method(slv, "_SteadyStateSolver__total_term_adsorbate_derivation",
                     [ADS.name(jb), rope(Code(z3.RealVal(0), "mul", rate_scope, lambda k: "0.0"))])
        v, prec = ropeexec.expression(U.I, r, rate_env(U.I))
        U.prove(real(v) == 0, "no reaction changes the adsorbate")
        U.prove(z3.BoolVal(prec == "mul" and not plus_inside(r)), "a single product")
    P.unit("SteadyStateSolver.__total_term_adsorbate_derivation(0.0)", zero, con, sampled.externals(),
           expect=["no reaction changes the adsorbate"])


def plus_inside(r):
    """Is ' + ' in the text?"""
    out = False
    for p in parts_of(r):
        if isinstance(p, str):
            out = out or " + " in p
        elif isinstance(p, FoldPart):
            if any(plus_inside(x) for _, x in p.cases):
                raise Unsupported("text of the derivative")
    return out


# ------------------------------------------------------------------ one equation
# Equation i is  "dtheta_dt[i] = F - R + F - R ...", a forward and a reverse term for each of the
# nact(i) reactions that change adsorbate i, or "dtheta_dt[i] = 0.0" (contract of
# get_dtheta_dt_expressions); dterm(i, q, j): derivative of its q-th term by coverage j.
nact = z3.Function("nact", I_, I_)
dterm = z3.Function("dterm", I_, I_, I_, R_)
two = z3.Function("two_factors", I_, I_, I_, B_)
termid = z3.Function("termid", I_, I_, S)


def term(i, q):
    return rope(Code(z3.RealVal(0), "mul", never, lambda k: other_factors(k, True), termid(i, q)))


def never(I, env):
    raise Unsupported("evaluation of a term by itself")


def sign(q):
    return z3.If(q % 2 == 0, z3.RealVal(1), z3.RealVal(-1))


def tokens(I, i):
    """Pieces of the equation between blanks."""
    head = (rope("dtheta_dt[", i, "]"), "=")
    if I.decide(nact(i) == 0):
        return I.lst(head + (rope(Code(z3.RealVal(0), "mul", never, lambda k: "0.0", lit("zero"))),))

    def at(x):
        x = integer(x)
        for start, f in ((2, lambda q: term(i, q)),
                         (3, lambda q: z3.If(q % 2 == 0, lit("-"), lit("+")))):
            y = z3.simplify(x - start)
            q = half(y)
            if q is not None:
                return f(q)
        raise Unsupported("piece of the equation")
    return I.lst(catseq(head, GSeq(4*nact(i) - 1, lambda x: at(x + 2), "pieces")))


def half(y):
    """y/2 when y is written as an even number."""
    if z3.is_int_value(y):
        return z3.IntVal(y.as_long()//2) if y.as_long() % 2 == 0 else None
    if z3.is_mul(y) and y.num_args() == 2 and z3.is_int_value(y.arg(0)) and y.arg(0).as_long() == 2:
        return y.arg(1)
    if z3.is_add(y):
        hs = [half(c) for c in y.children()]
        return z3.Sum(hs) if all(h is not None for h in hs) else None
    return None


POLY = Spec("equation", methods={"split": lambda I, o, a, k: tokens(I, o.data[0]) if not a and not k else bad()})


def bad():
    raise Unsupported("split")


def c_total(I, self, a, k):
    """Contract of __total_term_adsorbate_derivation (term_unit)."""
    v = dict(zip(("adsorbate_name", "term_expression"), a))
    v.update(k)
    b, t = as_S(v["adsorbate_name"]), parts_of(v["term_expression"])
    if b.get_id() != ADS.name(jb).get_id() or len(t) != 1 or not isinstance(t[0], Code) or t[0].key is None:
        raise Unsupported("derivative of another text")
    key = t[0].key
    if key.get_id() == lit("zero").get_id():
        return rope(Code(z3.RealVal(0), "mul", rate_scope, lambda k: "0"))
    if key.decl().name() != "termid":
        raise Unsupported("derivative of another text")
    d = dterm(key.arg(0), key.arg(1), jb)
    if I.decide(two(key.arg(0), key.arg(1), jb)):
        return rope(Code(d, "add", rate_scope, lambda k: "1*x + -y*z"))
    return rope(Code(d, "mul", rate_scope, lambda k: ("0", "-kf[0]*x", "kf[1]*x", "-kf[0]*(1.0 - y)")[k % 4]))


def equation_unit(P, con):
    con = dict(con)
    con["SteadyStateSolver.__total_term_adsorbate_derivation"] = c_total

    def poly(U):
        I, s = U.I, U.s
        slv, o = rate_solver(U)
        i = z3.Int("i0")
        s.assume(z3.And(i >= 0, i < ADS.n, jb >= 0, jb < ADS.n, nact(i) >= 0))
        r = U.method(slv, "poly_adsorbate_derivation", [ADS.name(jb), Opq(POLY, None, (i,))])
        v, prec = ropeexec.expression(I, r, rate_env(I), signed=True)
        if I.decide(nact(i) == 0):
            U.prove(real(v) == 0, "zero when no reaction changes the adsorbate")
            return
        q, n = fresh_index("q"), 2*nact(i) - 1
        U.prove(real(v) == make_fold("sum", n, q, sign(q)*dterm(i, q, jb)) + sign(n)*dterm(i, n, jb),
                "derivatives of the forward terms minus those of the reverse terms")
    P.unit("SteadyStateSolver.poly_adsorbate_derivation", poly, con,
           expect=["zero when no reaction changes the adsorbate",
                   "derivatives of the forward terms minus those of the reverse terms"])


# ------------------------------------------------------------------ the matrix
entry = z3.Function("jacobian", I_, I_, R_)      # the value of equation_unit


def c_poly(I, self, a, k):
    v = dict(zip(("adsorbate_name", "poly_expression"), a))
    v.update(k)
    e, b = v["poly_expression"], as_S(v["adsorbate_name"])
    if not isinstance(e, Opq) or e.spec is not POLY or not I.s.valid(ADS.has(b))[0]:
        raise Unsupported("derivative of another equation")
    return code(entry(integer(e.data[0]), z3.simplify(ADS.idx(b)) if b.decl().name() != "nameads" else b.arg(0)),
                "add")


def matrix_unit(P, con):
    con = dict(con)
    con["SteadyStateSolver.get_dtheta_dt_expressions"] = lambda I, self, a, k: I.new(SList(
        GSeq(ADS.n, lambda i: Opq(POLY, None, (integer(i),)), "equations", open_=False)))
    con["SteadyStateSolver.poly_adsorbate_derivation"] = c_poly
    con["MeanFieldSolver._cvg_tuple2dict"] = c_cvgs
    given = [None]
    con["MeanFieldSolver.get_rate_constants"] = c_constants(given)

    def jac(U, own):
        I = U.I
        given[0] = None if own else energies(I)
        slv, o = rate_solver(U)
        J = U.method(slv, "analytical_jacobian", [coverages(I)] + ([] if own else [given[0]]))
        U.prove(z3.And(integer(J.rows) == ADS.n, integer(J.cols) == ADS.n), "one row and column per adsorbate")
        U.forall(ADS.n, lambda i: z3.Implies(z3.And(jb >= 0, jb < ADS.n), real(I.mat_read(J, i, jb)) == entry(i, jb)),
                 "the derivative of the equation by the coverage")
    for own in (True, False):
        P.unit("SteadyStateSolver.analytical_jacobian(%s energies)" % ("own" if own else "given"),
               lambda U, own=own: jac(U, own), con,
               expect=["one row and column per adsorbate", "the derivative of the equation by the coverage"])

    def wrong(U):
        I = U.I
        given[0] = None
        slv, o = rate_solver(U)
        n = z3.Int("given_n")
        U.s.assume(z3.And(n >= 0, n != ADS.n))
        l = SList(GSeq(n, lambda j: cov_(integer(j)), "cvgs", open_=False))
        l.frozen = l.is_tuple = True
        try:
            U.method(slv, "analytical_jacobian", [l])
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "ParameterError"), "another number of coverages is rejected")
            return
        U.fail("another number of coverages is rejected", "accepted")
    P.unit("SteadyStateSolver.analytical_jacobian(other number of coverages)", wrong, con,
           expect=["another number of coverages is rejected"])


cov_ = z3.Function("given_cov", I_, R_)


def c_cvgs(I, self, a, k):
    if not isinstance(a[0], SList) or not I.s.valid(integer(I.length(a[0])) == ADS.n)[0]:
        raise Unsupported("coverages of another number")
    return c_t2d(I, self, a, k)


# ------------------------------------------------------------------ the text of the equations
i0, k0, j0 = z3.Int("i0"), z3.Int("k0"), z3.Int("j0")


def same_parts(I, text, want):
    """Is the text made of these parts?"""
    a, b = list(parts_of(text)), list(parts_of(rope(*want)))
    if any(isinstance(p, Code) for p in a + b):
        if len(a) != len(b):
            return z3.BoolVal(False)
        out = []
        for x, y in zip(a, b):
            if isinstance(x, Code) or isinstance(y, Code):
                if not (isinstance(x, Code) and isinstance(y, Code)):
                    return z3.BoolVal(False)
                out.append(x.key == y.key)
            else:
                out.append(as_bool(I.eq(rope(x), rope(y))))
        return z3.And(*out)
    return as_bool(I.eq(rope(*a), rope(*b)))


def as_bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def product_unit(P, con):
    def unit(U):
        """k and a factor for every formula of the state, in order."""
        I, s = U.I, U.s
        slv, o = rate_solver(U)
        s.assume(z3.And(i0 >= 0, i0 < NR))
        r = I.unpack(U.method(slv, "get_elementary_rate_expression", [rx(i0)]), 2)
        for x, k, st in zip(r, ("kf[", "kr["), (z3.IntVal(0), nst(i0) - 1)):
            ps = parts_of(x)
            if len(ps) < 2 or not isinstance(ps[-1], FoldPart) or ps[-1].sep:
                raise Unsupported("text of a rate")
            f = ps[-1]
            U.prove(same_parts(I, rope(*ps[:-1]), [k, i0, "]"]), "the constant of the reaction")
            U.prove(integer(f.n) == nf(i0, st), "one factor for every formula of the state")

            def one(q, f=f, st=st):
                for c, t in f.cases:
                    if c is True or I.decide(subst(c, [(f.var, q)])):
                        t = subst(t, [(f.var, q)])
                        break
                else:
                    U.fail("factor of a formula", "no text")
                    return
                n = ss(i0, st, q)
                kind = "p" if I.decide(z3.And(z3.Not(contains_star(n)), siteof(n) == lit("g"))) else \
                    "c" if I.decide(z3.And(z3.Not(contains_star(n)), siteof(n) == lit("l"))) else "theta"
                want = ["*%s['" % kind, n, "']"]
                if not I.decide(stoich(i0, st, q) == 1):
                    want += ["**", stoich(i0, st, q)]
                U.prove(same_parts(I, t, want), "factor of a formula")
            U.each(nf(i0, st), one)
    P.unit("MeanFieldSolver.get_elementary_rate_expression", unit, con,
           expect=["the constant of the reaction", "one factor for every formula of the state",
                   "factor of a formula"])


ratetext = z3.Function("ratetext", I_, I_, S)        # forward (0) and reverse (1)
difftext = z3.Function("difftext", I_, I_, S)
eqtext = z3.Function("eqtext", I_, S)


def c_rate_text(I, self, a, k):
    i = net.index_of_text(I, a[0] if a else k["rxn_expression"])
    return tuple(rope(Code(v, "mul", rate_scope, None, ratetext(i, z3.IntVal(d))))
                 for d, v in ((0, forward(i)), (1, reverse(i))))


def difference_unit(P, con):
    con = dict(con)
    con["MeanFieldSolver.get_elementary_rate_expression"] = c_rate_text

    def unit(U):
        """[n*]first - [n*]second: the rate that makes the adsorbate first."""
        I, s = U.I, U.s
        slv, o = rate_solver(U)
        s.assume(z3.And(i0 >= 0, i0 < NR, j0 >= 0, j0 < ADS.n))
        b = ADS.name(j0)
        r = U.method(slv, "get_elementary_dtheta_dt_expression", [b, rx(i0)])
        d = change(i0, b)
        if r is None:
            U.prove(d == 0, "no term only when the adsorbate does not change")
            return
        U.prove(d != 0, "terms only when the adsorbate changes")
        made = I.decide(d > 0)
        fr = [Code(z3.RealVal(0), "mul", rate_scope, None, ratetext(i0, z3.IntVal(x))) for x in ((0, 1) if made else (1, 0))]
        ps = parts_of(r)
        n = None
        if len(ps) == 3:
            want = [fr[0], " - ", fr[1]]
            U.prove(z3.Or(d == 1, d == -1), "coefficient of the adsorbate")
        else:
            if not (T.is_z3(ps[0]) and ps[0].sort() in (I_, R_)):
                raise Unsupported("text of a term")
            n = ps[0]
            want = [n, "*", fr[0], " - ", n, "*", fr[1]]
            U.prove(real(n) == z3.If(d > 0, d, -d), "coefficient of the adsorbate")
        U.prove(same_parts(I, r, want), "the rate that makes the adsorbate minus the other one")
    P.unit("SteadyStateSolver.get_elementary_dtheta_dt_expression", unit, con,
           expect=["no term only when the adsorbate does not change", "terms only when the adsorbate changes",
                   "coefficient of the adsorbate", "the rate that makes the adsorbate minus the other one"])


def c_difference(I, self, a, k):
    v = dict(zip(("adsorbate_name", "rxn_expression"), a))
    v.update(k)
    b = as_S(v["adsorbate_name"])
    if not I.s.valid(ADS.has(b))[0]:
        raise Unsupported("name that may not be an adsorbate")
    i = net.index_of_text(I, v["rxn_expression"])
    if I.decide(change(i, b) == 0):
        return None
    return rope(Code(z3.RealVal(0), "add", rate_scope, None, difftext(i, ADS.idx(b))))


def sum_unit(P, con):
    con = dict(con)
    con["SteadyStateSolver.get_elementary_dtheta_dt_expression"] = c_difference

    def unit(U):
        I, s = U.I, U.s
        slv, o = rate_solver(U)
        s.assume(z3.And(j0 >= 0, j0 < ADS.n))
        r = U.method(slv, "get_adsorbate_dtheta_dt_expression", [ADS.name(j0)])
        none = lambda i: z3.Implies(z3.And(i >= 0, i < NR), change(i, ADS.name(j0)) == 0)
        if isinstance(r, str):
            U.prove(z3.BoolVal(r == "0.0"), "0.0 without reactions")
            U.forall(NR, none, "0.0 only without reactions")
            return
        q = fresh_index("q")
        U.prove(make_fold("sum", NR, q, z3.If(change(q, ADS.name(j0)) == 0, z3.RealVal(0), z3.RealVal(1))) > 0,
                "reactions otherwise")
        ps = parts_of(r)
        f = ps[0]
        if len(ps) != 1 or not isinstance(f, FoldPart) or not getattr(f, "joined", False):
            raise Unsupported("text of an equation")
        U.prove(z3.And(z3.BoolVal(f.sep == " + "), integer(f.n) == NR), "joined by plus signs in order")

        def one(i):
            if I.decide(change(i, ADS.name(j0)) == 0):
                for c, t in f.cases:
                    U.prove(z3.BoolVal(False) if c is True else z3.Not(subst(c, [(f.var, i)])),
                            "no term when the adsorbate does not change")
                return
            for c, t in f.cases:
                if c is True or I.decide(subst(c, [(f.var, i)])):
                    U.prove(same_parts(I, subst(t, [(f.var, i)]), [
                        Code(z3.RealVal(0), "add", rate_scope, None, difftext(i, j0))]), "terms of the reaction")
                    return
            U.fail("terms of the reaction", "no text")
        U.each(NR, one)
    P.unit("SteadyStateSolver.get_adsorbate_dtheta_dt_expression", unit, con,
           expect=["0.0 without reactions", "0.0 only without reactions", "reactions otherwise",
                   "joined by plus signs in order", "no term when the adsorbate does not change",
                   "terms of the reaction"])

    con2 = dict(con)
    con2["SteadyStateSolver.get_adsorbate_dtheta_dt_expression"] = lambda I, self, a, k: rope(Code(
        z3.RealVal(0), "add", rate_scope, None, eqtext(ADS.idx(as_S(a[0] if a else k["adsorbate_name"])))))

    def lines(U):
        I, s = U.I, U.s
        slv, o = rate_solver(U)
        r = U.method(slv, "get_dtheta_dt_expressions")
        U.prove(integer(I.length(r)) == ADS.n, "one equation per adsorbate")
        U.each(ADS.n, lambda i: U.prove(same_parts(I, I.seq_at(r, i), [
            "dtheta_dt[", i, "] = ", Code(z3.RealVal(0), "add", rate_scope, None, eqtext(i))]), "its left hand side"))
    P.unit("SteadyStateSolver.get_dtheta_dt_expressions", lines, con2,
           expect=["one equation per adsorbate", "its left hand side"])


def c14(P):
    P.assumption("names of species contain no quote, backslash or line break")
    P.assumption("every species of an end state is in the list of its kind (C04); no species is written "
                 "twice in one state")
    P.assumption("str.split, join and re search generated text as CPython does on instances of it")
    con = net.contracts()
    term_unit(P, con)
    equation_unit(P, con)
    matrix_unit(P, con)
    product_unit(P, con)
    difference_unit(P, con)
    sum_unit(P, con)


PROPS = {"C14": c14}
