"""Contracts on helpers: splitting of work, masses, corrections, text output."""
import os
import sys

import z3

import net
from net import *             # noqa
import terms as T
from terms import S, lit, real, integer, make_fold, fresh_index
from values import *          # noqa
from builtins_model import LOGGER, PI
from specs_kmc import VClass_, chosen
import dyn

sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))

MPI_ = "scaks/mpicommons.py"


# ------------------------------------------------------------------ C25
def c25(P):
    P.assumption("the processes have ranks 0, ..., size-1 (MPI) and allgather returns the parts in rank order")
    size, rank, n = z3.Int("size"), z3.Int("rank"), z3.Int("n")
    el = z3.Function("element", I_, T.S)
    q, m = z3.Int("quotient"), z3.Int("remainder")

    def world(U, at=rank):
        s = U.s
        s.assume(z3.And(size >= 1, n >= 0, at >= 0, at < size))
        # n = size*q + m by division with remainder
        s.assume(z3.And(n == size*q + m, m >= 0, m < size, q >= 0))
        o = U.I.obj(net.cls(MPI_, "MPIUtil"), {"_logger": LOGGER, "size": size, "rank": at})
        return o

    def first(r):
        """Where the part of rank r starts."""
        return r*q + z3.If(r < m, r, m)

    def share(r):
        return q + z3.If(r < m, z3.IntVal(1), z3.IntVal(0))

    def lemma(U):
        world(U)
        U.prove(first(z3.IntVal(0)) == 0, "the first part starts at the front")
        U.prove(first(size) == n, "the last part ends at the end")
        U.prove(first(rank + 1) == first(rank) + share(rank), "parts follow each other")
        U.prove(z3.And(first(rank) >= 0, first(rank) + share(rank) <= n), "parts are inside")
        r2 = z3.Int("other_rank")
        U.prove(z3.And(share(rank) - share(r2) <= 1, share(r2) - share(rank) <= 1), "sizes differ by at most one")
    P.unit("parts of a sequence over the ranks", lemma, {})

    def split_seq(U):
        I = U.I
        o = world(U)
        U.s.assume(z3.And(first(rank) >= 0, first(rank) + share(rank) <= n))
        l = I.lst(GSeq(n, lambda i: el(integer(i))))
        r = U.method(o, "split_seq", [l])
        U.prove(integer(I.length(r)) == share(rank), "as many elements as its share")
        U.forall(share(rank), lambda k: I.eq(I.getitem(r, k), el(first(rank) + k)), "its elements in order")
    P.unit("MPIUtil.split_seq", split_seq, {},
           expect=["as many elements as its share", "its elements in order"])

    def split_size(U):
        o = world(U)
        r = U.method(o, "split_size", [n])
        U.prove(integer(r) == share(rank), "its share of the size")
    P.unit("MPIUtil.split_size", split_size, {}, expect=["its share of the size"])

    # merging: allgather gives the parts in rank order
    count = z3.Function("part_length", I_, I_)
    item = z3.Function("part_element", I_, I_, T.S)

    def part(r):
        return GSeq(count(r), lambda k: item(r, integer(k)))

    sent = []

    def allgather(I, a, k):
        sent.append(a[0])
        return I.lst(GSeq(size, lambda r: I.lst(part(integer(r)))))
    mpi = Namespace("MPI", {"COMM_WORLD": Namespace("comm", {"allgather": Builtin(allgather)})})

    def merge(U, alone):
        I, s = U.I, U.s
        s.assume(size == 1 if alone else size > 1)
        s.assume(z3.And(rank >= 0, rank < size))
        s.assume_all(lambda r: count(r) >= 0)
        mine = I.lst(part(rank))
        del sent[:]
        o = I.obj(net.cls(MPI_, "MPIUtil"), {"_logger": LOGGER, "size": size, "rank": rank})
        r = U.method(o, "merge_seq", [mine])
        segs = I.segments(r)
        if alone:
            U.prove(integer(I.length(r)) == count(rank), "every element of the only part")
            U.forall(count(rank), lambda k: I.eq(I.getitem(r, k), item(rank, k)), "in order")
            return
        U.prove(z3.BoolVal(len(sent) == 1 and sent[0] is mine), "its own part is sent")
        ok = len(segs) == 1 and isinstance(segs[0], FlatSeq) and len(segs[0].cases) == 1 and \
            segs[0].cases[0][0] is True
        U.prove(z3.BoolVal(ok), "the parts one after the other")
        if not ok:
            return
        U.prove(integer(segs[0].n) == size, "one part per rank")

        def its(r):
            return subst(segs[0].cases[0][1], [(segs[0].var, r)])
        U.forall(size, lambda r: integer(I.length(its(r))) == count(r), "each part in full, in rank order")
        r0 = z3.Int("r0")
        s.assume(z3.And(r0 >= 0, r0 < size))
        U.forall(count(r0), lambda k: I.eq(I.getitem(its(r0), k), item(r0, k)), "each part unchanged")
    for alone in (True, False):
        P.unit("MPIUtil.merge_seq(%s)" % ("one process" if alone else "several processes"),
               lambda U, alone=alone: merge(U, alone), {}, {"mpi4py.MPI": mpi})

    def own(U, installed):
        o = U.I.obj(net.cls(MPI_, "MPIUtil"), {"_logger": LOGGER})
        for what, there, alone in (("size", size, 1), ("rank", rank, 0)):
            U.prove(integer(U.method(o, what)) == (there if installed else alone), what)
    comm = Namespace("comm", {"Get_size": Builtin(lambda I, a, k: size),
                              "Get_rank": Builtin(lambda I, a, k: rank)})
    for installed in (True, False):
        P.unit("MPIUtil.size and rank %s mpi4py" % ("with" if installed else "without"),
               lambda U, installed=installed: own(U, installed), {},
               {"mpi4py.MPI": Namespace("MPI", {"COMM_WORLD": comm}), MPI_ + ":MPI_INSTALLED": installed})


# ------------------------------------------------------------------ C30
TC = "scaks/correctors/thermodynamic_corrector.py"
RXN = "scaks/parsers/rxn_parser.py"


def below_one(a):
    """exp of a negative number is below one."""
    return [z3.Implies(a.arg(0) < 0, a < 1)]


def formula_contract(I, self, args, kwargs):
    """A name 'species_site' without a coefficient (C01)."""
    t = args[0] if args else kwargs["formula"]
    o = VObj(net.cls(RXN, "ChemFormula"), {}, None)
    if isinstance(t, str):
        sp, site = t.rsplit("_", 1)
    else:
        t = as_S(t)
        sp, site = speciesof(t), siteof(t)
    o.attrs.update({"_ChemFormula__species_site": t, "_ChemFormula__formula": t,
                    "_ChemFormula__stoich": 1, "_ChemFormula__species": sp,
                    "_ChemFormula__site": site, "_ChemFormula__nsite": 1})
    return I.new(o)


def c30(P):
    import tables
    con = {"ChemFormula": formula_contract}
    P.assumption("temperature, pressure and mass are positive; the name of a gas is its species "
                 "and 'g' without a coefficient")
    T0, T1, p0, m0, m1 = (z3.Real(x) for x in ("T_model", "T_given", "p_given", "m_given", "m_species"))
    pr = z3.Function("pressure_of", S, R_)

    def world(U, mass_of):
        I, s = U.I, U.s
        s.schema("exp", below_one)
        s.assume(z3.And(T0 > 0, T1 > 0, p0 > 0, m0 > 0, m1 > 0))

        def mass(I, a, k):
            U.prove(I.eq(a[0], mass_of), "mass of the species")
            U.prove(z3.BoolVal(k == {"absolute": True} or list(a[1:]) == [True]), "absolute mass")
            return m1
        pressures = SDict(DictBase(lambda f: True if f == "pressure" else False,
                                   lambda f: pr(lit("this gas"))))
        defs = I.new(SDict(DictBase(lambda t: True, lambda t: pressures)))
        s.assume(pr(lit("this gas")) > 0)
        parser = I.obj(None, {"get_molecular_mass": Builtin(mass)})
        o = net.Owner(I, dict(temperature=T0, species_definitions=defs, parser=parser))
        return I.obj(net.cls(TC, "ThermodynamicCorrector"),
                     {"_owner": o.obj, "_ThermodynamicCorrector__logger": LOGGER})

    def shomate_is(U, gas, T, r):
        """r is the Shomate correction at T with the reference parameters."""
        s = U.s
        zero = z3.RealVal(0)
        for (g, lo, hi), row in tables.SHOMATE:
            if g != gas:
                continue
            A, B, C, D, E, F, G, H = (real(x) for x in row)

            def h(x):
                t = real(x)/1000
                return A*t + B*t*t/2 + C*t*t*t/3 + D*t*t*t*t/4 - E/t + F - H

            def en(x):
                t = real(x)/1000
                return A*T_.Log(t) + B*t + C*t*t/2 + D*t*t*t/3 - E/(2*t*t) + G

            def cp(x):
                t = real(x)/1000
                return A + B*t + C*t*t + D*t*t*t + E/(t*t)
            f = real(0.01036427)
            if s.decide(z3.And(T >= real(lo), T <= real(hi))):
                H1 = real(298.15)*cp(298.15)/1000 + h(T) - h(298.15)
                U.prove(r == (H1 - T*en(T)/1000)*f, "the formula in the range of T")
                return
            if lo < 300 and s.decide(T < real(lo)):
                U.prove(r == (T*cp(lo)/1000 - T*en(lo)/1000)*f, "the extrapolation below a range")
                return
        U.prove(r == zero, "zero without parameters")

    T_ = T

    def shomate(U, gas, args, kwargs, at):
        c = world(U, gas)
        r = real(U.method(c, "shomate_correction", [gas] + args, kwargs))
        shomate_is(U, gas, at, r)

    def other_names(U, I):
        """A gas not in any table, or not a gas."""
        t = z3.Const("name", S)
        I.s.assume(siteof(t) == z3.If(z3.Bool("gas"), lit("g"), z3.Const("site", S)))
        U.s.assume(z3.Const("site", S) != lit("g"))
        for k in set(g for (g, _, _), _ in tables.SHOMATE) | set(tables.ROT) | set(tables.VIB):
            U.s.assume(z3.Implies(z3.Bool("gas"), t != lit(k)))
        return t

    def no_data(U, method):
        c = world(U, "")
        t = other_names(U, U.I)
        r = U.method(c, method, [t])
        U.prove(real(r) == 0, "zero for what is not a gas and for a gas without parameters")
    for m in ("shomate_correction", "entropy_correction"):
        P.unit("ThermodynamicCorrector.%s(no data)" % m, lambda U, m=m: no_data(U, m), con,
               expect=["zero for what is not a gas and for a gas without parameters"])

    for gas in sorted(set(g for (g, _, _), _ in tables.SHOMATE)):
        P.unit("shomate_correction(%s)" % gas, lambda U, gas=gas: shomate(U, gas, [T1], {}, T1), con,
               expect=["the formula in the range of T"])
    for gas in sorted((set(tables.ROT) | set(tables.VIB)) - set(g for (g, _, _), _ in tables.SHOMATE)):
        P.unit("shomate_correction(%s)" % gas, lambda U, gas=gas: shomate(U, gas, [], {"T": T1}, T1),
               con, expect=["zero without parameters"])
    P.unit("shomate_correction(CO_g) at the model's temperature",
           lambda U: shomate(U, "CO_g", [], {}, T0), con, expect=["the formula in the range of T"])

    kB, h = real(1.38064852e-23), real(6.626070040e-34)

    def entropy(U, gas, kwargs):
        I, s = U.I, U.s
        c = world(U, gas[:-2])
        r = real(U.method(c, "entropy_correction", [gas], kwargs))
        if gas not in tables.ROT or gas not in tables.VIB:
            U.prove(r == 0, "zero without parameters")
            return
        t = kwargs.get("T", T0)
        m = kwargs.get("m", m1)
        p = kwargs.get("p", 101325*pr(lit("this gas")))
        sigma, th = tables.ROT[gas]
        sigma, th = real(sigma), [real(x) for x in th]
        qt = kB*t/p*T.Pow(2*PI*m*kB*t/(h*h), real(1.5))
        if len(th) == 1:
            qr = t/(sigma*th[0])
            if not s.decide(th[0]/t <= real(0.01)):
                qr = qr*(1 + th[0]/(3*t) + th[0]*th[0]/(15*t*t))
        else:
            qr = T.Sqrt(PI)/sigma*T.Sqrt(t*t*t/(th[0]*th[1]*th[2]))
        v = [real(x) for x in tables.VIB[gas]]
        if len(v) == 1:
            qv = T.Exp(-v[0]/(2*t))/(1 - T.Exp(-v[0]/t))
        else:
            qv = real(1)
            for x in v:
                qv = qv/(1 - T.Exp(-x/t))
        U.prove(r == -real(8.6173324e-5)*t*T.Log(qt*qr*qv), "the formula")
    for gas in sorted(set(tables.ROT) | set(tables.VIB) | {"HCN_g"}):
        known = gas in tables.ROT and gas in tables.VIB
        P.unit("entropy_correction(%s)" % gas, lambda U, gas=gas: entropy(U, gas, {}), con,
               expect=["the formula"] if known else ["zero without parameters"])
    for gas in ("CO_g", "H2O_g"):
        for kw in ({"m": m0}, {"p": p0}, {"T": T1}, {"m": m0, "p": p0, "T": T1}):
            P.unit("entropy_correction(%s) with given %s" % (gas, ", ".join(sorted(kw))),
                   lambda U, gas=gas, kw=kw: entropy(U, gas, kw), con, expect=["the formula"])


# ------------------------------------------------------------------ C26
CG = "scaks/utilities/coordinate_utilities.py"


def c26(P):
    P.assumption("numbers are exact; the coordinates a group was made of are lists of three numbers, "
                 "its elements texts (the constructor takes them as they are)")
    I_, R_ = z3.IntSort(), z3.RealSort()
    n, m, m2 = z3.Int("n_coordinates"), z3.Int("n_more"), z3.Int("n_more_elements")
    co = [z3.Function("coordinate_" + x, I_, R_) for x in "xyz"]
    co2 = [z3.Function("other_" + x, I_, R_) for x in "xyz"]
    el, el2 = z3.Function("element", I_, S), z3.Function("other_element", I_, S)
    new, newel = z3.Function("new_coordinate", I_, S), z3.Function("new_element", I_, S)
    CO, EL = "_CoordsGroup__coords", "_CoordsGroup__elements"
    V = lit("V")
    cls = net.cls(CG, "CoordsGroup")

    def numbers(I, f, k):
        return I.lst(GSeq(k, lambda i: I.lst(tuple(g(integer(i)) for g in f)), open_=False))

    def names(I, f, k):
        return I.lst(GSeq(k, lambda i: f(integer(i)), open_=False))

    def group(U, k=n, f=co, e=el):
        U.s.assume(k >= 0)
        return U.I.obj(cls, {CO: numbers(U.I, f, k), EL: names(U.I, e, k)})

    def same_row(U, row, want, what):
        U.prove(z3.BoolVal(U.I.length(row) == 3), what)
        for j, w in enumerate(want):
            U.prove(real(U.I.getitem(row, j)) == w, what)

    def as_term(v):
        return v.term if isinstance(v, Opq) and v.spec is dyn.ANY else as_S(v)

    def is_group(U, g, k, f, e, what):
        """The group holds k coordinates and elements, the given ones."""
        I = U.I
        c, x = g.attrs[CO], g.attrs[EL]
        U.prove(integer(I.length(c)) == k, what + ": as many coordinates")
        U.prove(integer(I.length(x)) == k, what + ": as many elements")
        U.each(k, lambda i: same_row(U, I.getitem(c, i), [h(i) for h in f], what + ": its coordinates"))
        U.each(k, lambda i: U.prove(as_S(I.getitem(x, i)) == e(i), what + ": its elements"))

    def created(U, given, with_elements):
        I, s = U.I, U.s
        s.assume(z3.And(n >= 0, m >= 0))
        args = []
        if given:
            args.append(numbers(I, co, n))
        if with_elements:
            args = (args or [None]) + [names(I, el, m)]
        k = n if given else z3.IntVal(0)
        try:
            g = I.call(VClass_("CoordsGroup", CG), args)
        except PyRaise as e:
            if e.name != "ValueError":
                raise
            U.prove(z3.And(z3.BoolVal(with_elements), m != k), "rejected only for another number of elements")
            return
        if with_elements:
            U.prove(m == k, "accepted only as many elements")
        is_group(U, g, k, co, el if with_elements else lambda i: V, "the group")
    for given in (True, False):
        for with_elements in (True, False):
            what = ", ".join((["coordinates"] if given else []) + (["elements"] if with_elements else []))
            P.unit("CoordsGroup(%s)" % what, lambda U, x=(given, with_elements): created(U, *x), {}, {},
                   expect=["the group: as many elements"] +
                   (["rejected only for another number of elements"] if with_elements else []))

    def good_coordinate(t):
        return z3.And(dyn.typed(t, "list"), dyn.size(t) == 3,
                      *[dyn.typed(dyn.item(t, z3.IntVal(j)), "float") for j in range(3)])

    def good_element(t):
        return dyn.typed(t, "str", "NoneType")

    def grown(U, g, k, f, e):
        """The group has k more coordinates and elements at its end."""
        I = U.I
        c, x = g.attrs[CO], g.attrs[EL]
        U.prove(z3.And(integer(I.length(c)) == n + k, integer(I.length(x)) == n + k), "as many of both")
        U.each(n, lambda i: same_row(U, I.getitem(c, i), [h(i) for h in co], "the earlier coordinates"))
        U.each(n, lambda i: U.prove(as_S(I.getitem(x, i)) == el(i), "the earlier elements"))

        def entry(i):
            U.prove(as_term(I.getitem(c, n + i)) == f(i), "the new coordinates")
            v = e(i)
            U.prove(as_term(I.getitem(x, n + i)) ==
                    (V if v is None else z3.If(dyn.typed(v, "NoneType"), V, v)), "the new elements")
        U.each(k, entry)

    def appended(U, with_element):
        I, s = U.I, U.s
        g = group(U)
        c, e = z3.Const("coordinate", S), z3.Const("an_element", S)
        ok = z3.And(good_coordinate(c), good_element(e) if with_element else True)
        try:
            U.method(g, "append", [dyn.val(c)] + ([dyn.val(e)] if with_element else []))
        except PyRaise as x:
            if x.name != "ValueError":
                raise
            U.prove(z3.Not(ok), "rejected only what is malformed")
            is_group(U, g, n, co, el, "unchanged")
            return
        U.prove(ok, "accepted only three floats and a text")
        grown(U, g, z3.IntVal(1), lambda i: c, lambda i: e if with_element else None)
    for w in (True, False):
        P.unit("CoordsGroup.append(coordinate%s)" % (", element" if w else ""),
               lambda U, w=w: appended(U, w), {}, {},
               expect=["rejected only what is malformed", "unchanged: its elements", "the new coordinates",
                       "the new elements", "the earlier coordinates"])

    def extended(U, with_elements):
        I, s = U.I, U.s
        g = group(U)
        s.assume(z3.And(m >= 0, m2 >= 0))
        cs = I.lst(GSeq(m, lambda i: dyn.val(new(integer(i))), open_=False))
        es = I.lst(GSeq(m2, lambda i: dyn.val(newel(integer(i))), open_=False))
        fit = lambda i: z3.And(good_coordinate(new(i)), good_element(newel(i)) if with_elements else True)
        try:
            U.method(g, "extend", [cs] + ([es] if with_elements else []))
        except PyRaise as x:
            if x.name != "ValueError":
                raise
            if not with_elements or s.decide(m == m2):
                U.never(lambda i: z3.Implies(z3.And(i >= 0, i < m), fit(i)), "rejected only what is malformed")
            is_group(U, g, n, co, el, "unchanged")
            return
        if with_elements:
            U.prove(m == m2, "accepted only as many elements as coordinates")
        U.forall(m, fit, "accepted only three floats and a text each")
        grown(U, g, m, new, newel if with_elements else lambda i: None)
    for w in (True, False):
        P.unit("CoordsGroup.extend(coordinates%s)" % (", elements" if w else ""),
               lambda U, w=w: extended(U, w), {}, {},
               expect=["rejected only what is malformed", "the new coordinates", "the new elements",
                       "accepted only three floats and a text each"])

    def rejected(U):
        """A malformed vector."""
        I, s = U.I, U.s
        g = group(U)
        t = z3.Const("vector", S)
        s.assume(z3.Not(z3.And(dyn.typed(t, "list"), dyn.size(t) == 3)))
        s.assume(z3.Not(dyn.typed(t, "NoneType")))
        try:
            U.method(g, "move", [dyn.val(t)])
        except PyRaise as x:
            if x.name != "ValueError":
                raise
            is_group(U, g, n, co, el, "unchanged")
            return
        U.prove(z3.BoolVal(False), "accepted only a list of three")
    P.unit("CoordsGroup.move(malformed)", rejected, {}, {}, expect=["unchanged: its elements"])

    def moved(U, given):
        I, s = U.I, U.s
        g = group(U)
        v = [z3.Real("shift_" + x) for x in "xyz"]
        l = I.lst(tuple(v))
        r = U.method(g, "move", [l] if given else [])
        by = v if given else [z3.RealVal(0)]*3
        U.prove(z3.BoolVal(isinstance(r, VObj) and r is not g and r.cls.name == "CoordsGroup" and
                           not {id(r.attrs[x]) for x in (CO, EL)} & {id(g.attrs[x]) for x in (CO, EL)}),
                "a new group")
        is_group(U, r, n, [lambda i, f=f, d=d: f(i) + d for f, d in zip(co, by)], el, "the moved group")
        is_group(U, g, n, co, el, "the original")
        same_row(U, l, v, "the vector stays")
    for w in (True, False):
        P.unit("CoordsGroup.move(%s)" % ("vector" if w else ""), lambda U, w=w: moved(U, w), {}, {},
               expect=["a new group", "the moved group: its coordinates", "the original: its elements"])

    TOL = z3.Q(1, 10000)
    near = lambda j, i: z3.And(*[z3.And(f(j) - g(i) <= TOL, g(i) - f(j) <= TOL) for f, g in zip(co2, co)])
    first = z3.Function("first_match", I_, I_)
    T.INDEXED["first_match"] = 0

    def added(U):
        """first(j): the first coordinate of the first group that matches j of the second, or n."""
        I, s = U.I, U.s
        g, h = group(U), group(U, m, co2, el2)
        s.assume_all(lambda j: z3.And(first(j) >= 0, first(j) <= n,
                                      z3.Implies(first(j) < n, near(j, first(j)))))
        J = z3.Int("j_of_first")
        s.assume_nested(T.Nested(J, m, z3.BoolVal(True), [T.Forall(
            lambda i: z3.Implies(z3.And(i >= 0, i < first(J)), z3.Not(near(J, i))))]))
        r = U.method(g, "__add__", [h])
        U.prove(z3.BoolVal(isinstance(r, VObj) and r.cls.name == "CoordsGroup" and
                           not {id(r.attrs[x]) for x in (CO, EL)} &
                           {id(o.attrs[x]) for x in (CO, EL) for o in (g, h)}), "a new group")
        is_group(U, g, n, co, el, "the first operand")
        is_group(U, h, m, co2, el2, "the second operand")
        c, x = r.attrs[CO], r.attrs[EL]
        U.each(n, lambda i: same_row(U, I.getitem(c, i), [f(i) for f in co], "its coordinates stay"))

        def entry(i):
            got = as_S(I.getitem(x, i))
            U.prove(z3.Implies(el(i) != V, got == el(i)), "only a V is filled")
            if s.decide(got == V):
                U.forall(m, lambda j: z3.Implies(z3.And(el(i) == V, first(j) == i), el2(j) == V),
                         "a V stays only without a match")
            elif s.decide(el(i) == V):
                U.never(lambda j: z3.Implies(z3.And(j >= 0, j < m, near(j, i)), el2(j) != got),
                        "a V is filled from a matching coordinate")
        U.each(n, entry)
        # the rest: what has no match, in order
        cs, xs = I.segments(view0(c)), I.segments(view0(x))
        U.prove(z3.BoolVal(len(cs) == 2 and len(xs) == 2), "then the rest")
        want = I.lst(())
        I.for_each(GSeq(m, lambda j: j), lambda j: I.append(want, j) if s.decide(first(j) == n) else None)
        ws = I.segments(want)
        U.prove(z3.BoolVal(len(ws) == 1), "then the rest")
        for got in (cs[1], xs[1]):
            U.prove(integer(got.n) == integer(ws[0].n), "then the rest")

        def piece(i):
            a, b, w = [chosen(I, z, i) for z in (cs[1], xs[1], ws[0])]
            U.prove(z3.BoolVal(len(a) == len(b) == len(w)), "the unmatched coordinates in order")
            for p, q, j in zip(a, b, w):
                same_row(U, p, [f(j) for f in co2], "the unmatched coordinates in order")
                U.prove(as_S(q) == el2(j), "their elements")
        U.each(m, piece)

    def view0(l):
        return SList(l.seq)
    P.unit("CoordsGroup.__add__", added, {}, {},
           expect=["a new group", "the first operand: its elements", "its coordinates stay", "only a V is filled",
                   "a V stays only without a match", "a V is filled from a matching coordinate",
                   "the unmatched coordinates in order", "their elements"])


PROPS = {"C25": c25, "C26": c26, "C30": c30}
