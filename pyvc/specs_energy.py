"""Contracts on the energy parsers and the thermodynamic corrections."""
import z3

import net
from net import *             # noqa
import terms as T
from terms import real, integer, make_fold, fresh_index, cat, lit
from values import *          # noqa
from session import Unsupported

PB = "scaks/parsers/parser_base.py"
AEP = "scaks/parsers/absolute_energy_parser.py"
REP = "scaks/parsers/relative_energy_parser.py"

has_abs, get_abs = net.lookup("abs_energy")
E_state = z3.Function("E_state", I_, I_, R_)


def energy_key(t):
    return z3.If(contains_star(t), cat(lit("*_"), siteof(t)), t)


def state_energy(i, s):
    """Sum over the formulas of coefficient times energy; a bare site by '*_site'."""
    k = fresh_index("k")
    return make_fold("sum", nf(i, s), k,
                     real(stoich(i, s, k))*get_abs(energy_key(ss(i, s, k))))


def abs_dict(I):
    return net.user_dict(I, has_abs, get_abs)


def opaque(name):
    return lambda I, self, args, kwargs: Opq(Spec(name))


def relative(i):
    """(Gaf, Gar, dG) of reaction i by the contract."""
    ei, ef = E_state(i, z3.IntVal(0)), E_state(i, nst(i) - 1)
    ts = z3.If(nst(i) == 3, E_state(i, z3.IntVal(1)), z3.If(ei >= ef, ei, ef))
    return ts - ei, ts - ef, ef - ei


def c_single(I, self, args, kwargs):
    i = net.index_of_text(I, args[0] if args else kwargs["rxn_expression"])
    return relative(i)


def c07(P):
    P.assumption("every species and bare site of the reactions has an absolute energy "
                 "(otherwise KeyError)")

    def state(U):
        I = U.I
        net.base_facts(I)
        i, s = z3.Int("i0"), z3.Int("s0")
        U.s.assume(z3.And(i >= 0, i < NR, s >= 0, s < nst(i)))
        U.s.assume_all(lambda k: has_abs(energy_key(ss(i, s, k))))
        o = net.Owner(I, dict(absolute_energies=abs_dict(I), has_absolute_energy=True))
        p = I.obj(net.cls(PB, "ParserBase"), {"_owner": o.obj})
        r = U.method(p, "_get_state_energy", [net.state_obj(i, s)])
        U.prove(real(r) == state_energy(i, s), "sum of coefficient times energy")
    con = net.contracts()
    con["ChemState.get_species_site_dict"] = opaque("species dict")
    con["ChemState.get_sites_dict"] = opaque("site dict")
    P.unit("ParserBase._get_state_energy", state, con, expect=["sum of coefficient times energy"])

    def single(U):
        I = U.I
        net.base_facts(I)
        i = z3.Int("i0")
        U.s.assume(z3.And(i >= 0, i < NR))
        o = net.Owner(I, dict(has_absolute_energy=True, absolute_energies=abs_dict(I)))
        p = I.obj(net.cls(PB, "ParserBase"), {"_owner": o.obj})
        r = I.unpack(U.method(p, "_get_single_relative_energies", [rx(i)]), 3)
        f, b, d = relative(i)
        U.prove(real(r[0]) == f, "Gaf")
        U.prove(real(r[1]) == b, "Gar")
        U.prove(real(r[2]) == d, "dG")
        U.prove(real(r[0]) - real(r[1]) == real(r[2]), "Gaf - Gar = dG")

    def c_state_energy(I, self, args, kwargs):
        st = args[0] if args else kwargs["state"]
        return E_state(integer(st.attrs["ghost_i"]), integer(st.attrs["ghost_s"]))
    con2 = net.contracts()
    con2["ParserBase._get_state_energy"] = c_state_energy
    P.unit("ParserBase._get_single_relative_energies", single, con2,
           expect=["Gaf", "Gar", "dG", "Gaf - Gar = dG"])

    def energies_ok(U, d):
        I = U.I
        for key, j in (("Gaf", 0), ("Gar", 1), ("dG", 2)):
            l = I.getitem(d, key)
            U.prove(integer(I.length(l)) == NR, "length of %s" % key)
            U.forall(NR, lambda i: real(I.getitem(l, i)) == relative(i)[j], "%s in order" % key)

    names = ["length of Gaf", "Gaf in order", "length of Gar", "Gar in order", "length of dG",
             "dG in order"]

    def whole(U):
        I = U.I
        net.base_facts(I)
        o = net.Owner(I, dict(has_absolute_energy=True))
        p = I.obj(net.cls(PB, "ParserBase"), {"_owner": o.obj})
        energies_ok(U, U.method(p, "_get_relative_from_absolute"))
    con3 = net.contracts()
    con3["ParserBase._get_single_relative_energies"] = c_single
    P.unit("ParserBase._get_relative_from_absolute", whole, con3, expect=names)

    def parse(U):
        I = U.I
        net.base_facts(I)
        given = abs_dict(I)
        o = net.Owner(I, dict(has_absolute_energy=False))
        p = I.obj(net.cls(AEP, "AbsoluteEnergyParser"), {"_owner": o.obj})
        I.user_file = {"absolute_energies": given}
        U.s.assume(z3.Function("exists", S, B_)(z3.Const("energy_file", S)))
        U.method(p, "parse_data", [], {"filename": z3.Const("energy_file", S)})
        t = z3.Const("any_name", S)
        U.s.assume(has_abs(t))
        U.prove(real(I.getitem(I.getattr(o.obj, "_absolute_energies"), t)) == get_abs(t),
                "energies of the file are stored")
        U.prove(I.getattr(o.obj, "_has_absolute_energy") is True and
                I.getattr(o.obj, "_has_relative_energy") is True, "flags are set")
        energies_ok(U, I.getattr(o.obj, "_relative_energies"))
    P.unit("AbsoluteEnergyParser.parse_data", parse, con3,
           expect=["energies of the file are stored", "flags are set"] + names)


# ------------------------------------------------------------------ C06
ga, dg = z3.Function("Ga", I_, R_), z3.Function("dG", I_, R_)
n_ga, n_dg = z3.Int("n_Ga"), z3.Int("n_dG")


def c06(P):
    def given(I):
        l1 = I.lst(GSeq(n_ga, lambda i: ga(integer(i)), "Ga", open_=False))
        l2 = I.lst(GSeq(n_dg, lambda i: dg(integer(i)), "dG", open_=False))
        d = I.new(SDict())
        I.dict_set(d, "Ga", l1)
        I.dict_set(d, "dG", l2)
        return d

    def run(U, from_file):
        I = U.I
        net.base_facts(I)
        U.s.assume(z3.And(n_ga >= 0, n_dg >= 0))
        o = net.Owner(I, {})
        p = I.obj(net.cls(REP, "RelativeEnergyParser"), {"_owner": o.obj})
        d = given(I)
        I.user_file = dict(Ga=I.getitem(d, "Ga"), dG=I.getitem(d, "dG"))
        kw = {"filename": z3.Const("energy_file", S)}
        if not from_file:
            kw["energy_data"] = d
        else:
            U.s.assume(z3.Function("exists", S, B_)(z3.Const("energy_file", S)))
        try:
            U.method(p, "parse_data", [], kw)
        except PyRaise as e:
            if e.name != "ValueError":
                raise
            U.prove(z3.Or(n_ga != NR, n_dg != NR), "rejected only for a wrong length")
            U.prove("_relative_energies" not in o.obj.attrs and
                    "_has_relative_energy" not in o.obj.attrs,
                    "rejected data leave no relative energies")
            return
        U.prove(z3.And(n_ga == NR, n_dg == NR), "accepted only with one entry per reaction")
        U.prove(I.getattr(o.obj, "_has_relative_energy") is True, "flag is set")
        r = I.getattr(o.obj, "_relative_energies")
        gaf = lambda i: z3.If(z3.And(ga(i) < z3.Q(1, 10**10), -ga(i) < z3.Q(1, 10**10), dg(i) > 0),
                              dg(i), ga(i))
        for key, f in (("Gaf", gaf), ("dG", dg), ("Gar", lambda i: gaf(i) - dg(i))):
            l = I.getitem(r, key)
            U.prove(integer(I.length(l)) == NR, "length of %s" % key)
            U.forall(NR, lambda i: real(I.getitem(l, i)) == f(i), "%s in order" % key)
    ok = ["accepted only with one entry per reaction", "flag is set", "length of Gaf",
          "Gaf in order", "length of dG", "dG in order", "length of Gar", "Gar in order",
          "rejected only for a wrong length", "rejected data leave no relative energies"]
    P.unit("RelativeEnergyParser.parse_data(energy_data)", lambda U: run(U, False),
           net.contracts(), expect=ok)
    P.unit("RelativeEnergyParser.parse_data(file)", lambda U: run(U, True), net.contracts(),
           expect=ok)


# ------------------------------------------------------------------ C08
TC = "scaks/correctors/thermodynamic_corrector.py"
gaf0, gar0, dg0 = (z3.Function(x + "_given", I_, R_) for x in ("Gaf", "Gar", "dG"))
correction = {m: z3.Function(m + "_correction", S, R_) for m in ("shomate", "entropy")}


def shift(i, s, method):
    k = fresh_index("k")
    return make_fold("sum", nf(i, s), k, real(stoich(i, s, k))*correction[method](ss(i, s, k)))


def corrected(i, method):
    di, df = shift(i, z3.IntVal(0), method), shift(i, nst(i) - 1, method)
    dt = shift(i, z3.IntVal(1), method)
    ei, ef = di, dg0(i) + df
    top = z3.If(ei >= ef, ei, ef)
    two = nst(i) == 2
    return (z3.If(two, top - ei, gaf0(i) + dt - di), z3.If(two, top - ef, gar0(i) + dt - df),
            dg0(i) + df - di)


def c08(P):
    P.assumption("the correction of a species is a function of its name in one call (C30)")

    def c_corr(method):
        def f(I, self, args, kwargs):
            if len(args) + len(kwargs) != 1:
                raise Unsupported("correction for other conditions than the model's")
            return correction[method](as_S(args[0] if args else kwargs["gas_name"]))
        return f
    con = net.contracts()
    for m in correction:
        con["ThermodynamicCorrector.%s_correction" % m] = c_corr(m)
    lists = ("Gaf", "Gar", "dG")
    ok = [l % k for k in lists for l in ("length of %s", "%s in order")] + \
        ["the corrected energies are returned", "Gaf - Gar = dG if it held before"]

    def run(U, args, kwargs, method):
        I = U.I
        net.base_facts(I)
        o = net.Owner(I, {})
        c = I.obj(net.cls(TC, "ThermodynamicCorrector"), {"_owner": o.obj})
        d = I.new(SDict())
        for key, f in zip(lists, (gaf0, gar0, dg0)):
            I.dict_set(d, key, I.lst(GSeq(NR, lambda i, f=f: f(integer(i)), key, open_=False)))
        try:
            r = U.method(c, "correct_relative_energies", [d] + args, kwargs)
        except PyRaise as e:
            if method is not None:
                raise
            U.prove(e.name == "ValueError", "an unknown method is rejected")
            for key, f in zip(lists, (gaf0, gar0, dg0)):
                l = I.getitem(d, key)
                U.forall(NR, lambda i: real(I.getitem(l, i)) == f(i), "energies unchanged then")
            return
        if method is None:
            U.fail("an unknown method is rejected", "accepted")
            return
        U.prove(r is d, "the corrected energies are returned")
        for j, key in enumerate(lists):
            l = I.getitem(d, key)
            U.prove(integer(I.length(l)) == NR, "length of %s" % key)
            U.forall(NR, lambda i: real(I.getitem(l, i)) == corrected(i, method)[j],
                     "%s in order" % key)

        def closed(i):
            a, b, g = (real(I.getitem(I.getitem(d, key), i)) for key in lists)
            return z3.Implies(gaf0(i) - gar0(i) == dg0(i), a - b == g)
        U.forall(NR, closed, "Gaf - Gar = dG if it held before")
    for m in correction:
        P.unit("ThermodynamicCorrector.correct_relative_energies(%s)" % m,
               lambda U, m=m: run(U, [], {"method": m}, m), con, expect=ok)
    P.unit("ThermodynamicCorrector.correct_relative_energies()",
           lambda U: run(U, [], {}, "shomate"), con, expect=ok)
    P.unit("ThermodynamicCorrector.correct_relative_energies(other)",
           lambda U: run(U, ["no such method"], {}, None), con,
           expect=["an unknown method is rejected", "energies unchanged then"])


PROPS = {"C06": c06, "C07": c07, "C08": c08}
