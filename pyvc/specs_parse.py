"""Reading of reaction expressions (C01, C02, C03)."""
import z3

import net
import terms as T
import texts
from terms import S, lit, integer, real
from values import *          # noqa
from values import DictBase, subst
from session import Unsupported
from terms import is_z3
from interp import PyRaise
import builtins_model as bm
from specs_kmc import VClass_

I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
RXN = net.RXN
INF = texts.INF

# shapes of the documented grammar
species = z3.Const("species", S)
texts.shape(species, ("[A-Za-z*]", 1, 1), ("[A-Za-z0-9*-]", 0, INF))
site = z3.Const("site", S)
texts.shape(site, ("[A-Za-z*]", 1, INF))
before, after = z3.Const("blanks_before", S), z3.Const("blanks_after", S)
for _b in (before, after):
    texts.shape(_b, (" ", 0, INF))


def same(U, got, want, label):
    e = U.I.eq(got, want)
    U.prove(e if not isinstance(e, bool) else z3.BoolVal(e), label)


def c02(P):
    n, m = z3.Int("coefficient"), z3.Int("site_number")
    given, numbered = z3.Bool("coefficient_given"), z3.Bool("site_number_given")

    def formula(U):
        I, s = U.I, U.s
        s.assume(z3.And(n >= 0, m >= 0))
        g, h = s.decide(given), s.decide(numbered)
        tail = rope(*([species, "_"] + ([m] if h else []) + [site]))
        text = rope(*([before] + ([n] if g else []) + [tail, after]))
        f = I.call(VClass_("ChemFormula", RXN), [text])
        call = lambda name: U.method(f, name)
        same(U, call("formula"), text, "its text")
        same(U, call("stoichiometry"), n if g else 1, "coefficient")
        same(U, call("species"), species, "species")
        same(U, call("species_site"), tail, "species with site")
        same(U, call("nsite"), m if h else 1, "site number")
        same(U, call("site"), site, "site")
        star = z3.Function("contains<*>", S, B_)
        kind = call("type")
        U.prove(z3.BoolVal(kind in ("gas", "liquid", "site", "adsorbate")), "kind")
        gas, liq = site == lit("g"), site == lit("l")
        has = z3.Or(star(species), star(site))
        U.prove({"gas": gas, "liquid": z3.And(z3.Not(gas), liq),
                 "site": z3.And(z3.Not(gas), z3.Not(liq), has),
                 "adsorbate": z3.And(z3.Not(gas), z3.Not(liq), z3.Not(has))}[kind], "kind")
        d = call("get_sites_dict")
        U.prove(integer(I.getitem(d, site)) == (m if h else 1)*(n if g else 1), "site count")
        t = z3.Const("other_text", S)
        s.assume(t != site)
        has = I.contains(t, d)
        U.prove(z3.BoolVal(has is False) if isinstance(has, bool) else z3.Not(has), "no other site")
    P.unit("ChemFormula", formula, {}, {}, expect=["coefficient", "species", "species with site", "site",
                                                   "site number", "kind", "site count", "no other site"])


    ne = z3.Int("n_pieces")
    elem, count = z3.Function("element", I_, S), z3.Function("element_count", I_, I_)
    texts.shape(elem, ("[A-Z]", 1, 1), ("[a-z]", 0, 1))
    counted, dashed = z3.Function("count_given", I_, B_), z3.Function("dash_follows", I_, B_)
    T.schema("element_count", lambda a: [a >= 1])
    k = z3.Int("k_piece")
    pieces = FoldPart(ne, k, [
        (z3.And(counted(k), dashed(k)), rope(elem(k), count(k), "-")), (counted(k), rope(elem(k), count(k))),
        (dashed(k), rope(elem(k), "-")), (True, rope(elem(k)))])

    def number(e, coef=1):
        return T.make_fold("sum", ne, k, z3.If(elem(k) == e, real(coef)*real(z3.If(counted(k), count(k), 1)), 0))

    def occurs(e):
        return T.make_fold("sum", ne, k, z3.If(elem(k) == e, z3.RealVal(1), z3.RealVal(0)))

    def counts(U, d, e, coef):
        I, s = U.I, U.s
        has = I.contains(e, d)
        has = z3.BoolVal(has) if isinstance(has, bool) else has
        if s.decide(has):
            U.prove(real(I.getitem(d, e)) == number(e, coef), "atoms of an element")
            U.prove(occurs(e) >= 1, "only elements that occur")
        else:
            U.prove(occurs(e) < 1, "every element that occurs")

    def elements(U, method):
        I, s = U.I, U.s
        s.assume(z3.And(ne >= 1, n >= 1))
        text = rope(n, pieces, "_", site) if method == "get_elements_dict" else rope(pieces, "_", site)
        f = I.call(VClass_("ChemFormula", RXN), [text])
        d = U.method(f, method)
        counts(U, d, z3.Const("an_element", S), n if method == "get_elements_dict" else 1)
    for x in ("get_species_elements_dict", "get_elements_dict"):
        P.unit("ChemFormula.%s" % x, lambda U, x=x: elements(U, x), {}, {},
               expect=["atoms of an element", "only elements that occur", "every element that occurs"])


    def bare(U):
        U.s.assume(n >= 1)
        f = U.I.call(VClass_("ChemFormula", RXN), [rope(n, "*_", site)])
        for x in ("get_species_elements_dict", "get_elements_dict"):
            has = U.I.contains(z3.Const("an_element", S), U.method(f, x))
            U.prove(z3.BoolVal(has is False) if isinstance(has, bool) else z3.Not(has), "a bare site has no atoms")
    P.unit("ChemFormula of a bare site", bare, {}, {}, expect=["a bare site has no atoms"])

    def refused(U):
        t, u = z3.Const("text_without_underscore", S), z3.Const("text_of_digits", S)
        texts.shape(t, ("[^_]", 0, INF))
        texts.shape(u, ("[0-9]", 0, INF))
        text = [t, rope(t, "_", u), rope(t, "_", u, " ", t)][U.s.choose(3)]
        try:
            U.I.call(VClass_("ChemFormula", RXN), [text])
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "ChemFormulaError"), "text without a formula")
            return
        U.prove(z3.BoolVal(False), "text without a formula")
    P.unit("ChemFormula of other text", refused, {}, {}, expect=["text without a formula"])

    # a state: any number of formulas, joined by + with any blanks
    st = StateText("st")

    def state(U):
        I, s = U.I, U.s
        s.assume(st.n >= 1)
        c = I.call(VClass_("ChemState", RXN), [st.text()])
        same(U, U.method(c, "chem_state"), st.text(), "text of the state")
        fs = U.method(c, "tolist")
        U.prove(integer(I.length(fs)) == st.n, "number of formulas")

        def one(i):
            f = I.getitem(fs, i)
            call = lambda name: U.method(f, name)
            same(U, call("stoichiometry"), st.stoich(i), "coefficient in a state")
            same(U, call("species"), st.species(i), "species in a state")
            same(U, call("site"), st.site(i), "site in a state")
            same(U, call("nsite"), st.nsite(i), "site number in a state")
        U.each(st.n, one)
    P.unit("ChemState.tolist", state, {}, {},
           expect=["text of the state", "number of formulas", "coefficient in a state", "species in a state",
                   "site in a state", "site number in a state"])

    def equation(U, three):
        I, s = U.I, U.s
        e, states = equation_text(U, three)
        r = I.call(VClass_("RxnEquation", RXN), [e])
        same(U, U.method(r, "rxn_equation"), e, "text of the equation")
        got = U.method(r, "tolist")
        U.prove(z3.BoolVal(I.length(got) == len(states)), "number of states")
        for k, x in enumerate(states):
            same(U, U.method(I.getitem(got, k), "chem_state"), x, "text of each state")
        fl = U.method(r, "to_formula_list")
        U.prove(z3.BoolVal(I.length(fl) == len(states)), "number of lists")
        for k, x in enumerate(states):
            a = I.getitem(fl, k)
            U.prove(integer(I.length(a)) == nform(x), "number of formulas of a state")
            U.forall(nform(x), lambda j: integer(I.getitem(a, j)) == formula_of(x, j), "formulas of a state")
    for three in (False, True):
        P.unit("RxnEquation.tolist, %d states" % (3 if three else 2), lambda U, three=three: equation(U, three),
               {"ChemState.tolist": tolist_contract}, {},
               expect=["text of the equation", "number of states", "text of each state", "number of lists",
                       "number of formulas of a state", "formulas of a state"])


nform = z3.Function("formulas_of_state", S, I_)
formula_of = z3.Function("formula_of_state", S, I_, I_)
T.schema("formulas_of_state", lambda a: [a >= 1])


def tolist_contract(I, self, a, k):
    t = as_S(I.call(I.getattr(self, "chem_state"), []))
    return I.lst(GSeq(nform(t), lambda i: formula_of(t, T.integer(i))))


def equation_text(U, three):
    """The text of an equation and of its states: arrows of either kind, any blanks."""
    s = U.s
    parts, states = [], []
    for k in range(3 if three else 2):
        if k:
            parts.append("<->" if s.decide(z3.Bool("double_arrow_%d" % k)) else "->")
        b = [z3.Const("blanks_%d_%s" % (k, w), S) for w in ("before", "after")]
        for x in b:
            texts.shape(x, (" ", 0, INF))
        t = z3.Const("state_%d" % k, S)
        texts.shape(t, ("[A-Za-z0-9*]", 1, 1), ("[A-Za-z0-9*_+ -]", 1, INF), ("[A-Za-z*]", 1, 1))
        parts += [b[0], t, b[1]]
        states.append(t)
    return rope(*parts), states


class StateText(object):
    """A state written as text: n formulas with blanks around them, joined by +."""

    def __init__(self, tag, sort=()):
        self.n = z3.Int("n_" + tag)
        self.k = z3.Int("k_" + tag)
        F = lambda name, s: z3.Function(name + "_" + tag, I_, s)
        self.species, self.site = F("species", S), F("site", S)
        self.blank = F("blank_before", S), F("blank_after", S)
        self.coef, self.number = F("coefficient", I_), F("site_number", I_)
        self.given, self.numbered = F("coefficient_given", B_), F("site_number_given", B_)
        texts.shape(self.species, ("[A-Za-z*]", 1, 1), ("[A-Za-z0-9*-]", 0, INF))
        texts.shape(self.site, ("[A-Za-z*]", 1, INF))
        for b in self.blank:
            texts.shape(b, (" ", 0, INF))
        for c in ("coefficient", "site_number"):
            T.schema(c + "_" + tag, lambda a: [a >= 1])

    def stoich(self, i):
        return z3.If(self.given(i), self.coef(i), 1)

    def nsite(self, i):
        return z3.If(self.numbered(i), self.number(i), 1)

    def formula(self, i, g, h):
        return rope(*(([self.coef(i)] if g else []) + [self.species(i), "_"] +
                      ([self.number(i)] if h else []) + [self.site(i)]))

    def text(self):
        k = self.k
        cases = []
        for c, g, h in ((z3.And(self.given(k), self.numbered(k)), True, True), (self.given(k), True, False),
                        (self.numbered(k), False, True), (True, False, False)):
            cases.append((c, rope(self.blank[0](k), self.formula(k, g, h), self.blank[1](k))))
        return rope(FoldPart(self.n, k, cases, sep="+"))


# ------------------------------------------------------------------ C01
has_atom = z3.Function("has_atom", S, S, B_)
atom = z3.Function("atom", S, S, I_)
n_elements = z3.Function("n_elements", S, I_)
element_at = z3.Function("element_at", S, I_, S)
place = z3.Function("place_of_element", S, S, I_)
T.schema("n_elements", lambda a: [a >= 0])
T.schema("atom", lambda a: [z3.If(has_atom(*a.children()), a >= 1, a == 0)])
T.schema("element_at", lambda a: [place(a.arg(0), a) == a.arg(1), z3.Implies(
    z3.And(a.arg(1) >= 0, a.arg(1) < n_elements(a.arg(0))), has_atom(a.arg(0), a))])
T.schema("place_of_element", lambda a: [
    has_atom(a.arg(0), a.arg(1)) == z3.And(a >= 0, a < n_elements(a.arg(0))),
    z3.Implies(has_atom(a.arg(0), a.arg(1)), element_at(a.arg(0), a) == a.arg(1))])


def _place(t, e):
    if z3.is_app(e) and e.decl().name() == "element_at" and e.arg(0).eq(t.arg(0)):
        return e.arg(1)
    return place(t.arg(0), e)


T.INVERSE_AT["element_at"] = (1, _place)
T.INDEXED["element_at"] = 1


def elements_contract(I, self, a, k):
    """ChemFormula.get_elements_dict (C02): the elements of the species, scaled."""
    sp = as_S(I.call(I.getattr(self, "species"), []))
    c = I.call(I.getattr(self, "stoichiometry"), [])
    d = SDict(DictBase(lambda e: has_atom(sp, as_S(e)), lambda e: c*atom(sp, as_S(e)),
                       GSeq(n_elements(sp), lambda j: element_at(sp, T.integer(j)))))
    d.frozen = True
    return I.new(d)


i0, s0 = z3.Int("x!i"), z3.Int("x!s")


def atoms(i, s, e):
    k = z3.Int("k_atoms")
    return T.make_fold("sum", net.nf(i, s), k, real(
        net.stoich(i, s, k)*atom(net.speciesof(net.ss(i, s, k)), e)))


def sites(i, s, x):
    k = z3.Int("k_sites")
    t = net.ss(i, s, k)
    return T.make_fold("sum", net.nf(i, s), k, z3.If(
        net.siteof(t) == x, real(net.stoich(i, s, k)*net.nsiteof(t)), 0))


def at_least(U, n, k, hit, t, label):
    """Lemma: a sum of numbers >= 1 over some indexes is at least their number."""
    tot, num, rest = [T.make_fold("sum", n, k, z3.If(hit, x, z3.RealVal(0))) for x in (t, z3.RealVal(1), t - 1)]
    U.prove(tot == num + rest, label)
    U.s.implied(tot == num + rest)
    U.prove(z3.And(rest >= 0, num >= 0), label)
    U.s.implied(z3.And(rest >= 0, num >= 0))
    return num


def present(U, d, e):
    has = U.I.contains(e, d)
    return U.s.decide(has if not isinstance(has, bool) else z3.BoolVal(has))


def c01(P):
    con = dict(net.contracts())
    con["ChemFormula.get_elements_dict"] = elements_contract

    def state(U):
        i, st = z3.Int("x!i"), z3.Int("x!s")
        U.s.assume(z3.And(i >= 0, i < net.NR, st >= 0, st < net.nst(i)))
        return i, st, net.state_obj(i, st)

    def elements(U):
        I, s = U.I, U.s
        e, k = z3.Const("an_element", S), z3.Int("k_atoms")
        i, st, x = state(U)
        sp = net.speciesof(net.ss(i, st, k))
        num = at_least(U, net.nf(i, st), k, has_atom(sp, e), real(net.stoich(i, st, k)*atom(sp, e)), "lemma")
        U.prove(atoms(i, st, e) >= num, "atoms where an element occurs")
        s.implied(atoms(i, st, e) >= num)
        d = U.method(x, "get_elements_dict")
        if present(U, d, e):
            U.prove(real(I.getitem(d, e)) == atoms(i, st, e), "atoms of a state")
            U.prove(num >= 1, "only elements that occur")
            U.prove(atoms(i, st, e) > 0, "only elements that occur")
        else:
            U.prove(num < 1, "every element that occurs")
            U.prove(atoms(i, st, e) == 0, "every element that occurs")

    def site_counts(U):
        I, s = U.I, U.s
        e, k = z3.Const("a_site", S), z3.Int("k_sites")
        i, st, x = state(U)
        d = U.method(x, "get_sites_dict")
        if s.decide(z3.Or(e == lit("g"), e == lit("l"))):
            U.prove(z3.BoolVal(not present(U, d, e)), "gas and liquid carry no site")
            return
        t = net.ss(i, st, k)
        num = at_least(U, net.nf(i, st), k, net.siteof(t) == e, real(net.stoich(i, st, k)*net.nsiteof(t)), "lemma")
        if present(U, d, e):
            U.prove(real(I.getitem(d, e)) == sites(i, st, e), "sites of a state")
            U.prove(num >= 1, "only site types that occur")
            U.prove(sites(i, st, e) > 0, "only site types that occur")
        else:
            U.prove(sites(i, st, e) == 0, "every site type that occurs")
    P.unit("ChemState.get_elements_dict", elements, con, {},
           expect=["atoms of a state", "every element that occurs", "only elements that occur"])
    P.unit("ChemState.get_sites_dict", site_counts, con, {},
           expect=["sites of a state", "every site type that occurs", "only site types that occur",
                   "gas and liquid carry no site"])


    # the counts of a state, as the units above show them
    def counts(f, but=()):
        def fn(I, self, a, k):
            i, st = self.attrs["ghost_i"], self.attrs["ghost_s"]
            d = SDict(DictBase(lambda e: z3.And(f(i, st, as_S(e)) > 0, *[as_S(e) != lit(x) for x in but]),
                               lambda e: f(i, st, as_S(e))))
            d.frozen = True
            return I.new(d)
        return fn
    con2 = dict(net.contracts())
    con2["ChemState.get_elements_dict"] = counts(n_atoms)
    con2["ChemState.get_sites_dict"] = counts(n_sites, ("g", "l"))
    con2["ChemState.chem_state"] = lambda I, self, a, k: Rope([z3.Function("text_of_state", I_, I_, S)(
        self.attrs["ghost_i"], self.attrs["ghost_s"])])

    def alike(i, s1, s2):
        return lambda e: z3.And(n_atoms(i, s1, e) == n_atoms(i, s2, e), z3.Or(
            e == lit("g"), e == lit("l"), n_sites(i, s1, e) == n_sites(i, s2, e)))

    def conserve(U):
        I, s = U.I, U.s
        i, s1, x = state(U)
        s2 = z3.Int("x!other")
        s.assume(z3.And(s2 >= 0, s2 < net.nst(i)))
        try:
            r = U.method(x, "conserve", [net.state_obj(i, s2)])
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "ValueError"), "kind of the error")
            s.assume_all(alike(i, s1, s2), S)
            U.prove(z3.BoolVal(False), "only unbalanced states are refused")
            return
        U.prove(z3.BoolVal(r is True), "balanced states pass")
        U.prove(alike(i, s1, s2)(z3.Const("any_name", S)), "states that pass are balanced")
    P.unit("ChemState.conserve", conserve, con2, {},
           expect=["kind of the error", "balanced states pass", "states that pass are balanced"])

    def other(U):
        i, s1, x = state(U)
        try:
            U.method(x, "conserve", [Rope(["text"])])
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "ParameterError"), "only states are compared")
            return
        U.prove(z3.BoolVal(False), "only states are compared")
    P.unit("ChemState.conserve with something else", other, con2, {}, expect=["only states are compared"])

    # equations: the first state against every other
    counts = z3.Function("counts", I_, I_, I_)
    same_counts = lambda i, a, b: counts(i, a) == counts(i, b)

    def conserve_contract(I, self, a, k):
        i, s1, s2 = self.attrs["ghost_i"], self.attrs["ghost_s"], a[0].attrs["ghost_s"]
        if I.decide(same_counts(i, s1, s2)):
            return True
        raise PyRaise("ValueError", "", ("Exception", "BaseException"))
    con3 = dict(net.contracts())
    con3["ChemState.conserve"] = conserve_contract

    def equation(U):
        I, s = U.I, U.s
        i = z3.Int("x!i")
        s.assume(z3.And(i >= 0, i < net.NR))
        r = I.call(VClass_("RxnEquation", RXN), [net.rx(i)])
        fine = lambda t: z3.Implies(z3.And(t >= 0, t < net.nst(i) - 1), same_counts(i, 0, t + 1))
        try:
            ok = U.method(r, "check_conservation")
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "ValueError"), "kind of the error")
            U.never(fine, "only unbalanced equations are refused")
            return
        U.prove(z3.BoolVal(ok is True), "balanced equations pass")
        U.forall(net.nst(i) - 1, fine, "every state has the counts of the first")
    P.unit("RxnEquation.check_conservation", equation, con3, {},
           expect=["kind of the error", "only unbalanced equations are refused", "balanced equations pass",
                   "every state has the counts of the first"])


n_atoms = z3.Function("n_atoms", I_, I_, S, R_)
n_sites = z3.Function("n_sites", I_, I_, S, R_)
for _f in ("n_atoms", "n_sites"):
    T.schema(_f, lambda a: [a >= 0])

# ------------------------------------------------------------------ C04
accepted = z3.Function("accepted", I_, B_)
contains_dash = z3.Function("contains<->", S, B_)


def kind(t):
    """The list that holds a species text: gas, liquid, transition states, adsorbates or none."""
    x, sp = net.siteof(t), net.speciesof(t)
    g, l = x == lit("g"), x == lit("l")
    n = z3.Not(z3.Or(g, l))
    return dict(gas=g, liquid=l, ts=z3.And(n, contains_dash(sp)),
                adsorbate=z3.And(n, z3.Not(contains_dash(sp)), z3.Not(net.contains_star(sp))))


def written(t, pick):
    """How often a formula for which pick holds is written in the reactions."""
    i, st, k = z3.Int("w!i"), z3.Int("w!s"), z3.Int("w!k")
    one = z3.If(pick(net.ss(i, st, k), t), z3.RealVal(1), z3.RealVal(0))
    return T.make_fold("sum", net.NR, i, T.make_fold("sum", net.nst(i), st, T.make_fold(
        "sum", net.nf(i, st), k, one)))


def c04(P):
    con = dict(net.contracts())

    def check(I, self, a, k):
        if I.decide(accepted(self.attrs["ghost_i"])):
            return True
        raise PyRaise("ValueError", "", ("Exception", "BaseException"))
    con["RxnEquation.check_conservation"] = check

    def inventory(U):
        I, s = U.I, U.s
        net.base_facts(I)
        o = net.Owner(I, {})
        p = I.obj(net.cls("scaks/parsers/parser_base.py", "ParserBase"), {"_owner": o.obj})
        try:
            r = U.method(p, "parse_elementary_rxns", [o.attrs["rxn_expressions"]])
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "ValueError"), "kind of the error")
            U.never(lambda i: z3.Implies(z3.And(i >= 0, i < net.NR), accepted(i)),
                    "only unbalanced reactions are refused")
            return
        U.forall(net.NR, accepted, "every reaction is balanced")
        ads, gas, liq, sit, ts, rxns = [I.getitem(r, q) for q in range(6)]
        u = z3.Const("a_species", S)
        for name, l in (("gas", gas), ("liquid", liq), ("ts", ts), ("adsorbate", ads)):
            ordered(U, l, name)
            w = written(u, lambda x, t: z3.And(x == t, kind(x)[name]))
            U.prove(_has(I, u, l) == (w >= 1), name + ": exactly the species of this kind")
        ordered(U, sit, "site")
        x = z3.Const("a_site", S)
        w = written(x, lambda y, t: z3.And(
            T.cat(lit("*_"), net.siteof(y)) == t, net.siteof(y) != lit("g"), net.siteof(y) != lit("l")))
        U.prove(_has(I, x, sit) == (w >= 1), "site: exactly the site types in use")
        # the reactions, states and formulas in order
        U.prove(I.length(rxns) == net.NR, "one entry per reaction")

        def rxn(i):
            l = I.seq_at(rxns, i)
            U.prove(T.integer(I.length(l)) == net.nst(i), "every state of a reaction")

            def state(st):
                q = I.seq_at(l, st)
                U.prove(T.integer(I.length(q)) == net.nf(i, st), "every formula of a state")

                def form(k):
                    f = I.seq_at(q, k)
                    U.prove(as_S(I.call(I.getattr(f, "species_site"), [])) == net.ss(i, st, k),
                            "formulas in order")
                    U.prove(I.call(I.getattr(f, "stoichiometry"), []) == net.stoich(i, st, k),
                            "formulas in order")
                U.each(net.nf(i, st), form, "k")
            U.each(net.nst(i), state, "s")
        U.each(net.NR, rxn, "i")

    labels = ["kind of the error", "only unbalanced reactions are refused", "every reaction is balanced",
              "one entry per reaction", "every state of a reaction", "every formula of a state",
              "formulas in order", "site: exactly the site types in use"]
    for name in ("gas", "liquid", "ts", "adsorbate", "site"):
        labels += [name + ": sorted", name + ": without duplicates"]
    labels += [name + ": exactly the species of this kind" for name in ("gas", "liquid", "ts", "adsorbate")]
    P.unit("ParserBase.parse_elementary_rxns", inventory, con, {}, expect=labels)


    def load(U):
        I, s = U.I, U.s
        net.base_facts(I)
        what = {}
        names = ("adsorbate_names", "gas_names", "liquid_names", "site_names", "transition_state_names",
                 "elementary_rxns_list")
        rx = net.rxn_expressions()

        def parse(I, o, a, k):
            what["asked"] = a[0]
            return tuple(z3.Const("value_of_" + x, S) for x in names)
        parser = Opq(Spec("parser", methods={"parse_elementary_rxns": parse}), z3.Const("parser", S))
        m = I.obj(net.cls("scaks/models/kinetic_model.py", "KineticModel"), {"log_allowed": False})
        d = I.new(SDict())
        for key, v in (("rxn_expressions", rx), ("parser", parser), ("solver", None)):
            I.dict_set(d, key, v)
        U.method(m, "_load", [d])
        U.prove(z3.BoolVal(what.get("asked") is rx), "the expressions of the setup are parsed")
        for x in names:
            U.prove(as_S(I.getattr(m, x)) == z3.Const("value_of_" + x, S), "each list is the parsed one")
    con2 = {"KineticModel.__mro_class_attrs": lambda I, self, a, k: ("rxn_expressions", "parser", "solver")}
    P.unit("KineticModel._load", load, con2, {}, expect=["the expressions of the setup are parsed",
                                                         "each list is the parsed one"])


def _has(I, t, l):
    h = I.contains(t, l)
    return z3.BoolVal(h) if isinstance(h, bool) else h


def ordered(U, l, name):
    I, s = U.I, U.s
    n = T.integer(I.length(l))
    at = lambda j: as_S(I.seq_at(l, j))
    U.forall(n - 1, lambda j: bm.precedes(at(j), at(j + 1)), name + ": sorted")
    a, b = z3.Int("x!a"), z3.Int("x!b")
    U.prove(z3.Implies(z3.And(a >= 0, a < b, b < n), at(a) != at(b)), name + ": without duplicates")


# ------------------------------------------------------------------ C03
composition = z3.Function("composition", S, I_)


def c03(P):
    def conserve(I, self, a, k):
        t, u = [as_S(I.call(I.getattr(x, "chem_state"), [])) for x in (self, a[0])]
        if I.decide(composition(t) == composition(u)):
            return True
        raise PyRaise("ValueError", "", ("Exception", "BaseException"))

    def arrows(t):
        """The text between the states."""
        return ["".join(x for x in p.split(" ")) for p in parts_of(t) if isinstance(p, str) and p.strip()]

    def reverse(U, three):
        I = U.I
        e, states = equation_text(U, three)
        r = I.call(VClass_("RxnEquation", RXN), [e])
        v = U.method(r, "revert")
        got = U.method(v, "tolist")
        U.prove(z3.BoolVal(I.length(got) == len(states)), "as many states")
        for k, x in enumerate(reversed(states)):
            same(U, U.method(I.getitem(got, k), "chem_state"), x, "states in the opposite order")
        U.prove(z3.BoolVal(arrows(U.method(v, "rxn_equation")) == (["<->", "->"] if three else ["->"])),
                "arrow kinds")
        back = U.method(U.method(v, "revert"), "tolist")
        U.prove(z3.BoolVal(I.length(back) == len(states)), "reversing twice")
        for k, x in enumerate(states):
            same(U, U.method(I.getitem(back, k), "chem_state"), x, "reversing twice")
        # the reverse is balanced when the reaction is
        ok = z3.And(*[composition(x) == composition(states[0]) for x in states])
        try:
            U.method(v, "check_conservation")
        except PyRaise as e:
            U.prove(z3.And(z3.BoolVal(e.name == "ValueError"), z3.Not(ok)), "balanced exactly when the reaction is")
            return
        U.prove(ok, "balanced exactly when the reaction is")
    for three in (False, True):
        P.unit("RxnEquation.revert, %d states" % (3 if three else 2), lambda U, three=three: reverse(U, three),
               {"ChemState.conserve": conserve}, {},
               expect=["as many states", "states in the opposite order", "arrow kinds", "reversing twice",
                       "balanced exactly when the reaction is"])


# ------------------------------------------------------------------ C36
def c36(P):
    P.assumption("names and expressions have no quotes, backslashes or line ends (documented grammar)")
    import datatext

    def model(U):
        I = U.I
        net.base_facts(I)
        I.files = I.lst(())
        attrs = dict(rxn_expressions=net.rxn_expressions(), gas_names=net.GAS.seq(), liquid_names=net.LIQ.seq(),
                     adsorbate_names=net.ADS.seq(), transition_state_names=net.TS.seq(),
                     site_names=net.SITES.seq())
        return I.obj(net.cls("scaks/models/kinetic_model.py", "KineticModel"), attrs)

    def written(U):
        """All text written to the file."""
        text = []
        for g in U.I.segments(U.I.files):
            if not isinstance(g, tuple):
                raise Unsupported("files written in a loop")
            for name, mode, x in g:
                same(U, name, "the_file", "only the file asked for")
                text = [x] if mode == "w" else text + [x]
        return rope(*text)

    def lines(text):
        """Lines without blanks around them, unknown texts as numbered marks."""
        src, holes = "", []
        for p in parts_of(text):
            if isinstance(p, str):
                src += p
            elif is_z3(p) and p.sort() == S:
                src += "\0%d\0" % len(holes)
                holes.append(p)
            else:
                raise Unsupported("template of other parts")
        return [l.strip() for l in src.split("\n") if l.strip()], holes

    def relative(U):
        I = U.I
        U.method(model(U), "generate_relative_energies_file", ["the_file"])
        text = written(U)
        # filled in: every empty append gets a number
        def filled(ps):
            out = []
            for p in parts_of(ps):
                if isinstance(p, str):
                    out.append(p.replace(".append()", ".append(1)"))
                elif isinstance(p, FoldPart):
                    f = FoldPart(p.n, p.var, [(c, filled(r)) for c, r in p.cases], p.sep)
                    if getattr(p, "joined", False):
                        f.joined = True
                    out.append(f)
                else:
                    out.append(p)
            return rope(*out)
        r = datatext.read(I, filled(text))
        for x in ("Ga", "dG"):
            U.prove(T.integer(I.length(r.var(x))) == net.NR, "one entry per reaction")
        # the text of each reaction
        loops = [p for p in parts_of(text) if isinstance(p, FoldPart)]
        other = rope(*[p for p in parts_of(text) if not isinstance(p, FoldPart)])
        U.prove(z3.BoolVal(len(loops) == 1 and not any("append" in l for l in lines(other)[0])),
                "one piece of text per reaction")
        f = loops[0]
        U.prove(f.n == net.NR, "one piece of text per reaction")
        i = T.fresh_index("i")
        U.s.assume(z3.And(i >= 0, i < net.NR))
        for c, x in f.cases:
            ls, holes = lines(subst(x, [(f.var, i)]))
            head = ls[0][1:].strip() if ls and ls[0].startswith("#") else ""
            U.prove(z3.BoolVal(head == "\0" + "0\0" and len(holes) == 1 and
                               sorted(ls[1:]) == ["Ga.append()", "dG.append()"]),
                    "its expression, one Ga and one dG entry")
            U.prove(holes[0] == net.rx(i) if holes else z3.BoolVal(False), "in the order of the reactions")
    P.unit("KineticModel.generate_relative_energies_file", relative, {}, {},
           expect=["only the file asked for", "one entry per reaction", "one piece of text per reaction",
                   "its expression, one Ga and one dG entry", "in the order of the reactions"])

    def absolute(U):
        I = U.I
        U.method(model(U), "generate_absolute_energies_file", ["the_file"])
        r = datatext.read(I, written(U))
        d = r.var("absolute_energies")
        t = z3.Const("a_name", S)
        U.prove(_has(I, t, d) == z3.Or(*[N.has(t) for N in (net.GAS, net.LIQ, net.ADS, net.TS, net.SITES)]),
                "exactly the species and sites of the model")
        for N in (net.GAS, net.LIQ, net.ADS, net.TS, net.SITES):
            U.each(N.n, lambda i, N=N: U.prove(real(I.getitem(d, N.name(i))) == 0, "the energy is zero"))
    P.unit("KineticModel.generate_absolute_energies_file", absolute, {}, {},
           expect=["only the file asked for", "exactly the species and sites of the model", "the energy is zero"])


PROPS = {"C36": c36, "C02": c02, "C01": c01, "C04": c04, "C03": c03}
