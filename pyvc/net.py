"""Ghost model of a reaction network: any number of reactions, each with two or three
states of at least one formula.  Formula k of state s of reaction i has coefficient
stoich(i,s,k) and species-with-site text ss(i,s,k); site, species and site count are
functions of that text.  Name lists of the model are sequences without repetition."""
import z3

import terms as T
from terms import S, lit, is_z3, real, integer, fresh_name
from session import Unsupported
from values import *          # noqa
from values import DictBase
import source

I_ = z3.IntSort()
R_ = z3.RealSort()
B_ = z3.BoolSort()

NR = z3.Int("NR")
nst = z3.Function("nst", I_, I_)
nf = z3.Function("nf", I_, I_, I_)
stoich = z3.Function("stoich", I_, I_, I_, I_)
ss = z3.Function("ss", I_, I_, I_, S)
siteof = z3.Function("siteof", S, S)
speciesof = z3.Function("speciesof", S, S)
nsiteof = z3.Function("nsiteof", S, I_)
contains_star = z3.Function("contains<*>", S, B_)
rx = z3.Function("rx", I_, S)
ridx = z3.Function("ridx", S, I_)
T.INVERSE["rx"] = lambda t: T.undo("rx", ridx, t)
T.INDEXED["rx"] = 0
T.INDEXED["nst"] = 0
T.INDEXED["nf"] = 0
T.INDEXED["ss"] = 0

T.schema("nst", lambda a: [a >= 2, a <= 3])
T.schema("nf", lambda a: [a >= 1])
T.schema("stoich", lambda a: [a >= 1])
T.schema("nsiteof", lambda a: [a >= 1])
# (out of range the texts are any other ones without repetition)
T.schema("rx", lambda a: [ridx(a) == a.arg(0)])
T.schema("ridx", lambda a: [z3.Implies(z3.And(a >= 0, a < NR), rx(a) == a.arg(0))])


KINDS = {}
kindof = z3.Function("kindof", S, I_)


class Names(object):
    """A list of names without repetition."""

    def __init__(self, tag):
        self.tag = tag
        self.n = z3.Int("N" + tag)
        self.name = z3.Function("name" + tag, I_, S)
        f = z3.Function("idx" + tag, S, I_)
        self.idx = lambda t: T.undo("name" + tag, f, t)
        T.INVERSE["name" + tag] = self.idx
        T.INDEXED["name" + tag] = 0
        n, name, idx = self.n, self.name, f
        self.kind = kind = KINDS.setdefault(tag, len(KINDS) + 1)
        # out of range the names are any other texts without repetition
        T.schema("name" + tag, lambda a: [idx(a) == a.arg(0), z3.Implies(
            z3.And(a.arg(0) >= 0, a.arg(0) < n), kindof(a) == kind)])
        T.schema("idx" + tag, lambda a: [] if a.arg(0).decl().name() == "name" + tag else [
            z3.Implies(z3.And(a >= 0, a < n), z3.And(name(a) == a.arg(0), kindof(a.arg(0)) == kind))])

    def seq(self):
        return GSeq(self.n, lambda i: self.name(integer(i)), self.tag, True, self.idx, open_=False)

    def has(self, t):
        return z3.And(self.idx(t) >= 0, self.idx(t) < self.n)


SITES, ADS, GAS, LIQ, TS = Names("site"), Names("ads"), Names("gas"), Names("liq"), Names("ts")


# inventory contract (C04): what each list holds; a name is in one list at most
def kind_facts(t):
    k = kindof(t)
    out = [z3.Implies(k == GAS.kind, siteof(t) == lit("g")),
           z3.Implies(k == LIQ.kind, siteof(t) == lit("l")),
           z3.Implies(z3.Or(k == SITES.kind, k == ADS.kind, k == TS.kind),
                      z3.And(siteof(t) != lit("g"), siteof(t) != lit("l"))),
           z3.Implies(k == SITES.kind, t == T.cat(lit("*_"), siteof(t)))]
    return out


T.schema("siteof", lambda a: kind_facts(a.arg(0)) + [
    z3.Implies(z3.Or(kindof(a.arg(0)) == ADS.kind, kindof(a.arg(0)) == TS.kind),
               SITES.has(T.cat(lit("*_"), a)))] if a.arg(0).decl().name() != "cat" else [])
T.schema("contains<*>", lambda a: [
    z3.Implies(kindof(a.arg(0)) == SITES.kind, a),
    z3.Implies(z3.Or(*[kindof(a.arg(0)) == N.kind for N in (ADS, GAS, LIQ, TS)]), z3.Not(a))])


def in_lists(t):
    """C04: the list that holds a species text."""
    g, l, star = siteof(t) == lit("g"), siteof(t) == lit("l"), contains_star(t)
    return z3.And(z3.Implies(g, GAS.has(t)), z3.Implies(z3.And(l, z3.Not(g)), LIQ.has(t)),
                  z3.Implies(z3.And(z3.Not(g), z3.Not(l), star), SITES.has(t)),
                  z3.Implies(z3.And(z3.Not(g), z3.Not(l), z3.Not(star)), ADS.has(t)))


# every species written in an end state of a reaction is in its list
T.schema("ss", lambda a: [z3.Implies(
    z3.And(a.arg(0) >= 0, a.arg(0) < NR, z3.Or(a.arg(1) == 0, a.arg(1) == nst(a.arg(0)) - 1),
           a.arg(2) >= 0, a.arg(2) < nf(a.arg(0), a.arg(1))), in_lists(a))])


def base_facts(I):
    s = I.s
    s.assume(NR >= 1)
    for N in (SITES, ADS, GAS, LIQ, TS):
        s.assume(N.n >= 0)


def cls(path, name):
    return source.get_class(path, name)


RXN = "scaks/parsers/rxn_parser.py"


def formula_of_text(I, t):
    """ChemFormula of a name text."""
    o = VObj(cls(RXN, "ChemFormula"), {}, None)

    def lazy(name):
        return {"_ChemFormula__species_site": (t,), "_ChemFormula__formula": (t,),
                "_ChemFormula__stoich": (1,), "_ChemFormula__species": (speciesof(t),),
                "_ChemFormula__site": (siteof(t),), "_ChemFormula__nsite": (nsiteof(t),)}.get(name)
    o.lazy = lazy
    o.frozen = True
    return o


def formula(i, s, k):
    o = VObj(cls(RXN, "ChemFormula"), {}, None)
    t = ss(i, s, k)

    def lazy(name):
        return {"_ChemFormula__species_site": (t,),
                "_ChemFormula__stoich": (stoich(i, s, k),),
                "_ChemFormula__species": (speciesof(t),),
                "_ChemFormula__site": (siteof(t),),
                "_ChemFormula__nsite": (nsiteof(t),)}.get(name)
    o.lazy = lazy
    o.frozen = True
    return o


def state_list(i, s):
    l = SList(GSeq(nf(i, s), lambda k: formula(i, s, integer(k)), "formulas"))
    l.frozen = True
    l.ident = (integer(i), integer(s))
    return l


def states_of(i):
    l = SList(GSeq(nst(i), lambda s: state_list(i, integer(s)), "states"))
    l.frozen = True
    return l


def rxns_list():
    l = SList(GSeq(NR, lambda i: states_of(integer(i)), "rxns", open_=False))
    return l


def rxn_expressions():
    return GSeq(NR, lambda i: rx(integer(i)), "rxn_expressions", True, ridx, open_=False)


def state_obj(i, s):
    o = VObj(cls(RXN, "ChemState"), {"ghost_i": i, "ghost_s": s}, None)
    o.frozen = True
    return o


def chem_states(i):
    l = SList(GSeq(nst(i), lambda s: state_obj(i, integer(s)), "states"))
    l.frozen = True
    return l


def index_of_text(I, t):
    """Index of a reaction expression of the model."""
    t = as_S(t)
    if z3.is_app(t) and t.decl().name() == "rx":
        return t.arg(0)
    i = ridx(t)
    if not I.decide(z3.And(i >= 0, i < NR)):
        raise Unsupported("a reaction expression that is not of the model")
    return i


def c_rxnequation(I, self, args, kwargs):
    t = args[0] if args else kwargs["rxn_equation"]
    o = VObj(cls(RXN, "RxnEquation"), {"ghost_i": index_of_text(I, t),
                                       "_RxnEquation__rxn_equation": t}, None)
    return I.new(o)


def c_tolist(I, self, args, kwargs):
    return I.new(SList(chem_states(self.attrs["ghost_i"]).seq))


def c_state_tolist(I, self, args, kwargs):
    return I.new(SList(state_list(self.attrs["ghost_i"], self.attrs["ghost_s"]).seq))


def c_formula_list(I, self, args, kwargs):
    return I.new(SList(states_of(self.attrs["ghost_i"]).seq))


def c_chemformula(I, self, args, kwargs):
    t = args[0] if args else kwargs["formula"]
    return formula_of_text(I, as_S(t))


def contracts():
    return {"RxnEquation": c_rxnequation, "RxnEquation.tolist": c_tolist,
            "ChemState.tolist": c_state_tolist, "RxnEquation.to_formula_list": c_formula_list,
            "ChemFormula": c_chemformula}


# ------------------------------------------------------------------ the owner
def lookup(tag):
    """A dict from names to numbers given by the user: has/get functions."""
    has = z3.Function("has_" + tag, S, B_)
    get = z3.Function("get_" + tag, S, R_)
    return has, get


class Owner(object):
    """The model seen by a parser or solver."""

    def __init__(self, I, extra=None):
        extra = dict(extra or {})
        attrs = dict(rxn_expressions=rxn_expressions(), elementary_rxns_list=rxns_list(),
                     site_names=SITES.seq(), adsorbate_names=ADS.seq(), gas_names=GAS.seq(),
                     liquid_names=LIQ.seq(), transition_state_names=TS.seq(),
                     log_allowed=False)
        attrs.update(extra)
        self.obj = I.obj(None, {})
        self.obj.lazy = lambda name: (attrs[name],) if name in attrs else None
        self.attrs = attrs


def user_dict(I, has, get, keys=None):
    """A dict of the user: has/get functions over the key text."""
    d = SDict(DictBase(lambda k: has(as_S(k)), lambda k: get(as_S(k)), keys))
    d.frozen = True
    return I.new(d)


pressure = z3.Function("pressure", S, R_)
concentration = z3.Function("concentration", S, R_)
total = z3.Function("total", S, R_)


def species_definitions(I):
    """Validated definitions: gases have a pressure, liquids a concentration, sites a
    total coverage (check_species_definitions)."""
    fields = (("pressure", GAS, pressure), ("concentration", LIQ, concentration),
              ("total", SITES, total))

    def entry(t):
        def has(f):
            if not isinstance(f, str):
                raise Unsupported("field of a definition")
            for name, N, fn in fields:
                if f == name:
                    return N.has(t)
            return z3.Function("has_field<%s>" % f, S, B_)(t)

        def get(f):
            for name, N, fn in fields:
                if f == name:
                    return fn(t)
            return z3.Function("field<%s>" % f, S, R_)(t)
        d = SDict(DictBase(has, get))
        d.frozen = True
        return d
    d = SDict(DictBase(lambda k: z3.Or(*[N.has(as_S(k)) for N in (GAS, LIQ, SITES)]),
                       lambda k: entry(as_S(k))))
    d.frozen = True
    return d
