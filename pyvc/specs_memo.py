"""Contracts on memoized results: they are those of the model and the arguments (C11)."""
import ast

import z3

import net
from net import *             # noqa
import terms as T
from terms import S, lit, real, integer, fresh_index
from values import *          # noqa
from session import Unsupported
from interp import Env
from builtins_model import Builtin, VType, pyraise
import source
import specs_rates as R
from specs_rates import SS, MF, SB, solver, rate_solver, coverages

DESC = "scaks/descriptors/descriptors.py"


# ------------------------------------------------------------------ frames
class FrameUnit(object):
    """A unit of another property of which only the frame is asked here: the method changes
    nothing that was there before the call."""

    def __init__(self, U, warm):
        self.U, self.I, self.s, self.name, self.P, self.warm = U, U.I, U.s, U.name, U.P, warm

    def prove(self, *a, **k):
        pass
    forall = each = never = fail = prove

    def function(self, *a, **k):
        return self.U.function(*a, **k)

    def method(self, obj, name, args=(), kwargs=None):
        I = self.I
        if self.warm:
            # the expressions may have been asked before
            self.U.method(obj, self.warm)
        mark, at = self.s.serial, len(I.mutlog)
        try:
            return self.U.method(obj, name, args, kwargs)
        finally:
            changed = [(k, o, n) for k, o, n in I.mutlog[at:]
                       if o.serial <= mark and not isinstance(o, Env)]
            self.U.prove(z3.BoolVal(not changed), "changes nothing that was there before")


class Frames(object):
    def __init__(self, P, only, warm=None):
        self.P, self.only, self.warm = P, only, warm

    def assumption(self, text):
        self.P.assumption(text)

    def unit(self, name, thunk, contracts=None, externals=None, timeout=6000, expect=()):
        if not any(x in name for x in self.only):
            return
        warm = self.warm if "steady_state_function" in name else None
        self.P.unit(name, lambda U: thunk(FrameUnit(U, warm)), contracts, externals, timeout,
                    expect=["changes nothing that was there before"])


# ------------------------------------------------------------------ memoized results
ENER = Spec("energies", types=("dict",))
nonempty = z3.Function("has_entries", S, B_)
ENER.truth = lambda I, o: nonempty(o.term)
ENER.attrs["is_none"] = lambda I, o: False
NONE = lit("None")


def term(x):
    """The term that stands for the content of a value."""
    if isinstance(x, Opq) and x.spec in (ENER, KEYVAL):
        return x.term
    if x is None:
        return NONE
    if isinstance(x, bool):
        return lit(str(x))
    if isinstance(x, (int, str)) or is_text(x):
        return as_S(x) if is_text(x) else lit(repr(x))
    raise Unsupported("part of a key: %r" % (x,))


KEYVAL = Spec("hashable dict or list", types=("HashableDict",), truth=lambda I, o: nonempty(o.term),
              attrs={"is_none": lambda I, o: False})


def hashable(I, a, k):
    """HashableDict(x), HashableList(x): equal to x (dict and list compare their content)."""
    v = a[0]
    if isinstance(v, Opq) and v.spec in (ENER, KEYVAL):
        return Opq(KEYVAL, v.term)
    if isinstance(v, SDict):
        copy = I.call(I.getattr(v, "copy"), [])

        def store(I, o, a, k):
            I.dict_set(copy, a[0], a[1])
        return Opq(Spec("key", types=("HashableDict",),
                        methods={"__setitem__": store,
                                 "get": lambda I, o, a, k: I.call(I.getattr(copy, "get"), a, k)},
                        getitem=lambda I, o, x: I.getitem(copy, x),
                        contains=lambda I, o, x: I.contains(x, copy), truth=lambda I, o: True),
                   None, copy)
    raise Unsupported("hashable %r" % (v,))


def parts(I, key):
    """(name, term) of the entries of a key."""
    if not (isinstance(key, Opq) and isinstance(key.data, SDict)):
        raise Unsupported("key %r" % (key,))
    d = key.data
    if d.base is not None:
        raise Unsupported("key of unknown entries")
    out = {}
    for L in d.layers:
        if L.kind != "set" or L.binders or not isinstance(L.key[0], str):
            raise Unsupported("entries of a key")
        out[L.key[0]] = term(L.val)
    return sorted(out.items())


class Signature(object):
    """inspect.signature(f) for a function of the repository."""

    def __init__(self, f):
        self.f = f

    def value(self):
        def bind(I, o, a, k):
            node = self.f.node
            args = dict(a=I.bind(VFunc(node, self.f.module, self.f.cls), list(a), dict(k)), given=list(a), kw=dict(k))
            names = [x.arg for x in node.args.args]
            given = set(names[:len(a)]) | set(k)
            state = I.obj(None, {})
            d = I.new(SDict())
            for n in names:
                if n in given:
                    I.dict_set(d, n, args["a"][n])
            I.set_attr(state, "arguments", d)

            def defaults(I, a2, k2):
                full = I.new(SDict())
                for n in names:
                    I.dict_set(full, n, args["a"][n])
                I.set_attr(state, "arguments", full)
            I.set_attr(state, "apply_defaults", Builtin(defaults))
            return state
        return Opq(Spec("signature", methods={"bind": bind}))


def memo(P, path, cls, name, calls, energies_of):
    """Memoized over the contract of one function: with a table of any earlier results, a call
    gives what the function gives for this instance, these arguments and the present energies."""
    now = z3.Const("energies_now", S)
    ext = {DESC + ":HashableDict": Builtin(hashable), DESC + ":HashableList": Builtin(hashable),
           "inspect.signature": Builtin(lambda I, a, k: Signature(a[0]).value())}
    mine = {}

    def run(U, kw):
        I, s = U.I, U.s
        ci = source.get_class(path, cls)
        c, node = ci.lookup(name)
        decs = [d for d in node.decorator_list]
        if len(decs) != 1:
            raise Unsupported("decorators of " + name)
        names = [x.arg for x in node.args.args][1:]
        memoized = I.eval(decs[0], Env(I, c.module, c))
        f = VFunc(node, c.module, c)
        d = I.call(memoized, [f])
        owner = I.obj(None, {"relative_energies": Opq(ENER, now)})
        other = I.obj(ci, {"_owner": I.obj(None, {"relative_energies": Opq(ENER, z3.Const("energies_of_another", S))})})
        m = I.obj(ci, {"_owner": owner})
        who = {id(m): z3.Const("this_instance", S), id(other): z3.Const("another_instance", S)}

        def result(inst, terms):
            g = z3.Function("result_of_" + name, *([S]*(len(terms) + 2)))
            return g(inst, *terms)

        def effective(args):
            """Terms of the arguments the result depends on."""
            out = []
            for n in names:
                if n == "log":
                    continue
                t = term(args[n])
                if energies_of and n == "relative_energies":
                    t = z3.If(z3.Or(t == NONE, z3.Not(nonempty(t))), now, t)
                out.append(t)
            return out
        if energies_of:
            s.assume(z3.Not(nonempty(NONE)))
            for x in [now] + [v.term for v in kw.values() if isinstance(v, Opq)]:
                s.assume(NONE != x)

        def contract(I, self, a, k):
            args = I.bind(f if self is None else VFunc(f.node, f.module, f.cls, bound=self), a, k)
            inst = args[f.node.args.args[0].arg]
            if id(inst) not in who:
                raise Unsupported("another object")
            if inst is not m:
                raise Unsupported("the results of another object")
            if energies_of:
                e = term(args["relative_energies"])
                if I.decide(z3.Not(nonempty(z3.If(z3.Or(e == NONE, z3.Not(nonempty(e))), now, e)))):
                    pyraise("AttributeError", "no energies")
            return Opq(RESULT, result(who[id(inst)], effective(args)))
        I.contracts[cls_of(c) + "." + name] = contract

        def holds(entries, value, inst):
            """The invariant of the table for one entry."""
            d = dict(entries)
            need = [n for n in names if n != "log"]
            if not all(n in d for n in need):
                return z3.BoolVal(False)
            ok = z3.BoolVal(True)
            if energies_of:
                ok = z3.And(d["relative_energies"] != NONE, nonempty(d["relative_energies"]))
            return z3.And(ok, value == result(inst, [d[n] for n in need]))

        def table(inst):
            """A table of any earlier results that keeps the invariant."""
            over = []

            def find(I, o, key):
                es = parts(I, key)
                for e2, v in reversed(over):
                    if [n for n, _ in e2] == [n for n, _ in es] and \
                            I.decide(z3.And(*[x == y for (_, x), (_, y) in zip(es, e2)])):
                        return True, v
                tag = "_".join(n for n, _ in es)
                ts = [t for _, t in es]
                has = z3.Function("earlier<%s>" % tag, *([S]*(len(ts) + 1) + [B_]))
                at = z3.Function("result<%s>" % tag, *([S]*(len(ts) + 1) + [S]))
                if I.decide(has(inst, *ts)):
                    v = at(inst, *ts)
                    if set(names) - {"log"} <= {n for n, _ in es}:
                        I.s.assume(holds(es, v, inst))
                        I.check_feasible()
                    return True, Opq(RESULT, v)
                return False, None

            def getitem(I, o, key):
                ok, v = find(I, o, key)
                if not ok:
                    pyraise("KeyError")
                return v

            def get(I, o, a, k):
                ok, v = find(I, o, a[0])
                return v if ok else (a[1] if len(a) > 1 else None)

            def store(I, o, a, k):
                key, v = a
                if not (isinstance(v, Opq) and v.spec is RESULT):
                    raise Unsupported("stored %r" % (v,))
                es = parts(I, key)
                U.prove(holds(es, v.term, inst), "a stored result is that of its key, whatever the energies later")
                over.append((es, v))
                I.s.log(over.pop)
            return Opq(Spec("memo table", methods={"__setitem__": store, "get": get},
                            getitem=getitem, contains=lambda I, o, x: find(I, o, x)[0],
                            truth=lambda I, o: True))

        def ask(inst, kwargs):
            return I.call(I.call(I.getattr(d, "__get__"), [inst, None]), [], dict(kwargs))
        # a first call shows where the results are kept
        mark, at = s.serial, len(I.mutlog)
        first = {n: Opq(ENER, z3.Const("first_energies", S)) if n == "relative_energies" else
                 z3.Const("first_" + n, S) for n in kw if n != "log"}
        if energies_of:
            s.assume(z3.And(nonempty(now), nonempty(z3.Const("first_energies", S)),
                            z3.Const("first_energies", S) != NONE))
        before = set(m.attrs)
        r0 = ask(m, first)
        log = [(o, n) for k, o, n in I.mutlog[at:] if o.serial <= mark and not isinstance(o, Env)]
        U.prove(z3.BoolVal(all(o is m and n not in before for o, n in log)),
                "results are kept by the instance itself")
        tables = [n for n in m.attrs if n not in before and isinstance(m.attrs[n], SDict)]
        if set(m.attrs) - before - set(tables):
            raise Unsupported("state of memoized results")
        # a later call, with energies changed and any other calls in between
        for n in tables:
            I.set_attr(m, n, table(who[id(m)]))
        r = ask(m, kw)
        full = I.bind(VFunc(f.node, f.module, f.cls), [m], dict(kw))
        U.prove(r.term == result(who[id(m)], effective(full)) if isinstance(r, Opq) and r.spec is RESULT
                else z3.BoolVal(False), "the result is that of this instance, these arguments and these energies")
    for title, kw in calls:
        P.unit("Memoized %s(%s)" % (name, title), lambda U, kw=kw: run(U, kw), {}, ext,
               expect=["results are kept by the instance itself",
                       "a stored result is that of its key, whatever the energies later",
                       "the result is that of this instance, these arguments and these energies"])


RESULT = Spec("result")


def cls_of(c):
    return c.name


def c11(P):
    P.assumption("the functions that queries call (rates of one reaction, derivations of one term) have no "
                 "effects other than those their own contracts describe")
    P.assumption("equal arguments (==) stand for the same quantities; results handed out are not changed by "
                 "the caller")

    # keys compare as the dicts and lists they are made of
    def keys(U):
        m = source.Module.get(DESC)
        for n, base in (("HashableDict", "dict"), ("HashableList", "list")):
            ci = source.get_class(DESC, n)
            U.prove(z3.BoolVal([ast.unparse(b) for b in ci.node.bases] == [base] and
                               not set(ci.members) - {"__hash__", "__doc__", "__slots__"} and
                               not m.effects_on(n)), "%s compares as a %s" % (n, base))
    P.unit("keys", keys, {})

    import dyn
    V = z3.Const("given", S)
    COPY = Spec("hashable copy")
    ext = {DESC + ":" + n: Builtin(lambda I, a, k, t=t: Opq(COPY, a[0].term, t))
           for n, t in (("HashableDict", "dict"), ("HashableList", "list"))}

    def make(U):
        v = dyn.val(V)
        r = U.I.call(U.function(DESC, "make_hashable"), [v])
        U.prove(z3.BoolVal(isinstance(r, Opq) and (r is v or r.spec is COPY)), "a value or a hashable copy")
        U.prove(r.term == V, "its content is the value given")
        if r.spec is COPY:
            U.prove(dyn.typed(V, "dict") if r.data == "dict" else dyn.typed(V, "list", "tuple"),
                    "dicts become dicts, sequences lists")
        else:
            U.prove(z3.Not(dyn.typed(V, "dict", "list", "tuple")), "unhashable values do not stay")
    P.unit("make_hashable", make, {}, ext, expect=["its content is the value given",
                                                   "dicts become dicts, sequences lists",
                                                   "unhashable values do not stay"])

    e1 = Opq(ENER, z3.Const("energies_given", S))
    memo(P, SS, "SteadyStateSolver", "get_rate_constants",
         [("", {}), ("None", {"relative_energies": None}), ("energies", {"relative_energies": e1}),
          ("energies, log", {"relative_energies": e1, "log": True}), ("log", {"log": True})], True)
    memo(P, SS, "SteadyStateSolver", "poly_adsorbate_derivation",
         [("", {"adsorbate_name": z3.Const("an_adsorbate", S), "poly_expression": z3.Const("a_sum", S)})], False)

    expressions(P)

    # a query reads the energies of its call (or the model's) and changes nothing
    R.rate_constants(Frames(P, ["given)", "own)"]), "TST", None, ())
    R.rate_constants(Frames(P, ["given)", "own)"]), "CT", None, ())
    R.c09(Frames(P, ["get_rxn_rates_TST"]))
    R.c10(Frames(P, ["get_rxn_rates_CT"]))
    R.c12(Frames(P, ["get_rates", "get_net_rates"]))
    R.c13(Frames(P, ["get_elementary", "get_adsorbate", "steady_state_function", "get_residual"],
                 "get_dtheta_dt_expressions"))
    R.c18(Frames(P, ["get_tof(own energies, all", "get_tof(given energies, all", "energies, one"]))


def same_texts(U, a, b, label):
    """Two lists of generated texts."""
    I = U.I
    U.prove(integer(I.length(a)) == integer(I.length(b)), label)
    if a is b:
        return

    def same(x, y):
        px, py = parts_of(x), parts_of(y)
        if len(px) != len(py):
            return z3.BoolVal(False)
        out = []
        for u, v in zip(px, py):
            if isinstance(u, Code) and isinstance(v, Code):
                out.append(real(u.value) == real(v.value) if u.prec == v.prec else z3.BoolVal(False))
            elif is_z3(u) and is_z3(v) and u.sort() == v.sort():
                out.append(u == v)
            else:
                out.append(z3.BoolVal(isinstance(u, str) and u == v))
        return z3.And(*out)
    U.forall(I.length(a), lambda i: same(I.getitem(a, i), I.getitem(b, i)), label)


def expressions(P):
    """The kept expressions are those computed; the Jacobian is that of the call."""
    con = net.contracts()
    con["SteadyStateSolver.get_adsorbate_dtheta_dt_expression"] = R.c_adsorbate_dtheta

    def twice(U):
        slv, o = rate_solver(U)
        a = U.method(slv, "get_dtheta_dt_expressions")
        b = U.method(slv, "get_dtheta_dt_expressions")
        same_texts(U, a, b, "asked again, they are the same")
        fresh, _ = rate_solver(U)
        same_texts(U, b, U.method(fresh, "get_dtheta_dt_expressions"), "a fresh solver has the same")
    P.unit("SteadyStateSolver.get_dtheta_dt_expressions", twice, con,
           expect=["asked again, they are the same", "a fresh solver has the same"])

    con2 = net.contracts()
    dtext = z3.Function("dtheta_expression", I_, S)
    dno = z3.Function("no_of_expression", S, I_)
    T.schema("dtheta_expression", lambda a: [dno(a) == a.arg(0)])
    dval = z3.Function("derivative", I_, I_, R_)
    given = [None]
    con2["SteadyStateSolver.get_dtheta_dt_expressions"] = lambda I, self, a, k: I.lst(
        GSeq(ADS.n, lambda j: dtext(integer(j)), "expressions"))
    con2["MeanFieldSolver._cvg_tuple2dict"] = R.c_t2d
    con2["MeanFieldSolver.get_rate_constants"] = R.c_constants(given)

    def c_poly(I, self, a, k):
        v = dict(zip(("adsorbate_name", "poly_expression"), a), **k)
        t, e = as_S(v["adsorbate_name"]), as_S(v["poly_expression"])
        j = ADS.index(t) if not (z3.is_app(t) and t.decl().eq(ADS.name(z3.IntVal(0)).decl())) else t.arg(0)
        return R.code(dval(dno(e), j), "add")
    con2["SteadyStateSolver.poly_adsorbate_derivation"] = c_poly

    def jac(U, own):
        I = U.I
        given[0] = None if own else R.energies(I)
        slv, o = rate_solver(U)
        mark, at = U.s.serial, len(I.mutlog)
        cv = coverages(I)
        J = U.method(slv, "analytical_jacobian", [cv] + ([] if own else [given[0]]))
        changed = [1 for k, x, n in I.mutlog[at:] if x.serial <= mark and not isinstance(x, Env)]
        U.prove(z3.BoolVal(not changed), "changes nothing that was there before")
        i, j = z3.Int("i0"), z3.Int("j0")
        U.s.assume(z3.And(i >= 0, i < ADS.n, j >= 0, j < ADS.n))
        U.prove(real(I.getitem(J, (i, j))) == dval(i, j), "derivatives at these coverages and energies")
    for own in (True, False):
        P.unit("SteadyStateSolver.analytical_jacobian(%s energies)" % ("own" if own else "given"),
               lambda U, own=own: jac(U, own), con2,
               expect=["changes nothing that was there before", "derivatives at these coverages and energies"])


PROPS = {"C11": c11}
