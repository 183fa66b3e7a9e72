"""Contracts on the settings of models: typed, set once, private to the model."""
import ast

import z3

from net import *             # noqa
import terms as T
from terms import S, lit, real, integer, fresh_index
from values import *          # noqa
from session import Unsupported
from interp import Env, is_num, is_text
from builtins_model import Builtin, VType, pyraise
import source
import dyn
from dyn import size, item, number, has_key, at_key, key_no, typed, val
from specs_text import seq_ok

DESC = "scaks/descriptors/descriptors.py"
MODELS = {"MicroKineticModel": "scaks/models/micro_kinetic_model.py",
          "KMCModel": "scaks/models/kmc_model.py"}
LEVELS = [0, 10, 20, 30, 40, 50]
# documented settings: kind of value, candidates, default
COMMON = {
    "setup_file": ("str", None, ""), "setup_dict": ("dict", None, {}),
    "logger_level": ("int", LEVELS, 20), "file_handler_level": ("int", LEVELS, 10),
    "console_handler_level": ("int", LEVELS, 20),
    "temperature": ("float", None, 298.0), "rxn_expressions": ("str*", None, []),
    "species_definitions": ("species", None, {}), "rate_algo": ("str", None, "TST"),
    "unitcell_area": ("float", None, 0.0), "active_ratio": ("float", None, 1.0),
    "components": ("str*", None, ["parser"])}
OWN = {
    "MicroKineticModel": {
        "decimal_precision": ("int", None, 100), "perturbation_size": ("float", None, 0.01),
        "perturbation_direction": ("str", ["right", "left"], "right"),
        "archived_variables": ("str*", None, ["steady_state_coverages"]),
        "numerical_representation": ("str", ["mpmath", "sympy"], "mpmath"),
        "rootfinding": ("str", ["MDNewton", "ConstrainedNewton"], "MDNewton"),
        "tolerance": ("float", None, 1e-8), "max_rootfinding_iterations": ("int", None, 100),
        "ode_buffer_size": ("int", None, 500), "ode_output_interval": ("int", None, 200),
        "ref_energies": ("ref", None, {})},
    "KMCModel": {
        "cell_vectors": ("vectors", None, [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
        "basis_sites": ("vectors", None, [[0.0, 0.0, 0.0]]),
        "repetitions": ("int*", None, (1, 1, 1)), "periodic": ("bool*", None, (True, True, True)),
        "nstep": ("int", None, 1), "random_seed": ("int", None, None),
        "time_seed": ("bool", None, False), "trajectory_dump_interval": ("int", None, 1),
        "random_generator": ("str", ["MT", "MINSTD", "RANLUX24", "RANLUNX48"], "MT"),
        "analysis": ("str*", ["CoveragesAnalysis", "FrequencyAnalysis", "TOFAnalysis",
                              "EventAnalysis"], []),
        "analysis_interval": ("interval", None, None),
        "possible_element_types": ("str*", None, []), "possible_site_types": ("str*", None, []),
        "empty_type": ("str", None, "V"), "tof_start": ("int", None, 0),
        "time_limit": ("float", None, float("inf")), "coverage_ratios": ("float*", None, []),
        "extra_trajectories": ("int*", None, None), "start_time": ("float", None, 0.0),
        "tof_interval": ("float", None, 10), "do_redistribution": ("bool", None, False),
        "redistribution_interval": ("int", None, 1), "fast_species": ("str*", None, None),
        "nsplits": ("int*", None, (1, 1, 1)),
        "distributor_type": ("str", ["RandomDistributor", "ProcessRandomDistributor"],
                             "RandomDistributor")}}
QUERY = {
    "MicroKineticModel": ["log_allowed", "kB", "h", "logger", "elementary_rxns_list", "site_names",
                          "adsorbate_names", "gas_names", "liquid_names", "transition_state_names",
                          "has_relative_energy", "has_absolute_energy", "relative_energies",
                          "absolute_energies", "TOFs", "reversibilities", "error",
                          "steady_state_coverages"],
    "KMCModel": ["log_allowed", "processes", "process_mapping", "process_dicts", "configuration",
                 "sitesmap", "adsorbate_names", "gas_names", "site_names", "relative_energies"]}

# settings that a model of a user may declare
MORE = {
    "a float among some": ("Float('a_float', default=1.0, candidates=[1.0, 2.5])", "float", [1.0, 2.5], 1.0),
    "an int among some": ("Integer('an_int', 3, candidates=[3, 4, 7])", "int", [3, 4, 7], 3),
    "a text": ("String('a_text', default='x')", "str", None, "x"),
    "a flag": ("Bool('a_flag', default=True)", "bool", None, True),
    "a dict": ("Dict('a_dict', default={})", "dict", None, {}),
    "a list": ("Sequence('a_list', default=[1, 2])", "*", None, [1, 2]),
    "a list of texts": ("Sequence('texts', default=['a'], entry_type=str, candidates=['a', 'b'])", "str*",
                        ["a", "b"], ["a"]),
    "a list of ints": ("Sequence('ints', default=[], entry_type=int, candidates=[1, 2])", "int*",
                       [1, 2], []),
    "a matrix": ("FloatList2D('matrix', default=[[1.0]])", "matrix", None, [[1.0]]),
}

GIVEN = z3.Const("given_value", S)
array_fails = z3.Function("array_fails", S, B_)      # numpy.array raises ValueError
array_floats = z3.Function("array_floats", S, B_)    # its dtype is a float type
array_ndim = z3.Function("array_dims", S, I_)
array_shape = z3.Function("array_shape", S, I_, I_)
T.schema("array_dims", lambda a: [a >= 0])
T.schema("array_shape", lambda a: [a >= 0])
checked = z3.Function("checked_by", S, S, B_)        # what C27 proves of the checks


def np_array(I, a, k):
    v = a[0]
    if not (isinstance(v, Opq) and v.spec is dyn.ANY) or k or len(a) > 1:
        raise Unsupported("numpy.array")
    if I.s.decide(array_fails(v.term)):
        pyraise("ValueError", "inhomogeneous")
    floats = I.s.decide(array_floats(v.term))
    dtype = Opq(Spec("dtype", attrs={"kind": lambda I, o: "f" if floats else "O"}))

    def shape(I, o):
        return GSeq(array_ndim(v.term), lambda i: array_shape(v.term, integer(i)))
    return Opq(Spec("array", attrs={"dtype": lambda I, o: dtype, "shape": shape,
                                    "ndim": lambda I, o: array_ndim(v.term)}))


def accepted(kind, cand, t):
    """(facts, fact of every entry): the values that a setting of the kind accepts."""
    def among(x):
        if cand is None:
            return z3.BoolVal(True)
        if isinstance(cand[0], str):
            return z3.Or(*[x == lit(c) for c in cand])
        return z3.Or(*[number(x) == z3.Q(*c.as_integer_ratio()) for c in cand])
    if kind == "*":
        return [typed(t, "list", "tuple")], None
    if kind == "matrix":
        return [typed(t, "list"), z3.Not(array_fails(t)), array_floats(t), array_ndim(t) == 2], None
    if kind.endswith("*"):
        return [typed(t, "list", "tuple")], lambda i: z3.Implies(
            z3.And(i >= 0, i < size(t)), z3.And(typed(item(t, i), kind[:-1]), among(item(t, i))))
    if kind == "float":
        return [typed(t, "int", "float"), among(t)], None
    if kind in ("int", "str", "bool", "dict"):
        return [typed(t, kind), among(t)], None
    if kind == "vectors":
        return [typed(t, "list"), z3.Not(array_fails(t)), array_floats(t), array_ndim(t) == 2,
                array_shape(t, z3.IntVal(1)) == 3], None
    return [checked(lit(kind), t)], None


def plain(x):
    """Constant as Python reads it, for the comparison of defaults."""
    return ast.parse(repr(x), mode="eval").body


def shared(I, a, b):
    """A list or dict that both values contain."""
    def parts(v, out):
        if isinstance(v, Mutable):
            if any(v is o for o in out):
                return
            out.append(v)
        if isinstance(v, SDict):
            if v.base is not None and not isinstance(v.base, (tuple, dict)):
                raise Unsupported("content of a default")
            for L in v.layers:
                parts(L.val, out)
        elif isinstance(v, (SList, tuple)):
            for seg in I.segments(v):
                if not isinstance(seg, tuple):
                    raise Unsupported("content of a default")
                for x in seg:
                    parts(x, out)
    pa, pb = [], []
    parts(a, pa)
    parts(b, pb)
    return [x for x in pa if any(x is y for y in pb)]


def equal(I, a, b):
    if isinstance(b, float) and b == float("inf"):
        return z3.BoolVal(a == b if isinstance(a, float) else repr(a) == repr(b))
    if isinstance(b, SDict):
        return z3.BoolVal(isinstance(a, SDict) and not a.layers and not b.layers)
    r = I.eq(a, b)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def c28(P):
    P.assumption("values are of the built-in types or of unrelated ones (no subclasses)")
    P.assumption("numpy.array says which values are two-dimensional arrays of floats")
    P.assumption("an attribute of a model that is declared in its class is read and set through its "
                 "descriptor (the data model of Python)")
    P.assumption("what the checks of species definitions, reference energies and intervals accept is "
                 "proved with C27")

    def by_check(kind):
        def c(I, a, k):
            if not I.s.decide(checked(lit(kind), a[0].term)):
                pyraise("SetupError")
            return a[0]
        return Builtin(c)
    CU = "scaks/utilities/check_utilities.py:"
    ext = {"numpy.array": Builtin(np_array), CU + "check_species_definitions": by_check("species"),
           CU + "check_ref_energies": by_check("ref"),
           CU + "check_analysis_interval": by_check("interval")}

    def copy_of(I, o, a, k):
        return Opq(STORED, o.term, ("copy", o.data))
    STORED = Spec("stored value", methods={"__deepcopy__": copy_of})

    def lookup(U, cls, name):
        ci = source.get_class(MODELS[cls], cls)
        r = ci.lookup(name)
        if r is None or r[0].module.effects_on(r[0].name):
            raise Unsupported("no setting %s" % name)
        return ci, r

    def declared(U, cls, name):
        """The class, its descriptor of the name (one object for all the models), the private
        names that hold a value."""
        if name in MORE:
            m = source.Module.get(DESC)
            return source.get_class(MODELS[cls], cls), \
                U.I.eval(ast.parse(MORE[name][0], mode="eval").body, Env(U.I, m))
        ci, (c, node) = lookup(U, cls, name)
        if isinstance(node, ast.FunctionDef):
            raise Unsupported("%s is a function" % name)
        d = U.I.eval(node.value, Env(U.I, c.module, c))
        if not isinstance(d, VObj):
            raise Unsupported("%s is no descriptor" % name)
        return ci, d

    def same(U, now, before):
        return set(now) == set(before) and all(now[k] is before[k] for k in now)

    def settings(cls):
        return dict(COMMON, **OWN[cls])

    def no_check(I, self, a, k):
        return None

    for cls in MODELS:
        every = dict(settings(cls), **({n: x[1:] for n, x in MORE.items()} if cls == "KMCModel" else {}))
        for name, (kind, cand, default) in every.items():
            title = "%s.%s" % (cls, name) if name not in MORE else "setting: " + name

            def write(U, cls=cls, name=name, kind=kind, cand=cand):
                I, s = U.I, U.s
                ci, d = declared(U, cls, name)
                m = I.obj(ci)
                before = dict(m.attrs)
                v = val(GIVEN)
                facts, entry = accepted(kind, cand, GIVEN)
                try:
                    I.call(I.getattr(d, "__set__"), [m, v])
                except PyRaise as e:
                    U.prove(z3.BoolVal(e.name in ("ValueError", "SetupError")),
                            "a value is rejected with ValueError or SetupError")
                    U.prove(z3.BoolVal(same(U, m.attrs, before)), "a rejected value changes nothing")
                    ok = z3.Bool("acceptable")
                    for x in facts:
                        s.assume(z3.Implies(ok, x))
                    if entry is not None:
                        s.assume_all(lambda i: z3.Implies(ok, entry(i)))
                    U.prove(z3.Not(ok), "only unacceptable values are rejected")
                    return
                for j, x in enumerate(facts):
                    U.prove(x, "only acceptable values are accepted (%d)" % (j + 1))
                if entry is not None:
                    i = fresh_index("q")
                    U.prove(entry(i), "only acceptable entries are accepted")
                U.prove(z3.BoolVal(len(m.attrs) == 1), "one attribute of the model is set")
                r = I.call(I.getattr(d, "__get__"), [m, None])
                U.prove(z3.BoolVal(isinstance(r, Opq) and r.spec is dyn.ANY) if not isinstance(r, Opq)
                        else r.term == GIVEN, "the value given is read")
                # a second value is never taken
                now = dict(m.attrs)
                w = val(z3.Const("second_value", S))
                try:
                    I.call(I.getattr(d, "__set__"), [m, w])
                    U.fail("a second value is rejected", "accepted")
                except PyRaise as e:
                    U.prove(z3.BoolVal(e.name in ("AttributeError", "ValueError", "SetupError")),
                            "a second value is rejected")
                    facts, entry = accepted(kind, cand, w.term)
                    if e.name != "AttributeError":
                        ok = z3.Bool("acceptable")
                        for x in facts:
                            s.assume(z3.Implies(ok, x))
                        if entry is not None:
                            s.assume_all(lambda i: z3.Implies(ok, entry(i)))
                        U.prove(z3.Not(ok), "an acceptable second value raises AttributeError")
                    else:
                        U.prove(z3.BoolVal(True), "an acceptable second value raises AttributeError")
                U.prove(z3.BoolVal(same(U, m.attrs, now)), "the value given is kept")
            P.unit(title, write, {}, ext, expect=["one attribute of the model is set",
                                                  "the value given is kept",
                                                  "only unacceptable values are rejected"])

            def read(U, cls=cls, name=name, default=default):
                I = U.I
                ci, d = declared(U, cls, name)
                m, other = I.obj(ci), I.obj(ci)
                want = I.eval(plain(default), Env(I, ci.module, ci)) if default != float("inf") \
                    else default
                r = I.call(I.getattr(d, "__get__"), [m, None])
                U.prove(equal(I, r, want), "unset, it reads as its default")
                U.prove(z3.BoolVal(len(m.attrs) <= 1), "reading changes no other attribute")
                q = I.call(I.getattr(d, "__get__"), [other, None])
                U.prove(z3.BoolVal(not shared(I, r, q) and not shared(I, r, I.getattr(d, "default"))),
                        "models share no list or dict of a default")
                again = I.call(I.getattr(d, "__get__"), [m, None])
                U.prove(equal(I, again, want), "read again, it is the default")
                now = dict(m.attrs)
                try:
                    I.call(I.getattr(d, "__set__"), [m, val(GIVEN)])
                except PyRaise as e:
                    U.prove(z3.BoolVal(e.name in ("AttributeError", "ValueError", "SetupError") and
                                       same(U, m.attrs, now)), "set after it was read: it changes or is kept")
                    return
                got = I.call(I.getattr(d, "__get__"), [m, None])
                U.prove(got.term == GIVEN if isinstance(got, Opq) else z3.BoolVal(False),
                        "set after it was read: it changes or is kept")
            P.unit(title + " unset", read, {}, ext, expect=["models share no list or dict of a default"])

    for cls in MODELS:
        def private(U, cls=cls):
            """Every descriptor has an attribute of its own."""
            I = U.I
            used = {}
            for name in list(settings(cls)) + ["parser", "solver", "corrector", "plotter"]:
                ci, d = declared(U, cls, name)
                m = I.obj(ci)
                I.call(I.getattr(d, "__get__"), [m, None])
                used[name] = sorted(m.attrs)
            for name, keys in used.items():
                others = [k for n, k in used.items() if n != name]
                U.prove(z3.BoolVal(len(keys) == 1 and keys not in others),
                        "%s has an attribute of its own" % name)
        P.unit(cls + " settings", private, {}, ext)

        def definitions(U, cls=cls):
            I = U.I
            ci, d = declared(U, cls, "species_definitions")
            m = I.obj(ci)
            saved = I.contracts
            I.contracts = dict(saved, **{"AttrDescriptor._check": no_check})
            I.externals = dict(I.externals, **{CU + "check_species_definitions": Builtin(lambda I, a, k: a[0])})
            v = Opq(STORED, z3.Const("definitions", S), ("given",))
            I.call(I.getattr(d, "__set__"), [m, v])
            held = list(m.attrs.values())
            r = I.call(I.getattr(d, "__get__"), [m, None])
            U.prove(z3.BoolVal(isinstance(r, Opq) and r.spec is STORED and r.data[0] == "copy" and
                               list(m.attrs.values()) == held),
                    "the definitions read are a deep copy, the model keeps its own")
            U.prove(r.term == v.term, "the definitions read are those given")
        P.unit(cls + ".species_definitions read", definitions, {}, ext)

        for name in QUERY[cls]:
            def query(U, cls=cls, name=name):
                I = U.I
                ci, (c, node) = lookup(U, cls, name)
                ok = isinstance(node, ast.FunctionDef) and len(node.decorator_list) == 1
                if not ok:
                    raise Unsupported("%s is no query" % name)
                dec = I.eval(node.decorator_list[0], Env(I, c.module, c))
                m = I.obj(ci)
                if isinstance(dec, VClass):
                    d = I.call(dec, [VFunc(node, c.module, c)])
                else:
                    raise Unsupported("decorator of %s" % name)
                before = dict(m.attrs)
                try:
                    I.call(I.getattr(d, "__set__"), [m, val(GIVEN)])
                    U.fail("assigning a query raises AttributeError", "assigned")
                except PyRaise as e:
                    U.prove(z3.BoolVal(e.name == "AttributeError"),
                            "assigning a query raises AttributeError")
                U.prove(z3.BoolVal(same(U, m.attrs, before)), "the model is unchanged")
            P.unit("%s.%s assigned" % (cls, name), query, {}, ext, expect=["the model is unchanged"])

        def load(U, cls=cls):
            """Settings given in the setup reach the descriptors, each with its value."""
            I = U.I
            ci = source.get_class(MODELS[cls], cls)
            m = I.obj(ci, {"log_allowed": False, "solver": None})
            d = I.new(SDict())
            given = {}
            for n in settings(cls):
                if n not in ("setup_file", "setup_dict"):
                    given[n] = I.lst(()) if n == "rxn_expressions" else I.new(SDict()) \
                        if n == "species_definitions" else Opq(STORED, z3.Const("for_" + n, S), n)
            for n, v in list(given.items()) + [("parser", "KMCParser"), ("no_setting", 1)]:
                I.dict_set(d, n, v)
            U.method(m, "_load", [d])
            for n, v in given.items():
                U.prove(z3.BoolVal(m.attrs.get(n) is v), "each setting gets its value")
            U.prove(z3.BoolVal("no_setting" not in m.attrs), "other entries are left out")
        P.unit(cls + ": settings of the setup", load,
               {"KineticModel.__mro_class_attrs": lambda I, self, a, k, cls=cls: tuple(settings(cls)) + (
                   "parser", "solver", "corrector", "plotter")}, ext,
               expect=["each setting gets its value"])

        for comp, base in (("solver", "SolverBase"), ("corrector", "CorrectorBase"), ("plotter", None)):
            def component(U, cls=cls, comp=comp, base=base):
                I = U.I
                ci = source.get_class(MODELS[cls], cls)
                m = I.obj(ci)
                ds = {}
                for n in ("parser", "solver", "corrector", "plotter"):
                    ds[n] = declared(U, cls, n)[1]
                    pre = dict(m.attrs)
                    I.call(I.getattr(ds[n], "__get__"), [m, None])
                    key = [k for k in m.attrs if k not in pre]
                    I.set_attr(m, key[0], Opq(Spec("component"), z3.Const("old_" + n, S)))

                def isinst(I, o, a, k):
                    return isinstance(a[0], VClass) and a[0].name == base
                new = Opq(Spec("component", methods={"isinstance": isinst}), z3.Const("new", S))
                before = {n: I.call(I.getattr(d, "__get__"), [m, None]) for n, d in ds.items()}
                rest = dict(m.attrs)
                U.method(m, "set_" + comp, [new])
                for n, d in ds.items():
                    r = I.call(I.getattr(d, "__get__"), [m, None])
                    U.prove(z3.BoolVal(r is (new if n == comp else before[n])),
                            "set_%s: %s" % (comp, "it is read" if n == comp else n + " is kept"))
                U.prove(z3.BoolVal(len([k for k in m.attrs if k not in rest or m.attrs[k] is not rest[k]]) == 1
                                   and not [k for k in rest if k not in m.attrs]),
                        "no other attribute changes")
            P.unit("%s.set_%s" % (cls, comp), component, {}, ext, expect=["no other attribute changes"])


PROPS = {"C28": c28}
