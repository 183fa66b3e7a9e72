"""Contracts on the validation of inputs and on generated text."""
import z3

import net
from net import *             # noqa
import terms as T
from terms import S, lit, real, integer, make_fold, fresh_index
from values import *          # noqa
from builtins_model import LOGGER, VType
from builtins_model import pyraise
import dyn
import datatext
from dyn import kind, size, item, number, has_key, at_key, key_no, typed, val, TAGS

CU = "scaks/utilities/check_utilities.py"
V = z3.Const("given", S)


# ------------------------------------------------------------------ C27
SEQ = {}


def seq_ok(*names):
    """t is a list or tuple whose entries are instances of the types: a predicate with its
    definition (both directions, the second by a witness)."""
    key = "_".join(names)
    if key not in SEQ:
        p = z3.Function("sequence_of_" + key, S, B_)
        w = z3.Function("not_a_" + key, S, I_)
        T.schema(p.name(), lambda a: [
            z3.Implies(a, typed(a.arg(0), "list", "tuple")),
            z3.Implies(z3.And(z3.Not(a), typed(a.arg(0), "list", "tuple")),
                       z3.And(w(a.arg(0)) >= 0, w(a.arg(0)) < size(a.arg(0)),
                              z3.Not(typed(item(a.arg(0), w(a.arg(0))), *names))))])
        T.schema("item_of", lambda a: [z3.Implies(
            z3.And(p(a.arg(0)), a.arg(1) >= 0, a.arg(1) < size(a.arg(0))), typed(a, *names))])
        SEQ[key] = p
    return SEQ[key]


ENTRY = {"list": ("list",), "str": ("str",), "float": ("float",), "int": ("bool", "int")}


def far(a, b):
    """Some of the three entries differ by more than 1e-6."""
    d = [number(item(a, z3.IntVal(k))) - number(item(b, z3.IntVal(k))) for k in range(3)]
    e = z3.Q(1, 10**6)
    return z3.Or(*[z3.Or(x > e, -x > e) for x in d])


def all_differ():
    p = z3.Function("pairwise_different", S, B_)
    w1, w2 = z3.Function("first_equal", S, I_), z3.Function("second_equal", S, I_)
    T.schema(p.name(), lambda a: [z3.Implies(z3.Not(a), z3.And(
        w1(a.arg(0)) >= 0, w1(a.arg(0)) < w2(a.arg(0)), w2(a.arg(0)) < size(a.arg(0)),
        z3.Not(far(item(a.arg(0), w1(a.arg(0))), item(a.arg(0), w2(a.arg(0)))))))])
    return p, (w1, w2)


DIFFER, DIFFER_WITNESS = all_differ()


def c27(P):
    P.assumption("values are of the built-in types or of unrelated ones (no subclasses); a process "
                 "definition is a dict; species definitions map texts to dicts")
    ps = {k: seq_ok(*v) for k, v in ENTRY.items()}

    # what the callers below need of a checked sequence: that it is a list or a tuple
    qs = {}
    for tname in ENTRY:
        qs[tname] = z3.Function("checked_sequence_of_" + tname, S, B_)
        T.schema(qs[tname].name(), lambda a: [z3.Implies(a, typed(a.arg(0), "list", "tuple"))])

    def c_sequence(I, a, k):
        v = a[0] if a else k["sequence"]
        t = a[1] if len(a) > 1 else k["entry_type"]
        if not isinstance(t, VType) or t.name not in qs:
            raise Unsupported("sequence of %r" % (t,))
        if not I.s.decide(qs[t.name](v.term)):
            pyraise("SetupError")
        return v

    def c_coordinates(I, a, k):
        v = a[0]
        if not I.s.decide(DIFFER(v.term)):
            pyraise("SetupError")
        return v

    def outcome(U, f, args, ok, facts, quantified=(), exclude=()):
        """f accepts exactly when all facts hold.  facts: formulas; quantified: (n, fn)."""
        I, s = U.I, U.s
        try:
            r = I.call(f, args)
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "SetupError"), "SetupError on rejection")
            ok = z3.Bool("well formed")
            for x in facts:
                s.assume(z3.Implies(ok, x))
            for guard, n, fn in quantified:
                s.assume_all(lambda i, n=n, fn=fn, guard=guard: z3.Implies(
                    z3.And(ok, guard, i >= 0, i < n), fn(i)))
            U.prove(z3.Not(ok), "rejected only when malformed")
            return
        U.prove(z3.BoolVal(r is args[0]), "accepted input is returned unchanged")
        for j, x in enumerate(facts):
            U.prove(x, "accepted only if well formed (%d)" % (j + 1))
        for j, (guard, n, fn) in enumerate(quantified):
            U.forall(n, lambda i: fn(i) if guard is True else z3.Implies(guard, fn(i)),
                     "accepted only if every entry is well formed (%d)" % (j + 1))
    good = ["accepted input is returned unchanged", "rejected only when malformed"]

    def fn(U, name):
        return U.function(CU, name)

    for tname, p in ps.items():
        def seq(U, tname=tname, p=p):
            outcome(U, fn(U, "check_sequence"), [val(V), VType(tname), "it"], None, [p(V)])
        P.unit("check_sequence(%s)" % tname, seq, {}, expect=good)

    def string(U):
        n = z3.Int("n_range")
        U.s.assume(n >= 0)
        f = z3.Function("range", I_, S)
        import specs_kmc
        l = U.I.lst(specs_kmc.texts(U.s, n, f))
        outcome(U, fn(U, "check_string"), [val(V), l, "it"], None,
                [typed(V, "str"), specs_kmc.some_in(n, f, V)])
    P.unit("check_string", string, {}, expect=good)

    def species(U):
        U.s.schema("key_no", lambda a: [typed(a, "str")])
        U.s.schema("at_key", lambda a: [typed(a, "dict")])
        key = lambda i: key_no(V, i)
        gas = lambda i: dyn.ends(key(i), lit("_g"))
        outcome(U, fn(U, "check_species_definitions"), [val(V)], None, [typed(V, "dict")],
                [(typed(V, "dict"), size(V), lambda i: z3.Implies(gas(i), has_key(at_key(V, key(i)), lit("pressure"))))])
    P.unit("check_species_definitions", species, {}, expect=good)

    def ref(U):
        key = lambda i: key_no(V, i)
        outcome(U, fn(U, "check_ref_energies"), [val(V)], None, [typed(V, "dict")],
                [(typed(V, "dict"), size(V), lambda i: z3.And(typed(key(i), "str"), typed(at_key(V, key(i)), "float")))])
    P.unit("check_ref_energies", ref, {}, expect=good)

    def interval(U):
        def whole(i):
            x = item(V, i)
            a, b, c = (item(x, z3.IntVal(k)) for k in range(3))
            triple = z3.And(typed(x, "list", "tuple"), size(x) == 3, *[typed(y, "int") for y in (a, b, c)])
            return z3.Or(typed(x, "int"), z3.And(triple, number(a) <= number(b),
                                                 number(c) <= number(b) - number(a)))
        outcome(U, fn(U, "check_analysis_interval"), [val(V)], None, [typed(V, "int", "list", "tuple")],
                [(typed(V, "list", "tuple"), size(V), whole)])
    P.unit("check_analysis_interval", interval, {}, expect=good)

    def three_floats(U, c):
        U.s.assume(ps["list"](c))

        def f(i):
            x = item(c, i)
            return z3.And(ps["float"](x), size(x) == 3)
        U.s.assume_all(lambda i: z3.Implies(z3.And(i >= 0, i < size(c)), f(i)))

    def coordinates(U):
        three_floats(U, V)
        try:
            r = U.I.call(fn(U, "check_process_coordinates"), [val(V)])
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "SetupError"), "SetupError on rejection")
            p, q, _ = U.I.pairs
            for x in [x for x in T.consts_of(*U.s.pc) if z3.is_app(x) and x.decl().eq(p)]:
                i, j = p(x.arg(0)), q(x.arg(0))
                U.s.assume(z3.Implies(z3.And(DIFFER(V), i >= 0, i < j, j < size(V)),
                                      far(item(V, i), item(V, j))))
            U.prove(z3.Not(DIFFER(V)), "rejected only for coordinates that agree")
            return
        U.prove(z3.BoolVal(r.term.eq(V)), "accepted input is returned unchanged")
        w1, w2 = DIFFER_WITNESS
        n = U.I.pairs[2](w1(V), w2(V))
        U.s.assume(z3.Implies(z3.And(w1(V) >= 0, w1(V) < w2(V), w2(V) < size(V)), n >= 0))
        U.prove(DIFFER(V), "accepted only if all differ")
    P.unit("check_process_coordinates", coordinates, {},
           expect=["accepted only if all differ", "rejected only for coordinates that agree"])

    def process(U):
        s = U.s
        T.EXACT.add("item_of")
        s.assume(typed(V, "dict"))
        at = lambda name: at_key(V, lit(name))
        keys = ("reaction", "coordinates_group", "elements_before", "elements_after", "basis_sites")
        cg, eb, ea = at("coordinates_group"), at("elements_before"), at("elements_after")
        facts = [has_key(V, lit(x)) for x in keys] + \
            [typed(at("reaction"), "str"), qs["list"](cg), qs["str"](eb), qs["str"](ea),
             qs["int"](at("basis_sites"))]
        there = z3.And(*(facts[:5] + [qs["list"](cg)]))

        def coords(g):
            c = item(cg, g)
            return z3.And(qs["list"](c), ps_three(c), DIFFER(c), size(eb) == size(c), size(ea) == size(c))
        outcome(U, fn(U, "check_process_dict"), [val(V)], None, facts, [(there, size(cg), coords)])
    ps_three = z3.Function("entries_of_three", S, B_)
    w3 = z3.Function("not_three", S, I_)

    def three(x):
        return z3.And(qs["float"](x), size(x) == 3)
    T.schema("entries_of_three", lambda a: [z3.Implies(z3.Not(a), z3.And(
        w3(a.arg(0)) >= 0, w3(a.arg(0)) < size(a.arg(0)), z3.Not(three(item(a.arg(0), w3(a.arg(0)))))))])
    T.schema("item_of", lambda a: [z3.Implies(z3.And(ps_three(a.arg(0)), a.arg(1) >= 0,
                                                     a.arg(1) < size(a.arg(0))), three(a))])
    ext = {CU + ":check_sequence": Builtin(c_sequence),
           CU + ":check_process_coordinates": Builtin(c_coordinates)}
    P.unit("check_process_dict", process, {}, ext, expect=good)


# ------------------------------------------------------------------ C24
SS = "scaks/solvers/steady_state_solver.py"
FU = "scaks/utilities/format_utilities.py"


def c24(P):
    P.assumption("str of a finite number, and of a nested sequence of numbers and plain strings, is "
                 "Python text that evaluates to it; names of variables are identifiers; plain strings "
                 "hold no quotes, backslashes or line breaks; durations are real numbers")
    plain = lambda t: typed(t, "int", "float", "str", "list", "tuple")

    def lists(U, default):
        I, s = U.I, U.s
        n, cols = z3.Int("n_entries"), z3.Int("n_columns")
        s.assume(n >= 0)
        s.assume(cols >= 1)
        elem = z3.Function("entry", I_, S)
        s.schema("entry", lambda a: [plain(a)])
        data = I.lst(GSeq(n, lambda i: val(elem(integer(i)))))
        args = ["the_name", data] + ([] if default else [cols])
        text = I.call(U.function(FU, "get_list_string"), args)
        r = datatext.read(I, text)
        U.prove(z3.BoolVal(set(k for k in r.env.vars if not k.startswith("__")) == {"the_name"}),
                "one variable of that name")
        got = r.var("the_name")
        U.prove(integer(I.length(got)) == n, "as many values")
        U.forall(n, lambda i: I.eq(I.getitem(got, i), val(elem(i))), "the same values in order")
        U.prove(integer(I.length(data)) == n, "the data is left alone")
    for d in (True, False):
        P.unit("get_list_string%s" % ("" if d else "(columns)"), lambda U, d=d: lists(U, d), {},
               expect=["the same values in order", "as many values"])

    def dicts(U):
        I, s = U.I, U.s
        D = z3.Const("given_dict", S)
        s.assume(typed(D, "dict"))
        s.schema("key_no", lambda a: [typed(a, "str")])
        s.schema("at_key", lambda a: [typed(a, "int", "float", "list", "tuple")])
        text = I.call(U.function(FU, "get_dict_string"), ["the_name", val(D)])
        r = datatext.read(I, text)
        U.prove(z3.BoolVal(set(k for k in r.env.vars if not k.startswith("__")) == {"the_name"}),
                "one variable of that name")
        got = r.var("the_name")
        n = size(D)
        U.forall(n, lambda i: I.contains(key_no(D, i), got), "every key")
        U.forall(n, lambda i: I.eq(I.getitem(got, key_no(D, i)), val(at_key(D, key_no(D, i)))),
                 "the same value at every key")
        t = z3.Const("some_text", S)
        U.prove(z3.Implies(truth(I, I.contains(t, got)), has_key(D, t)), "no other key")
    P.unit("get_dict_string", dicts, {}, expect=["the same value at every key", "no other key"])

    def flush(U):
        I, s = U.I, U.s
        T_, Y = I.lst(some_list(s, "times")), I.lst(some_list(s, "coverages"))
        old = {"times": I.lst(some_list(s, "old_times")), "coverages": I.lst(some_list(s, "old_coverages"))}
        want = {k: I.lst(catseq(*(I.segments(old[k]) + I.segments(x))))
                for k, x in (("times", T_), ("coverages", Y))}
        n = z3.Int("flush_counter")
        s.assume(n >= 0)
        I.files = I.lst(())
        solver = I.obj(net.cls(SS, "SteadyStateSolver"), {})
        r = U.method(solver, "_SteadyStateSolver__ode_flush", [n, T_, Y])
        U.prove(z3.And(integer(I.length(r[0])) == 0, integer(I.length(r[1])) == 0), "the buffers are emptied")
        got = read_files(U, "auto_ode_coverages.py", old)
        for k, x in want.items():
            same_list(U, got.var(k), x, k)
    ext = {FU + ":get_list_string": Builtin(c_list_string)}
    P.unit("SteadyStateSolver.__ode_flush", flush, {}, ext,
           expect=["times: the same values in order", "coverages: the same values in order"])

    def duration(U):
        I, s = U.I, U.s
        sec = z3.Real("seconds")
        s.assume(sec >= 0)
        h, m, x = I.call(U.function(FU, "convert_time"), [sec])
        for v, what in ((h, "hours"), (m, "minutes")):
            U.prove(z3.BoolVal(is_z3(v) and v.sort() == I_), "%s are whole" % what)
        U.prove(h >= 0, "hours are not negative")
        U.prove(z3.And(m >= 0, m < 60), "minutes below 60")
        U.prove(z3.And(real(x) >= 0, real(x) < 60), "seconds below 60")
        U.prove(3600*real(h) + 60*real(m) + real(x) == sec, "they add up")
    P.unit("convert_time", duration, {}, expect=["they add up", "seconds below 60"])


def some_list(s, name):
    """Any list of values."""
    n, f = z3.Int("n_" + name), z3.Function("entry_of_" + name, I_, S)
    s.assume(n >= 0)
    return GSeq(n, lambda i: val(f(integer(i))), open_=False)


def c_list_string(I, a, k):
    """C24: the text assigns a list of the same values to the name."""
    name = a[0] if a else k["var_name"]
    data = a[1] if len(a) > 1 else k["list_obj"]
    cols = a[2] if len(a) > 2 else k.get("ncols", 5)
    if not I.s.valid(integer(cols) >= 1)[0]:
        raise Unsupported("number of columns")
    if not isinstance(data, (SList, GSeq, tuple, CatSeq, FlatSeq)):
        raise Unsupported("list text of %r" % (data,))
    return Rope([datatext.DataText(name, I.lst(catseq(*I.segments(view(data)))))])


def c_dict_string(I, a, k):
    """C24: the text assigns a dict with the same items to the name."""
    name = a[0] if a else k["var_name"]
    d = a[1] if len(a) > 1 else k["dict_obj"]
    if not isinstance(d, SDict):
        raise Unsupported("dict text of %r" % (d,))
    return Rope([datatext.DataText(name, I.new(view(d)))])


def read_files(U, filename, variables=None):
    """Executes everything written to one file."""
    I = U.I
    if variables is None:
        variables = {}
    r = datatext.Reader(I, variables)
    segs = I.segments(I.files)
    if not all(isinstance(g, tuple) for g in segs):
        raise Unsupported("files written in a loop")
    text = []
    for g in segs:
        for name, mode, x in g:
            U.prove(I.eq(name, filename), "only this file is written")
            if mode == "w":
                text, r = [], datatext.Reader(I)
            text.append(x)
    r.execute(rope(*text))
    return r


def same_list(U, got, want, what):
    I = U.I
    U.prove(integer(I.length(got)) == integer(I.length(want)), what + ": as many values")
    U.forall(I.length(want), lambda i: I.eq(I.getitem(got, i), I.getitem(want, i)),
             what + ": the same values in order")


def truth(I, v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


PROPS = {"C24": c24, "C27": c27}
