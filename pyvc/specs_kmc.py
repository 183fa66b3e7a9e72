"""Contracts on the kinetic Monte Carlo parts."""
import z3

import net
from net import *             # noqa
import terms as T
from terms import S, lit, real, integer, make_fold, fresh_index
from values import *          # noqa
from builtins_model import LOGGER, is_text, index_seq, pyraise

KP = "scaks/parsers/kmc_parser.py"


def made(record, name):
    """Constructor of the lattice library: keeps what it is given."""
    def f(I, a, k):
        if a:
            raise Unsupported("positional arguments of %s" % name)
        o = I.obj(None, dict(k))
        record.append((name, dict(k), o))
        return o
    return Builtin(f)


def texts(s, n, f):
    """A list of texts, possibly repeated: which_f(t) is an index of t, if there is one."""
    w = z3.Function("which_" + f.name(), S, I_)
    s.schema(f.name(), lambda a: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < n),
                                             z3.And(w(a) >= 0, w(a) < n, w(a) <= a.arg(0)))])
    s.schema(w.name(), lambda a: [z3.Implies(z3.And(a >= 0, a < n), f(a) == a.arg(0))])
    g = GSeq(n, lambda i: f(integer(i)))
    g.index_fn = w
    return g


def some_in(n, f, t):
    """The text is one of the list."""
    w = z3.Function("which_" + f.name(), S, I_)(t)
    return z3.And(w >= 0, w < n)


# ------------------------------------------------------------------ C32
def c32(P):
    P.assumption("repetitions are three positive integers; the site and element types are texts; "
                 "the input files define exactly the variables named in the statement")
    r = [z3.Int("rep%d" % i) for i in range(3)]
    nb = z3.Int("n_basis")
    n_sites = r[0]*r[1]*r[2]*nb
    nps, npe, ng = z3.Int("n_possible_sites"), z3.Int("n_possible_elements"), z3.Int("n_given")
    psite, pelem, given = (z3.Function(x, I_, S) for x in ("possible_site", "possible_element", "given_type"))
    empty = z3.Const("empty_type", S)
    record = []
    ext = {"KMCLib." + k: made(record, k) for k in
           ("KMCUnitCell", "KMCLattice", "KMCSitesMap", "KMCConfiguration")}
    ext["numpy.array"] = Builtin(lambda I, a, k: a[0])

    def world(U, file_there, defined):
        I, s = U.I, U.s
        del record[:]
        s.assume(z3.And(*[x >= 1 for x in r]))
        s.assume(z3.And(nb >= 1, nps >= 1, npe >= 1, ng >= 0))
        ex = z3.Function("exists", S, B_)(z3.Const("file", S))
        s.assume(ex if file_there else z3.Not(ex))
        basis = I.lst(GSeq(nb, lambda i: Opq(Spec("basis"), z3.Function("basis", I_, S)(integer(i)))))
        ps, pe = texts(s, nps, psite), texts(s, npe, pelem)
        ps, pe = I.lst(ps), I.lst(pe)
        W = dict(repetitions=tuple(r), basis_sites=basis, cell_vectors=Opq(Spec("cell")),
                 periodic=Opq(Spec("periodic")), possible_site_types=ps, possible_element_types=pe,
                 empty_type=empty)
        o = net.Owner(I, W)
        g = I.lst(GSeq(ng, lambda i: given(integer(i))))
        I.user_file = {}
        if defined:
            I.user_file = {defined: g}
        k = I.obj(net.cls(KP, "KMCParser"), {"_owner": o.obj, "_KMCParser__logger": LOGGER})
        W["given"] = g
        return I, s, k, W

    def lattice_is(U, W, lattice):
        """cell, repetitions and periodicity are passed on unchanged"""
        kinds = {n: (k, o) for n, k, o in record}
        names = [n for n, _, _ in record]
        ok = names.count("KMCUnitCell") == 1 and names.count("KMCLattice") == 1
        if ok:
            cell, lat = kinds["KMCUnitCell"], kinds["KMCLattice"]
            ok = set(cell[0]) == {"cell_vectors", "basis_points"} and \
                set(lat[0]) == {"unit_cell", "repetitions", "periodic"} and \
                cell[0]["cell_vectors"] is W["cell_vectors"] and \
                cell[0]["basis_points"] is W["basis_sites"] and lat[1] is lattice and \
                lat[0]["unit_cell"] is cell[1] and lat[0]["periodic"] is W["periodic"] and \
                lat[0]["repetitions"] == W["repetitions"]
        U.prove(z3.BoolVal(ok), "cell, basis, repetitions and periodicity are passed on unchanged")

    def sites(U, file_there, defined):
        I, s, k, W = world(U, file_there, defined)
        use = file_there and defined == "site_types"
        try:
            m = U.method(k, "construct_sitesmap", [], {"filename": z3.Const("file", S)})
        except PyRaise as e:
            if e.name != "SetupError":
                raise
            if not use:
                U.fail("the default types are accepted", e.msg)
                return
            # rejected: another length or a type that is not possible
            s.assume_all(lambda i: z3.Implies(z3.And(i >= 0, i < ng), possible_at(i)))
            s.assume(ng == n_sites)
            U.prove(z3.BoolVal(False), "rejected only for another length or an impossible type")
            return
        ok = record[-1][0] == "KMCSitesMap" and record[-1][2] is m and \
            set(record[-1][1]) == {"lattice", "types", "possible_types"}
        U.prove(z3.BoolVal(ok), "a site map is made")
        if not ok:
            return
        a = record[-1][1]
        lattice_is(U, W, a["lattice"])
        U.prove(z3.BoolVal(a["possible_types"] is W["possible_site_types"]), "the possible types are passed on")
        t = a["types"]
        U.prove(integer(I.length(t)) == n_sites, "as many entries as repetitions times basis sites")
        if use:
            U.prove(integer(I.length(t)) == ng, "every given type")
            U.forall(n_sites, lambda i: I.eq(I.getitem(t, i), given(i)), "the given list")
            U.forall(n_sites, possible_at, "each a possible site type")
        else:
            U.forall(n_sites, lambda i: I.eq(I.getitem(t, i), psite(z3.IntVal(0))), "the first possible type")

    def possible_at(i):
        return some_in(nps, psite, given(i))

    def types(U, file_there, defined):
        I, s, k, W = world(U, file_there, defined)
        use = file_there and defined == "types"
        allowed = some_in(npe, pelem, empty)
        try:
            m = U.method(k, "parse_configuration", [], {"filename": z3.Const("file", S)})
        except PyRaise as e:
            if e.name != "SetupError":
                raise
            U.prove(z3.Not(allowed), "rejected only for an empty type that is not possible")
            return
        U.prove(allowed, "accepted only with a possible empty type")
        ok = record[-1][0] == "KMCConfiguration" and record[-1][2] is m and \
            set(record[-1][1]) == {"lattice", "types", "possible_types"}
        U.prove(z3.BoolVal(ok), "a configuration is made")
        if not ok:
            return
        a = record[-1][1]
        lattice_is(U, W, a["lattice"])
        U.prove(z3.BoolVal(a["possible_types"] is W["possible_element_types"]), "the possible types are passed on")
        t = a["types"]
        if use:
            U.prove(integer(I.length(t)) == ng, "every given type")
            U.forall(ng, lambda i: I.eq(I.getitem(t, i), given(i)), "the given list")
        else:
            U.prove(integer(I.length(t)) == n_sites, "as many entries as sites")
            U.forall(n_sites, lambda i: I.eq(I.getitem(t, i), empty), "the empty type everywhere")
    for there, var, what in ((False, None, "no file"), (True, None, "file without a list"),
                             (True, "site_types", "file with a list")):
        P.unit("KMCParser.construct_sitesmap(%s)" % what, lambda U, a=there, b=var: sites(U, a, b), {}, ext,
               expect=["as many entries as repetitions times basis sites"])
    for there, var, what in ((False, None, "no file"), (True, None, "file without a list"),
                             (True, "types", "file with a list")):
        P.unit("KMCParser.parse_configuration(%s)" % what, lambda U, a=there, b=var: types(U, a, b), {}, ext,
               expect=["accepted only with a possible empty type",
                       "rejected only for an empty type that is not possible"])


# ------------------------------------------------------------------ KMC plugins
PLUG = "scaks/solvers/kmc_plugins/"
MASTER = z3.Bool("is_master")
HEADER = "# header\n\n"


def plugin_externals():
    from specs_text import c_list_string, c_dict_string, FU
    mpi = Opq(Spec("mpi", attrs={"is_master": lambda I, o: MASTER}))
    return {FU + ":get_list_string": Builtin(c_list_string), FU + ":get_dict_string": Builtin(c_dict_string),
            "scaks/__init__.py:file_header": HEADER, "scaks/mpicommons.py:mpi": mpi,
            "scaks/compatutil.py:reduce": Builtin(c_reduce)}


def c_reduce(I, a, k):
    """functools.reduce over three factors."""
    f, xs = a
    xs = I.segments(xs)
    if len(xs) != 1 or not isinstance(xs[0], tuple) or not xs[0] or len(a) > 2:
        raise Unsupported("reduce")
    r = xs[0][0]
    for x in xs[0][1:]:
        r = I.call(f, [r, x])
    return r


def picked(p):
    return Opq(Spec("interactions", methods={"pickedIndex": lambda I, o, a, k: p}))


class Kmc(object):
    """The model a plugin sees: any processes, labels and lattice."""

    def __init__(self, U, **more):
        I, s = U.I, U.s
        self.np, self.nl, self.nb = z3.Int("n_processes"), z3.Int("n_labels"), z3.Int("n_basis")
        self.rep = [z3.Int("rep%d" % i) for i in range(3)]
        s.assume(z3.And(self.nl >= 0, self.nl <= self.np, self.nb >= 1, *[x >= 1 for x in self.rep]))
        self.label = z3.Function("label", I_, S)
        proc = z3.Function("process", I_, S)
        self.nsites = real(self.rep[0]*self.rep[1]*self.rep[2]*self.nb)
        attrs = dict(processes=I.lst(GSeq(self.np, lambda i: Opq(Spec("process"), proc(integer(i))))),
                     process_mapping=I.lst(texts(s, self.nl, self.label)),
                     repetitions=tuple(self.rep), tof_start=z3.Int("tof_start"),
                     tof_interval=z3.Real("tof_interval"),
                     basis_sites=I.lst(GSeq(self.nb, lambda i: Opq(Spec("basis"), z3.Function("basis", I_, S)(integer(i))))),
                     **more)
        self.attrs = attrs
        self.obj = I.obj(None, {})
        self.obj.lazy = lambda name: (attrs[name],) if name in attrs else None


def counts(U, name, n):
    """A list of n whole numbers."""
    f = z3.Function(name, I_, I_)
    return f, U.I.lst(GSeq(n, lambda i: f(integer(i)), open_=False))


def c22(P):
    P.assumption("the picked index is one of the process list; the first counted step and the last "
                 "step are at different times; functools.reduce is assumed")
    ext = plugin_externals()
    FA = "_FrequencyAnalysis__"
    path = PLUG + "frequency_analysis.py"

    def made(U, M):
        return U.I.call(VClass_("FrequencyAnalysis", path), [M.obj], {"filename": "data.py"})

    def init(U):
        I = U.I
        M = Kmc(U)
        o = made(U, M)
        for x in ("process_occurencies", "steady_process_occurencies"):
            l = o.attrs[FA + x]
            U.prove(integer(I.length(l)) == M.np, "%s: one count per process" % x)
            U.forall(M.np, lambda i: I.eq(I.getitem(l, i), 0), "%s: nothing counted yet" % x)
        U.prove(z3.BoolVal(o.attrs[FA + "process_occurencies"] is not o.attrs[FA + "steady_process_occurencies"]),
                "two lists")
        for x in ("tof_start_time", "tof_end_time"):
            U.prove(real(o.attrs[FA + x]) == 0, "%s: not set" % x)
    P.unit("FrequencyAnalysis.__init__", init, {}, ext, expect=["process_occurencies: nothing counted yet"])

    def state(U, M):
        o = made(U, M)
        occ, l1 = counts(U, "picked_so_far", M.np)
        sto, l2 = counts(U, "counted_so_far", M.np)
        t0, t1 = z3.Real("first_counted_time"), z3.Real("last_time")
        for x, v in (("process_occurencies", l1), ("steady_process_occurencies", l2),
                     ("tof_start_time", t0), ("tof_end_time", t1)):
            if FA + x not in o.attrs:
                raise Unsupported("no attribute " + x)
            U.I.setattr(o, FA + x, v)
        return o, occ, sto, t0, t1

    def register(U):
        I, s = U.I, U.s
        M = Kmc(U)
        I.files = I.lst(())
        o, occ, sto, t0, t1 = state(U, M)
        p, step, t = z3.Int("picked"), z3.Int("step"), z3.Real("time")
        s.assume(z3.And(p >= 0, p < M.np))
        U.method(o, "registerStep", [step, t, Opq(Spec("configuration")), picked(p)])
        counted = step >= M.attrs["tof_start"]
        for x, f, c in (("process_occurencies", occ, True), ("steady_process_occurencies", sto, counted)):
            l = o.attrs[FA + x]
            U.prove(integer(I.length(l)) == M.np, "%s: one count per process" % x)
            U.forall(M.np, lambda i: real(I.getitem(l, i)) == real(f(i)) + z3.If(z3.And(i == p, c), z3.RealVal(1), z3.RealVal(0)),
                     "%s: the picked process is counted once" % x)
        U.prove(real(o.attrs[FA + "tof_start_time"]) == z3.If(z3.And(counted, t0 == 0), t, t0),
                "the time of the first counted step")
        U.prove(real(o.attrs[FA + "tof_end_time"]) == t, "the time of the last step")
        U.prove(I.length(I.files) == 0, "nothing is written")
    P.unit("FrequencyAnalysis.registerStep", register, {}, ext,
           expect=["process_occurencies: the picked process is counted once",
                   "steady_process_occurencies: the picked process is counted once"])

    def history(U):
        """the counts after k steps are sums over the steps: kept by the next step (a sum
        over k + 1 steps is the sum over k steps plus the last term)"""
        I, s = U.I, U.s
        M = Kmc(U)
        o = made(U, M)
        k = z3.Int("steps_so_far")
        pick, step, time = (z3.Function(x, I_, R_ if x == "time_of" else I_) for x in
                            ("pick_of", "step_of", "time_of"))
        s.assume(z3.And(k >= 0, pick(k) >= 0, pick(k) < M.np))
        counted = lambda j: step(j) >= M.attrs["tof_start"]

        def sums(n, i, only):
            j = fresh_index("j")
            c = z3.And(pick(j) == i, counted(j)) if only else pick(j) == i
            return make_fold("sum", n, j, z3.If(c, z3.RealVal(1), z3.RealVal(0)))
        for x, only in (("process_occurencies", False), ("steady_process_occurencies", True)):
            I.setattr(o, FA + x, I.lst(GSeq(M.np, lambda i, only=only: sums(k, integer(i), only))))
        # f: the first counted step at a time other than zero
        f, t0 = z3.Int("first"), z3.Real("first_counted_time")
        hit = lambda j: z3.And(counted(j), time(j) != 0)
        s.assume(z3.And(f >= 0, hit(f), z3.If(f < k, t0 == time(f), t0 == 0)))
        s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < f), z3.Not(hit(j))))
        I.setattr(o, FA + "tof_start_time", t0)
        I.setattr(o, FA + "tof_end_time", z3.Real("last_time"))
        U.method(o, "registerStep", [step(k), time(k), Opq(Spec("configuration")), picked(pick(k))])
        for x, only in (("process_occurencies", False), ("steady_process_occurencies", True)):
            U.forall(M.np, lambda i: real(I.getitem(o.attrs[FA + x], i)) ==
                     sums(k, i, only) + z3.If(z3.And(pick(k) == i, counted(k)) if only else pick(k) == i,
                                              z3.RealVal(1), z3.RealVal(0)),
                     x + " after one more step")
        t = real(o.attrs[FA + "tof_start_time"])
        U.prove(z3.If(f < k + 1, t == time(f), t == 0), "the first counted step after one more step")
    P.unit("FrequencyAnalysis history", history, {}, ext,
           expect=["process_occurencies after one more step", "steady_process_occurencies after one more step"])

    def finalize(U):
        I, s = U.I, U.s
        M = Kmc(U)
        o, occ, sto, t0, t1 = state(U, M)
        s.assume(t0 != t1)
        I.files = I.lst(())
        U.method(o, "finalize", [])
        if not s.decide(MASTER):
            U.prove(I.length(I.files) == 0, "only the master writes")
            return
        from specs_text import read_files, same_list
        r = read_files(U, "data.py")
        same_list(U, r.var("process_occurencies"), I.lst(GSeq(M.np, lambda i: occ(integer(i)))), "picks")
        vs = [(x, r.var(x), f, d) for x, f, d in
              (("reaction_occurencies", occ, 1), ("steady_reaction_occurencies", sto, 1),
               ("reaction_rates", sto, M.nsites*(t1 - t0)))]
        t = z3.Const("some_text", S)
        for x, v, f, d in vs:
            U.prove(z3.Implies(truth(I.contains(t, v)), some_in(M.nl, M.label, t)), x + ": no other label")

        def of(j):
            lab, i = M.label(j), fresh_index("i")
            for x, v, f, d in vs:
                total = make_fold("sum", M.nl, i, z3.If(M.label(i) == lab, real(f(i)), z3.RealVal(0)))
                U.prove(truth(I.contains(lab, v)), x + ": every label")
                U.prove(real(I.getitem(v, lab))*d == total, x + ": the sum over the processes of the label")
        U.each(M.nl, of)
    P.unit("FrequencyAnalysis.finalize", finalize, {}, ext,
           expect=[x + ": the sum over the processes of the label" for x in
                   ("reaction_occurencies", "steady_reaction_occurencies", "reaction_rates")] +
           ["picks: the same values in order"])

    def setup(U):
        I = U.I
        M = Kmc(U)
        o = made(U, M)
        I.files = I.lst(())
        U.method(o, "setup", [z3.Int("step"), z3.Real("time"), None, None])
        from specs_text import read_files
        read_files(U, "data.py")
        U.prove(z3.BoolVal(I.segments(I.files)[0][0][1] == "w"), "a new file that executes")
    P.unit("FrequencyAnalysis.setup", setup, {}, ext, expect=["a new file that executes"])


# ------------------------------------------------------------------ C23
def c23(P):
    P.assumption("the picked index is one of the process list; functools.reduce is assumed; times "
                 "grow (a window that closes has a positive length because the interval is not negative)")
    ext = plugin_externals()
    TA = "_TOFAnalysis__"
    path = PLUG + "tof_analysis.py"
    from specs_text import read_files, same_list, some_list

    def made(U, M, size):
        return U.I.call(VClass_("TOFAnalysis", path), [M.obj], {"filename": "data.py", "buffer_size": size})

    def init(U):
        I, s = U.I, U.s
        M = Kmc(U)
        size = z3.Int("buffer_size")
        o = made(U, M, size)
        U.prove(integer(I.length(o.attrs[TA + "occurencies"])) == M.np, "one count per process")
        U.forall(M.np, lambda i: I.eq(I.getitem(o.attrs[TA + "occurencies"], i), 0), "nothing counted yet")
        for x in ("times", "tofs"):
            U.prove(integer(I.length(o.attrs[TA + x])) == 0, x + ": no window yet")
        U.prove(real(o.attrs[TA + "start_time"]) == 0, "the first window starts at zero")
        U.prove(real(o.attrs[TA + "nsites"]) == M.nsites, "the number of sites")
        U.prove(real(o.attrs[TA + "tof_interval"]) == M.attrs["tof_interval"], "the interval")
        U.prove(integer(o.attrs[TA + "buffer_size"]) == size, "the buffer size")
    P.unit("TOFAnalysis.__init__", init, {}, ext, expect=["nothing counted yet"])

    def state(U, M):
        """Any state: counts of the open window, its start, and windows in the buffer."""
        I, s = U.I, U.s
        size = z3.Int("buffer_size")
        o = made(U, M, size)
        c, l = counts(U, "picked_in_window", M.np)
        start = z3.Real("window_start")
        wt, wf = I.lst(some_list(s, "buffered_times")), I.lst(some_list(s, "buffered_tofs"))
        s.assume(I.length(wt) == I.length(wf))
        for x, v in (("occurencies", l), ("start_time", start), ("times", wt), ("tofs", wf),
                     ("flush_counter", z3.Int("flush_counter"))):
            if TA + x not in o.attrs:
                raise Unsupported("no attribute " + x)
            I.setattr(o, TA + x, v)
        s.assume(z3.Int("flush_counter") >= 0)
        return o, c, start, view(wt), view(wf)

    def in_file(U, wt, wf):
        """The data file with some windows before, then what was written."""
        I = U.I
        old = {"times": I.lst(some_list(U.s, "old_times")), "tofs": I.lst(some_list(U.s, "old_tofs"))}
        want = [I.lst(catseq(*(I.segments(old[k]) + I.segments(x)))) for k, x in (("times", wt), ("tofs", wf))]
        got = read_files(U, "data.py", old)
        same_list(U, got.var("times"), want[0], "times in the file")
        same_list(U, got.var("tofs"), want[1], "tofs in the file")

    def same_buffer(U, o, wt, wf, what):
        same_list(U, o.attrs[TA + "times"], U.I.lst(wt.seq), what + " times")
        same_list(U, o.attrs[TA + "tofs"], U.I.lst(wf.seq), what + " tofs")

    def c_flush(I, self, a, k):
        """__flush: what the buffers hold is appended to the file, and they are emptied."""
        I.append(self.attrs["ghost"], (view(self.attrs[TA + "times"]), view(self.attrs[TA + "tofs"])))
        I.setattr(self, TA + "times", I.lst(()))
        I.setattr(self, TA + "tofs", I.lst(()))

    def register(U):
        I, s = U.I, U.s
        M = Kmc(U)
        o, c, start, wt, wf = state(U, M)
        o.attrs["ghost"] = I.lst(())
        size, t, p = z3.Int("buffer_size"), z3.Real("time"), z3.Int("picked")
        interval = M.attrs["tof_interval"]
        s.assume(z3.And(p >= 0, p < M.np, interval >= 0, z3.Or(I.length(wt) < size, I.length(wt) == 0,
                                                               z3.Not(MASTER))))
        U.method(o, "registerStep", [z3.Int("step"), t, Opq(Spec("configuration")), picked(p)])
        occ = lambda i: real(c(i)) + z3.If(i == p, z3.RealVal(1), z3.RealVal(0))
        got = o.attrs[TA + "occurencies"]
        U.prove(integer(I.length(got)) == M.np, "one count per process")
        flushed = I.segments(o.attrs["ghost"])
        flushed = flushed[0] if flushed else ()
        if not s.decide(t - start > interval):
            U.forall(M.np, lambda i: real(I.getitem(got, i)) == occ(i), "an open window counts the pick")
            U.prove(real(o.attrs[TA + "start_time"]) == start, "an open window keeps its start")
            same_buffer(U, o, wt, wf, "no window is added:")
            U.prove(z3.BoolVal(not flushed), "no window is added: nothing is written")
            return
        U.forall(M.np, lambda i: I.eq(I.getitem(got, i), 0), "the next window has no picks")
        U.prove(real(o.attrs[TA + "start_time"]) == t, "the next window starts at this step")
        # the closed window is the last one of the buffer or of what was flushed
        U.prove(z3.BoolVal(len(flushed) <= 1), "flushed at most once")
        bt, bf = (o.attrs[TA + "times"], o.attrs[TA + "tofs"]) if not flushed else flushed[0]
        if flushed:
            U.prove(integer(I.length(o.attrs[TA + "times"])) == 0, "the buffers are empty after a flush")
            U.prove(integer(I.length(o.attrs[TA + "tofs"])) == 0, "the buffers are empty after a flush (tofs)")
            U.prove(MASTER, "only the master writes")
        n = integer(I.length(wt))
        for x, b, w in (("times", bt, wt), ("tofs", bf, wf)):
            U.prove(integer(I.length(b)) == n + 1, "a window is added: " + x)
            U.forall(n, lambda i: I.eq(I.getitem(b, i), I.getitem(w, i)), "earlier windows stay: " + x)
        U.prove(real(I.getitem(bt, n)) == start, "the start of the window is recorded")
        tof = I.getitem(bf, n)
        U.prove(integer(I.length(tof)) == M.np, "one value per process")
        U.forall(M.np, lambda i: real(I.getitem(tof, i))*(M.nsites*(t - start)) == occ(i),
                 "picks divided by sites and length")
    P.unit("TOFAnalysis.registerStep", register, {"TOFAnalysis.__flush": c_flush}, ext,
           expect=["picks divided by sites and length", "the start of the window is recorded",
                   "an open window counts the pick", "the buffers are empty after a flush"])

    def flush(U):
        I, s = U.I, U.s
        M = Kmc(U)
        o, c, start, wt, wf = state(U, M)
        I.files = I.lst(())
        U.method(o, "_TOFAnalysis__flush", [])
        in_file(U, wt, wf)
        for x in ("times", "tofs"):
            U.prove(integer(I.length(o.attrs[TA + x])) == 0, "the buffer is emptied: " + x)
        U.forall(M.np, lambda i: I.eq(I.getitem(o.attrs[TA + "occurencies"], i), c(i)), "the open window is left alone")
        U.prove(real(o.attrs[TA + "start_time"]) == start, "its start is left alone")
        U.prove(integer(o.attrs[TA + "flush_counter"]) >= 0, "the number of flushes")
    P.unit("TOFAnalysis.__flush", flush, {}, ext, expect=["times in the file: the same values in order",
                                                           "tofs in the file: the same values in order"])

    def finalize(U):
        I, s = U.I, U.s
        M = Kmc(U)
        o, c, start, wt, wf = state(U, M)
        o.attrs["ghost"] = I.lst(())
        U.method(o, "finalize", [])
        flushed = I.segments(o.attrs["ghost"])
        if not flushed:
            U.prove(z3.Or(z3.Not(MASTER), integer(I.length(wt)) == 0), "the rest is written")
            return
        U.prove(MASTER, "only the master writes")
        U.prove(z3.BoolVal(len(flushed[0]) == 1), "written once")
        for x, b, w in (("times", flushed[0][0][0], wt), ("tofs", flushed[0][0][1], wf)):
            same_list(U, I.lst(b.seq), I.lst(w.seq), "the rest: " + x)
    P.unit("TOFAnalysis.finalize", finalize, {"TOFAnalysis.__flush": c_flush}, ext,
           expect=["the rest is written", "the rest: tofs: the same values in order"])

    def setup(U):
        I = U.I
        M = Kmc(U)
        o = made(U, M, z3.Int("buffer_size"))
        I.files = I.lst(())
        U.method(o, "setup", [z3.Int("step"), z3.Real("time"), None, None])
        r = read_files(U, "data.py")
        U.prove(z3.BoolVal(I.segments(I.files)[0][0][1] == "w"), "a new file")
        for x in ("times", "tofs"):
            U.prove(integer(I.length(r.var(x))) == 0, x + ": no window in a new file")
        U.prove(z3.BoolVal(r.var("times") is not r.var("tofs")), "two lists")
        same_list(U, r.var("processes"), I.lst(GSeq(M.nl, lambda i: M.label(integer(i)))), "labels")
    P.unit("TOFAnalysis.setup", setup, {}, ext, expect=["labels: the same values in order"])


# ------------------------------------------------------------------ C21
def c21(P):
    P.assumption("the list of types is the repeated basis, so its length is a whole number of unit "
                 "cells; possible types are distinct; the C++ implementation is compared on generated "
                 "inputs only")
    path = PLUG + "kmc_functions.py"
    R, C, K = z3.Int("n_basis"), z3.Int("n_cells"), z3.Int("n_types")
    L = R*C
    typ, kind = (z3.Function(x, I_, S) for x in ("type_at", "possible_type"))
    ratio = z3.Function("ratio", I_, R_)

    def lattice(U):
        I, s = U.I, U.s
        s.assume(z3.And(R >= 1, C >= 1, R*C >= 1, K >= 0))
        ts = I.lst(GSeq(L, lambda i: typ(integer(i))))
        ks = distinct_list(U, K, kind)
        rs = I.lst(GSeq(R, lambda i: ratio(integer(i))))
        return ts, ks, rs

    def share(t):          # which_ gives the position in the list of possible types
        i = fresh_index("i")
        return make_fold("sum", L, i, z3.If(typ(i) == t, ratio(i % R), z3.RealVal(0)))

    def collect(U):
        I, s = U.I, U.s
        ts, ks, rs = lattice(U)
        out = I.call(U.function(path, "collect_coverages"), [ts, ks, rs])
        U.prove(integer(I.length(out)) == K, "one value per asked type")
        U.forall(K, lambda j: real(I.getitem(out, j))*z3.ToReal(C) == share(kind(j)),
                 "the ratios of the positions it occupies, by the number of cells")
    P.unit("collect_coverages", collect, {}, {}, expect=["the ratios of the positions it occupies, by the number of cells"])


    # ------------------------------------------------ the analysis plugin
    from specs_text import read_files, same_list, some_list
    ext = plugin_externals()
    CA = "_CoveragesAnalysis__"
    cpath = PLUG + "coverages_analysis.py"
    e = z3.Int("empty_at")
    theta = z3.Function("coverage_of", S, S, R_)         # by configuration and type
    types_of = z3.Function("types_of", S, S)
    size = z3.Int("buffer_size")

    def c_collect(I, a, k):
        """collect_coverages: the coverage of each asked type, in order."""
        names = ("types", "possible_types", "coverage_ratios")
        ts, ks, rs = [a[j] if j < len(a) else k[x] for j, x in enumerate(names)]
        if not isinstance(ts, Opq) or rs is not I.ratios:
            raise Unsupported("coverages of something else")
        n, at = index_seq(I, view(ks))
        return I.lst(GSeq(integer(n), lambda i: theta(ts.term, at(integer(i)))))
    for x in (path + ":collect_coverages",       # (or the other implementation)
              "solvers.kmc_plugins.plugin_backends.kmc_functions.collect_coverages",
              PLUG + "plugin_backends/kmc_functions.py:collect_coverages"):
        ext[x] = Builtin(c_collect)

    def world(U):
        I, s = U.I, U.s
        s.assume(z3.And(K >= 1, e >= 0, e < K))
        I.ratios = I.lst(GSeq(R, lambda i: ratio(integer(i))))
        s.assume(R >= 1)
        M = Kmc(U, coverage_ratios=I.ratios, possible_element_types=distinct_list(U, K, kind),
                empty_type=kind(e))
        o = I.call(VClass_("CoveragesAnalysis", cpath), [M.obj], {"filename": "data.py", "buffer_size": size})
        return I, s, M, o

    def configuration(name="configuration"):
        c = z3.Const(name, S)
        return c, Opq(Spec("configuration", methods={
            "types": lambda I, o, a, k: Opq(Spec("types"), types_of(c))}), c)

    def value(c, j):
        """The coverage of the type: the empty type has what the others leave."""
        k = fresh_index("k")
        others = make_fold("sum", K - 1, k, theta(types_of(c), kind(z3.If(k < e, k, k + 1))))
        return z3.If(j == e, 1 - others, theta(types_of(c), kind(j)))

    def is_row(U, row, c, what):
        U.prove(integer(U.I.length(row)) == K, what + ": one value per possible type")
        U.forall(K, lambda j: real(U.I.getitem(row, j)) == value(c, j), what + ": its coverage, the rest for the empty type")

    def cinit(U):
        I, s, M, o = world(U)
        for x in ("times", "steps", "coverages"):
            U.prove(integer(I.length(o.attrs[CA + x])) == 0, x + ": nothing yet")
        U.prove(integer(o.attrs[CA + "buffer_size"]) == size, "the buffer size")
    P.unit("CoveragesAnalysis.__init__", cinit, {}, ext, expect=["coverages: nothing yet"])

    def csetup(U):
        I, s, M, o = world(U)
        I.files = I.lst(())
        c, conf = configuration()
        t, step = z3.Real("time"), z3.Int("step")
        U.method(o, "setup", [step, t, conf, None])
        for x, v in (("times", t), ("steps", step)):
            l = o.attrs[CA + x]
            U.prove(integer(I.length(l)) == 1, x + ": one")
            U.prove(real(I.getitem(l, 0)) == real(v), x + ": of the first step")
        l = o.attrs[CA + "coverages"]
        U.prove(integer(I.length(l)) == 1, "coverages: one")
        is_row(U, I.getitem(l, 0), c, "first step")
        if not s.decide(MASTER):
            U.prove(I.length(I.files) == 0, "only the master writes")
            return
        r = read_files(U, "data.py")
        U.prove(z3.BoolVal(I.segments(I.files)[0][0][1] == "w"), "a new file")
        for x in ("times", "steps"):
            U.prove(integer(I.length(r.var(x))) == 0, x + ": none in a new file")
        U.prove(z3.BoolVal(r.var("times") is not r.var("steps")), "two lists")
        l = r.var("coverages")
        U.prove(integer(I.length(l)) == K, "a list per possible type")
        U.forall(K, lambda j: integer(I.length(I.getitem(l, j))) == 0, "empty in a new file")
        same_list(U, r.var("possible_types"), M.attrs["possible_element_types"], "possible types")
    P.unit("CoveragesAnalysis.setup", csetup, {}, ext,
           expect=["first step: its coverage, the rest for the empty type", "empty in a new file",
                   "possible types: the same values in order"])

    n = z3.Int("n_buffered")
    bt, bs, bc = (z3.Function(x, *g) for x, g in (("buffered_time", (I_, R_)), ("buffered_step", (I_, I_)),
                                                   ("buffered_coverage", (I_, I_, R_))))

    def state(U):
        I, s, M, o = world(U)
        s.assume(n >= 0)
        vals = dict(times=I.lst(GSeq(n, lambda i: bt(integer(i)), open_=False)),
                    steps=I.lst(GSeq(n, lambda i: bs(integer(i)), open_=False)),
                    coverages=I.lst(GSeq(n, lambda i: I.lst(GSeq(K, lambda j, i=i: bc(integer(i), integer(j)),
                                                                 open_=False)), open_=False)),
                    flush_counter=z3.Int("flush_counter"))
        s.assume(z3.Int("flush_counter") >= 0)
        for x, v in vals.items():
            if CA + x not in o.attrs:
                raise Unsupported("no attribute " + x)
            I.setattr(o, CA + x, v)
        o.attrs["ghost"] = I.lst(())
        return I, s, M, o

    def c_flush(I, self, a, k):
        """__flush: what the buffers (not empty) hold is appended to the file; they are emptied."""
        if not I.s.valid(integer(I.length(self.attrs[CA + "coverages"])) >= 1)[0]:
            raise Unsupported("flush of empty buffers")
        I.append(self.attrs["ghost"], tuple(view(self.attrs[CA + x]) for x in ("times", "steps", "coverages")))
        for x in ("times", "steps", "coverages"):
            I.setattr(self, CA + x, I.lst(()))

    def buffered(U, l, which, what):
        """The first n entries are those of the buffers."""
        f = (lambda i: real(U.I.getitem(l, i)) == bt(i), lambda i: integer(U.I.getitem(l, i)) == bs(i))
        if which < 2:
            U.forall(n, f[which], what)
            return
        U.forall(n, lambda i: integer(U.I.length(U.I.getitem(l, i))) == K, what + " (lengths)")
        U.each(n, lambda i: U.forall(K, lambda j: real(U.I.getitem(U.I.getitem(l, i), j)) == bc(i, j), what))

    def cregister(U):
        I, s, M, o = state(U)
        c, conf = configuration()
        t, step = z3.Real("time"), z3.Int("step")
        U.method(o, "registerStep", [step, t, conf, None])
        flushed = I.segments(o.attrs["ghost"])
        flushed = flushed[0] if flushed else ()
        U.prove(z3.BoolVal(len(flushed) <= 1), "flushed at most once")
        now = [o.attrs[CA + x] for x in ("times", "steps", "coverages")]
        if flushed:
            U.prove(MASTER, "only the master writes")
            for x, l in zip(("times", "steps", "coverages"), now):
                U.prove(integer(I.length(l)) == 0, "emptied by the flush: " + x)
            now = flushed[0]
        for j, (x, l) in enumerate(zip(("times", "steps", "coverages"), now)):
            U.prove(integer(I.length(l)) == n + 1, "one more entry: " + x)
            buffered(U, l, j, "earlier entries stay: " + x)
        U.prove(real(I.getitem(now[0], n)) == t, "the time of the step")
        U.prove(real(I.getitem(now[1], n)) == real(step), "the step")
        is_row(U, I.getitem(now[2], n), c, "the step")
    P.unit("CoveragesAnalysis.registerStep", cregister, {"CoveragesAnalysis.__flush": c_flush}, ext,
           expect=["the step: its coverage, the rest for the empty type", "earlier entries stay: coverages",
                   "emptied by the flush: coverages"])

    def cfinalize(U):
        I, s, M, o = state(U)
        U.method(o, "finalize", [])
        flushed = I.segments(o.attrs["ghost"])
        if not flushed:
            U.prove(z3.Or(z3.Not(MASTER), n == 0), "the rest is written")
            return
        U.prove(MASTER, "only the master writes")
        U.prove(z3.BoolVal(len(flushed[0]) == 1), "written once")
        for j, l in enumerate(flushed[0][0]):
            U.prove(integer(I.length(l)) == n, "all of it (%d)" % j)
            buffered(U, l, j, "the rest (%d)" % j)
    P.unit("CoveragesAnalysis.finalize", cfinalize, {"CoveragesAnalysis.__flush": c_flush}, ext,
           expect=["the rest is written", "the rest (2)"])

    def cflush(U):
        I, s, M, o = state(U)
        s.assume(n >= 1)
        I.files = I.lst(())
        U.method(o, "_CoveragesAnalysis__flush", [])
        m = z3.Int("n_in_file")
        s.assume(m >= 0)
        oc = z3.Function("old_coverage", I_, I_, R_)
        old = {"times": I.lst(some_list(s, "old_times")), "steps": I.lst(some_list(s, "old_steps")),
               "coverages": I.lst(GSeq(K, lambda j: I.lst(GSeq(m, lambda i, j=j: oc(integer(j), integer(i)),
                                                               open_=False)), open_=False))}
        want = {x: I.lst(catseq(*(I.segments(old[x]) + [GSeq(n, lambda i, f=f: f(integer(i)))])))
                for x, f in (("times", bt), ("steps", bs))}
        r = read_files(U, "data.py", old)
        U.prove(z3.BoolVal(all(x[1] == "a" for g in I.segments(I.files) for x in g)), "appended")
        for x in want:
            same_list(U, r.var(x), want[x], x + " in the file")
        l = r.var("coverages")
        U.prove(integer(I.length(l)) == K, "a list per possible type")
        j = fresh_index("type")
        s.assume(z3.And(j >= 0, j < K))
        row = I.getitem(l, j)
        U.prove(integer(I.length(row)) == m + n, "a value per step")
        U.forall(m, lambda i: real(I.getitem(row, i)) == oc(j, i), "earlier coverages stay")
        U.forall(n, lambda i: real(I.getitem(row, m + i)) == bc(i, j), "then the coverages of each step")
        for x in ("times", "steps", "coverages"):
            U.prove(integer(I.length(o.attrs[CA + x])) == 0, "the buffer is emptied: " + x)
        U.prove(integer(o.attrs[CA + "flush_counter"]) >= 0, "the number of flushes")
    P.unit("CoveragesAnalysis.__flush", cflush, {}, ext,
           expect=["then the coverages of each step", "earlier coverages stay",
                   "times in the file: the same values in order"])


# ------------------------------------------------------------------ C20
KS = "scaks/solvers/kmc_solver.py"
CHECK = "scaks/utilities/check_utilities.py:check_process_dict"


def same_sequence(U, a, b, what):
    """The sequences are built the same way, piece by piece, with equal entries."""
    I = U.I
    sa, sb = I.segments(a), I.segments(b)
    U.prove(z3.BoolVal(len(sa) == len(sb)), what + ": the same pieces")
    for x, y in zip(sa, sb):
        if isinstance(x, tuple) and isinstance(y, tuple):
            U.prove(z3.BoolVal(len(x) == len(y)), what + ": as many")
            for p, q in zip(x, y):
                U.prove(truth(I.eq(p, q)), what + ": the same entries")
        elif isinstance(x, (GSeq, FlatSeq)) and isinstance(y, (GSeq, FlatSeq)):
            U.prove(integer(x.n) == integer(y.n), what + ": as many pieces")

            def piece(i):
                its = [chosen(I, z, i) for z in (x, y)]
                same_sequence(U, its[0], its[1], what)
            U.each(x.n, piece)
        else:
            raise Unsupported("pieces of different kinds")


def chosen(I, seg, i):
    """The items a piece gives at index i."""
    if isinstance(seg, GSeq):
        return (seg.at(i),)
    p = [(seg.var, i)]
    for c, items in seg.cases:
        if c is True or I.decide(subst(c, p)):
            return subst(items, p)
    return ()


def c20(P):
    P.assumption("a process definition that check_process_dict accepts is a dict with the required "
                 "entries (C27); its flags are booleans; rates are those of C09, C10")
    nr, npe, nb, ng, n1, n2 = (z3.Int(x) for x in ("n_rxns", "n_possible_elements", "n_basis_sites",
                                                   "n_coordinate_sets", "n_before", "n_after"))
    rxn, pelem, before, after = (z3.Function(x, I_, S) for x in
                                 ("rxn_expression", "possible_element", "element_before", "element_after"))
    basis = z3.Function("basis_site", I_, I_)
    coord = z3.Function("coordinate_set", I_, S)
    reaction, algo = z3.Const("reaction", S), z3.Const("rate_algo", S)
    rate = [z3.Function("rate_" + x, S, S, R_) for x in ("forward", "reverse")]
    valid = z3.Bool("well_formed")
    QUEUE = "_KMCSolver__process_mapping"

    def process(I, a, k):
        """What a process of the library holds (an immutable record)."""
        names = ("coordinates", "elements_before", "elements_after", "basis_sites", "rate_constant")
        d = dict(zip(names, a))
        d.update(k)
        if not set(names) <= set(d) <= set(names) | {"fast", "redist", "redist_species"}:
            raise Unsupported("arguments of a process")
        return tuple([snap(I, d[x]) for x in names] +
                     [d.get("fast", False), d.get("redist", False), d.get("redist_species")])

    def snap(I, v):
        return tuple(y for g in I.segments(v) for y in g) if isinstance(v, SList) and \
            all(isinstance(g, tuple) for g in I.segments(v)) else v

    def rates(name):
        def f(I, self, a, k):
            p = ("rxn_expression", "relative_energies", "include_pressure")
            d = dict(zip(p, a))
            d.update(k)
            if not isinstance(d["relative_energies"], Opq) or d["relative_energies"].term is None:
                raise Unsupported("energies")
            if d.get("include_pressure", True) is not True:
                raise Unsupported("rates without pressures")
            I.s.assume(z3.BoolVal(True))
            x = as_S(d["rxn_expression"])
            return tuple(r(lit(name), x) for r in rate)
        return f
    contracts = {"SolverBase.get_rxn_rates_TST": rates("TST"), "SolverBase.get_rxn_rates_CT": rates("CT"),
                 "KMCSolver.get_rxn_rates_TST": rates("TST"), "KMCSolver.get_rxn_rates_CT": rates("CT")}

    def c_check(I, a, k):
        if not I.s.decide(valid):
            pyraise("SetupError")
        return a[0]
    ext = {"KMCLib.*": {"KMCProcess": Builtin(process)}, "KMCLib.KMCProcess": Builtin(process), CHECK: Builtin(c_check)}

    def solver(U, **more):
        I, s = U.I, U.s
        s.assume(z3.And(nr >= 0, npe >= 0, nb >= 0, ng >= 0, n1 >= 0, n2 >= 0))
        s.assume(z3.Or(algo == lit("TST"), algo == lit("CT")))
        attrs = dict(rxn_expressions=I.lst(texts(s, nr, rxn)), possible_element_types=I.lst(texts(s, npe, pelem)),
                     rate_algo=algo, log_allowed=False,
                     relative_energies=Opq(Spec("energies"), z3.Const("energies", S)))
        attrs.update(more)
        o = net.Owner(I, attrs)
        k = I.obj(net.cls(KS, "KMCSolver"), {"_owner": o.obj, "_KMCSolver__logger": LOGGER})
        old = I.lst(GSeq(z3.Int("n_labels"), lambda i: z3.Function("old_label", I_, S)(integer(i)), open_=False))
        s.assume(z3.Int("n_labels") >= 0)
        k.attrs[QUEUE] = old
        return I, s, k, view(old)

    def single(U, fast, redist, has_species, logs):
        I, s, k, old = solver(U, log_allowed=logs)
        d = I.new(SDict())
        eb, ea = I.lst(GSeq(n1, lambda i: before(integer(i)))), I.lst(GSeq(n2, lambda i: after(integer(i))))
        species = Opq(Spec("redist_species"), z3.Const("redist_species", S))
        items = [("reaction", reaction), ("elements_before", eb), ("elements_after", ea),
                 ("basis_sites", I.lst(GSeq(nb, lambda i: basis(integer(i))))),
                 ("coordinates_group", I.lst(GSeq(ng, lambda i: Opq(Spec("coordinates"), coord(integer(i))))))]
        if fast is not None:
            items.append(("fast", fast))
        if redist is not None:
            items.append(("redist", redist))
        if has_species:
            items.append(("redist_species", species))
        for x, v in items:
            I.dict_set(d, x, v)
        known = some_in(nr, rxn, reaction)
        good = lambda f: lambda i: z3.Or(f(i) == lit("*"), some_in(npe, pelem, f(i)))
        try:
            out = U.method(k, "_KMCSolver__get_single_process", [d])
        except PyRaise as e:
            if e.name != "SetupError":
                raise
            s.assume_all(lambda i: z3.Implies(z3.And(i >= 0, i < n1), good(before)(i)))
            s.assume_all(lambda i: z3.Implies(z3.And(i >= 0, i < n2), good(after)(i)))
            U.prove(z3.Not(z3.And(valid, known)), "rejected only if malformed, unknown or impossible")
            same_sequence(U, k.attrs[QUEUE], I.lst(old.seq), "no label on rejection")
            return
        U.prove(z3.And(valid, known), "accepted only a known reaction")
        U.forall(n1, good(before), "accepted only possible elements before")
        U.forall(n2, good(after), "accepted only possible elements after")
        is_fast, is_redist = bool(fast), bool(redist)
        rf, rr = [z3.If(algo == lit("CT"), r(lit("CT"), reaction), r(lit("TST"), reaction)) for r in rate]
        want, labels = I.lst(()), I.lst(old.seq)
        coords = I.getitem(d, "coordinates_group")

        def pair(b, c):
            I.append(want, (c, eb, ea, (b,), rf, is_fast, is_redist, species if has_species else None))
            if not I.test(is_fast):
                I.append(labels, rope(reaction, "(->)"))
            if not I.test(is_redist):
                I.append(want, (c, ea, eb, (b,), rr, is_fast, False, None))
                if not I.test(is_fast):
                    I.append(labels, rope(reaction, "(<-)"))
        I.for_each(I.getitem(d, "basis_sites"), lambda b: I.for_each(coords, lambda c: pair(b, c)))
        same_sequence(U, out, want, "processes")
        same_sequence(U, k.attrs[QUEUE], labels, "labels")
    for f in (None, False, True):
        for r in (None, False, True):
            for sp in (False, True):
                for logs in (False, True):
                    what = ", ".join(["%s %s" % (x, y) for x, y in (("fast", f), ("redist", r)) if y is not None] +
                                     (["redist_species"] if sp else []) + (["logging"] if logs else []))
                    P.unit("KMCSolver.__get_single_process(%s)" % (what or "no flags"),
                           lambda U, x=(f, r, sp, logs): single(U, *x), contracts, ext,
                           expect=["processes: the same entries", "rejected only if malformed, unknown or impossible"] +
                           ([] if f else ["labels: the same entries"]))

    nd = z3.Int("n_definitions")
    made_of, label_of = z3.Function("process_of", I_, I_, S), z3.Function("label_of", I_, I_, S)
    how_many, labels_of = z3.Function("processes_of", I_, I_), z3.Function("labels_of", I_, I_)

    def c_single(I, self, a, k):
        """The processes of the definition; its labels are appended."""
        j = a[0].term
        l = self.attrs[QUEUE]
        I.s.assume(z3.And(how_many(j) >= 0, labels_of(j) >= 0))
        I.bm.LIST["extend"](I, l, [GSeq(labels_of(j), lambda i: label_of(j, integer(i)))], {})
        return I.lst(GSeq(how_many(j), lambda i: Opq(Spec("process"), made_of(j, integer(i)))))

    def every(U):
        I, s, k, old = solver(U, process_dicts=None)
        s.assume(nd >= 0)
        defs = U.I.lst(GSeq(nd, lambda i: Opq(Spec("definition"), integer(i))))
        I, s, k, old = solver(U, process_dicts=defs)
        out = U.method(k, "get_processes", [])
        want, labels = I.lst(()), I.lst(old.seq)

        def one(x):
            j = x.term
            s.assume(z3.And(how_many(j) >= 0, labels_of(j) >= 0))
            I.bm.LIST["extend"](I, want, [GSeq(how_many(j), lambda i: Opq(Spec("process"), made_of(j, integer(i))))], {})
            I.bm.LIST["extend"](I, labels, [GSeq(labels_of(j), lambda i: label_of(j, integer(i)))], {})
        I.for_each(defs, one)
        same_sequence(U, out, want, "processes of every definition")
        same_sequence(U, k.attrs[QUEUE], labels, "labels of every definition")
    P.unit("KMCSolver.get_processes", every, {"KMCSolver.__get_single_process": c_single}, ext,
           expect=["processes of every definition: the same entries", "labels of every definition: the same entries"])


def distinct_list(U, n, f):
    g = texts(U.s, n, f)
    U.s.schema(f.name(), lambda a: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < n),
                                               z3.Function("which_" + f.name(), S, I_)(a) == a.arg(0))])
    return U.I.lst(g)


def truth(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def VClass_(name, path):
    import source
    r = source.Module.get(path).find(name)
    return VClass(name, r[2], r[1])


PROPS = {"C20": c20, "C21": c21, "C22": c22, "C23": c23, "C32": c32}
