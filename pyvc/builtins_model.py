"""Models of the built-in and library functions the repository calls: the assumed
contracts on Python itself, math, numpy, mpmath, logging, os and operator."""
import ast
import math
from fractions import Fraction

import z3

import terms as T
from terms import S, lit, is_z3, real, integer, fresh_index, fresh_name, make_fold
from session import Unsupported, Infeasible
from values import *          # noqa
from values import DictBase, view

NUM = (int, float, Fraction)


def is_num(v):
    return (isinstance(v, NUM) and not isinstance(v, bool)) or \
        (is_z3(v) and v.sort() in (z3.IntSort(), z3.RealSort()))


def is_intish(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or \
        (is_z3(v) and v.sort() == z3.IntSort())


def is_seq(v):
    return isinstance(v, (tuple, SList, GSeq, CatSeq, FlatSeq)) or \
        (isinstance(v, Opq) and v.spec.iterate is not None)


def pyraise(name, msg=""):
    import interp
    interp.pyraise(name, msg)


def zmap(I, seq, fn):
    """Sequence of fn(x) for x in seq (fn may fork or have effects)."""
    out = I.lst(())
    I.for_each(seq, lambda x: I.append(out, fn(x)))
    return out


def num_if(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if is_intish(a) and is_intish(b):
        return z3.If(c, integer(a), integer(b))
    return z3.If(c, real(a), real(b))


# ------------------------------------------------------------------ functions
def b_len(I, a, k):
    v = a[0]
    if isinstance(v, SDict):
        return I.length(I.dict_keys(v))
    if isinstance(v, VObj):
        return I.call_method(v, "__len__")
    if isinstance(v, Rope) or (is_z3(v) and v.sort() == S):
        f = z3.Function("textlen", S, z3.IntSort())
        try:
            return f(as_S(v))
        except Unsupported:
            return z3.Const(fresh_name("len"), z3.IntSort())
    if v is None or is_num(v):
        pyraise("TypeError")
    return I.length(v)


def b_range(I, a, k):
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3:
        if all(isinstance(x, int) for x in a):
            return tuple(range(*a))
        raise Unsupported("range with a step")
    if isinstance(lo, int) and isinstance(hi, int):
        if hi - lo > 400:
            return GSeq(z3.IntVal(hi - lo), lambda i: integer(lo) + i, "range")
        return tuple(range(lo, hi))
    n = z3.simplify(integer(hi) - integer(lo))
    z = z3.If(n > 0, n, z3.IntVal(0))
    if I.s.feasible(n < 0) is False:
        z = n
    if isinstance(lo, int) and lo == 0:
        return GSeq(z, lambda i: integer(i), "range")
    return GSeq(z, lambda i: integer(lo) + integer(i), "range")


def b_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    segs = I.segments(a[0])
    parts, off = [], start
    for seg in segs:
        if isinstance(seg, tuple):
            parts.append(tuple((add(off, j), x) for j, x in enumerate(seg)))
            off = add(off, len(seg))
        elif isinstance(seg, GSeq):
            parts.append(GSeq(seg.n, lambda i, seg=seg, off=off: (add(off, integer(i)), seg.at(i))))
            off = add(off, seg.n)
        elif isinstance(seg, FlatSeq):
            one = all(I.length(it) == 1 for _, it in seg.cases)
            if not one or not I.covers(seg):
                raise Unsupported("enumeration of a filtered sequence")
            v = seg.var
            parts.append(each_case(I, seg, lambda x, off=off: (add(off, v), x)))
            off = add(off, seg.n)
        else:
            raise Unsupported("enumerate")
    return catseq(*parts)


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return integer(a) + integer(b)


def index_seq(I, v):
    """(length, at) of a sequence that can be indexed without forks, or None."""
    segs = I.segments(v)
    if not segs:
        return 0, None
    if len(segs) == 1:
        seg = segs[0]
        if isinstance(seg, tuple):
            return len(seg), seg
        if isinstance(seg, GSeq):
            return seg.n, seg.at
        if isinstance(seg, FlatSeq):
            n = I.length(seg)
            return n, (lambda i: I.seg_at(seg, i))
    n = I.length(v)
    c = view(v)
    return n, (lambda i: I.seq_at(c, i))


def unzip(I, v):
    """zip(*rows): the columns of rows of one length."""
    n, row = index_seq(I, v)
    if isinstance(row, tuple):
        return b_zip(I, list(row), {})
    n = integer(n)
    if not I.decide(n > 0):
        return ()
    w = integer(I.length(row(z3.IntVal(0))))
    j = fresh_index("r")
    if not I.s.valid(z3.Implies(z3.And(j >= 0, j < n), integer(I.length(row(j))) == w))[0]:
        raise Unsupported("zip of rows of different lengths")
    return GSeq(w, lambda i: GSeq(n, lambda r: I.seq_at(row(r), integer(i))))


def b_zip(I, a, k):
    a = [x for x in a]
    if not a:
        return ()
    seqs = [index_seq(I, x) for x in a]
    if all(isinstance(s[1], tuple) or s[0] == 0 for s in seqs):
        return tuple(zip(*[s[1] or () for s in seqs]))
    if any(isinstance(s[0], int) and s[0] == 0 for s in seqs):
        return ()
    # the shortest decides
    n = None
    for s in seqs:
        m = integer(s[0])
        if n is None:
            n = m
            continue
        if n.get_id() == m.get_id() or I.s.valid(n == m, timeout=1500)[0]:
            continue
        n = z3.If(n <= m, n, m)
    n = z3.simplify(n)

    def at(i):
        out = []
        for (m, f), src in zip(seqs, a):
            if isinstance(f, tuple):
                out.append(I.seg_at(f, i))
            else:
                out.append(f(integer(i)))
        return tuple(out)
    r = GSeq(n, at, "zip")
    if z3.is_int_value(n):
        return tuple(r.at(z3.IntVal(j)) for j in range(n.as_long()))
    return r


def b_map(I, a, k):
    f = a[0]
    if len(a) == 2:
        return zmap(I, a[1], lambda x: I.call(f, [x]))
    return zmap(I, b_zip(I, a[1:], {}), lambda x: I.call(f, list(x)))


def b_filter(I, a, k):
    out = I.lst(())

    def body(x):
        if I.test(x if a[0] is None else I.call(a[0], [x])):
            I.append(out, x)
    I.for_each(a[1], body)
    return out


def b_sum(I, a, k):
    start = a[1] if len(a) > 1 else 0
    if isinstance(a[0], SMatrix):
        raise Unsupported("sum of a matrix")
    if hasattr(a[0], "values_of"):
        return dict_values_sum(I, a[0].values_of)
    tot = [start]

    def seg_sum(seg):
        if isinstance(seg, tuple):
            for x in seg:
                tot[0] = I.binop(ast.Add(), tot[0], x)
            return
        if isinstance(seg, GSeq):
            v = fresh_index("s")
            got = fork_values(I, seg, v)
            add_fold(seg.n, v, got)
            return
        v = fresh_index("s")
        pairs = [(seg.var, v)]
        body = z3.RealVal(0)
        ints = True
        for c, items in reversed(seg.cases):
            val = 0
            for sub in I.segments(items):
                if not isinstance(sub, tuple):
                    # inner fold
                    w = fresh_index("s")
                    if isinstance(sub, GSeq):
                        b = fork_values(I, sub, w)
                        nn = sub.n
                    else:
                        raise Unsupported("sum over nested filtered sequences")
                    ints = ints and all(is_intish(x) for _, x in b)
                    val = I.arith(ast.Add(), val, make_fold("sum", nn, w, ite(b)))
                    continue
                for x in sub:
                    x = summand(I, x)
                    if not is_num(x):
                        raise Unsupported("sum of %r" % (x,))
                    ints = ints and is_intish(x)
                    val = I.arith(ast.Add(), val, x)
            val = real(val)
            body = val if c is True else z3.If(c, val, body)
        body = subst(body, pairs)
        f = make_fold("sum", subst(seg.n, pairs), v, body)
        tot[0] = I.binop(ast.Add(), tot[0], z3.ToInt(f) if ints else f)

    def add_fold(n, v, got):
        ints = all(is_intish(x) for _, x in got)
        f = make_fold("sum", n, v, ite(got))
        tot[0] = I.binop(ast.Add(), tot[0], z3.ToInt(f) if ints else f)
    for seg in I.segments(a[0]):
        seg_sum(seg)
    return tot[0]


def summand(I, x):
    """What an opaque value adds to a number."""
    if isinstance(x, Opq) and "__op__" in x.spec.methods:
        return I.binop(ast.Add(), 0, x)
    return x


def ite(cases):
    body = z3.RealVal(0)
    for c, x in reversed(cases):
        body = real(x) if c is True else z3.If(c, real(x), body)
    return body


def fork_values(I, seg, v):
    """[(condition, value)] of seg at index v (reading it may fork)."""
    def thunk():
        I.s.assume(z3.And(v >= 0, v < seg.n))
        x = summand(I, seg.at(v))
        if not is_num(x) and not isinstance(x, bool):
            raise Unsupported("sum of %r" % (x,))
        return x
    pre = len(I.s.pc)
    res = I.s.explore(thunk)
    out = []
    for conds, x in res:
        conds = conds[1:]
        out.append((I.conj(conds), x))
    if len(out) == 1:
        out = [(True, out[0][1])]
    return out


def b_minmax(which):
    def f(I, a, k):
        if "key" in k:
            raise Unsupported("max with a key")
        if len(a) == 1:
            segs = I.segments(a[0])
            if all(isinstance(g, tuple) for g in segs):
                a = [x for g in segs for x in g]
                if not a:
                    pyraise("ValueError")
            elif len(segs) == 1 and isinstance(segs[0], GSeq):
                return extremum(I, segs[0], which)
            elif len(segs) == 1 and isinstance(segs[0], FlatSeq) and all(
                    isinstance(x, tuple) and len(x) <= 1 for _, x in segs[0].cases) and not each_has_one(segs[0]):
                return filtered_extremum(I, segs[0], which)
            elif len(segs) == 1:
                n, at = index_seq(I, a[0])
                return extremum(I, GSeq(integer(n), at), which)
            else:
                raise Unsupported("max of a sequence in pieces")
        if all(not is_z3(x) for x in a) and all(is_num(x) for x in a):
            return max(a) if which == "max" else min(a)
        r = a[0]
        for x in a[1:]:
            if is_intish(r) and is_intish(x):
                p, q = integer(r), integer(x)
            else:
                p, q = real(r), real(x)
            r = z3.If(q > p, q, p) if which == "max" else z3.If(q < p, q, p)
        return r
    return f


def extremum(I, seg, which):
    """max/min over a sequence of unknown length: a fresh number with its contract."""
    if I.decide(seg.n <= 0):
        pyraise("ValueError")
    j0 = fresh_index("x")
    I.s.assume(z3.And(j0 >= 0, j0 < seg.n))
    r = seg.at(j0)
    if not is_num(r):
        raise Unsupported("max of %r" % (r,))
    probe = fresh_index("x")

    def bound(j):
        y = seg.at(j)
        c = real(r) >= real(y) if which == "max" else real(r) <= real(y)
        return z3.Implies(z3.And(j >= 0, j < seg.n), c)
    bound(probe)
    I.s.assume_all(bound)
    return r


def each_has_one(seg):
    some = [z3.BoolVal(c) if isinstance(c, bool) else c for c, x in seg.cases if x]
    return len(some) == len(seg.cases) and T.quick_valid(z3.Or(some))


def filtered_extremum(I, seg, which):
    """The same over the elements that meet a condition."""
    x, found = z3.RealVal(0), []
    for c, xs in reversed(seg.cases):
        if xs and not is_num(xs[0]):
            raise Unsupported("max of %r" % (xs[0],))
        c = z3.BoolVal(c) if isinstance(c, bool) else c
        if xs:
            found.append(c)
            x = z3.If(c, real(xs[0]), x)
        elif found:
            found = [z3.And(f, z3.Not(c)) for f in found]
    c = z3.Or(found)
    at = lambda j: z3.And(j >= 0, j < seg.n, subst(c, [(seg.var, j)]))
    if I.s.choose(2):
        I.s.assume_all(lambda j: z3.Not(at(j)))
        I.check_feasible()
        pyraise("ValueError")
    j0 = fresh_index("x")
    I.s.assume(at(j0))
    I.check_feasible()
    val = lambda j: real(subst(x, [(seg.var, j)]))
    r = val(j0)
    I.s.assume_all(lambda j: z3.Implies(at(j), r >= val(j) if which == "max" else r <= val(j)))
    return r


def b_abs(I, a, k):
    x = a[0]
    if isinstance(x, Opq) and "__abs__" in x.spec.methods:
        return x.spec.methods["__abs__"](I, x, [], {})
    if not is_z3(x):
        if is_num(x):
            return abs(x)
        raise Unsupported("abs of %r" % (x,))
    return z3.If(x >= 0, x, -x)


def b_round(I, a, k):
    if not is_z3(a[0]):
        return round(*a)
    raise Unsupported("round")


def b_float(I, a, k):
    v = a[0] if a else 0.0
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            pyraise("ValueError")
    if is_text(v):
        raise Unsupported("float of text")
    if is_num(v):
        if is_z3(v):
            return real(v)
        return float(v) if not isinstance(v, Fraction) else v
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, Opq) and "float" in v.spec.methods:
        return v.spec.methods["float"](I, v, [], {})
    if v is None or isinstance(v, (SList, SDict, tuple)):
        pyraise("TypeError")
    raise Unsupported("float of %r" % (v,))


def b_int(I, a, k):
    v = a[0] if a else 0
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            pyraise("ValueError")
    if is_z3(v) and v.sort() == z3.IntSort():
        return v
    if is_z3(v) and v.sort() == z3.RealSort():
        # towards zero
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if isinstance(v, Rope) and len(v.parts) == 1 and is_z3(v.parts[0]) and \
            v.parts[0].sort() == z3.IntSort():
        return v.parts[0]
    if isinstance(v, Opq) and "int" in v.spec.methods:
        return v.spec.methods["int"](I, v, [], {})
    raise Unsupported("int of %r" % (v,))


def to_text(I, v):
    if is_text(v):
        return v
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, (int, float)):
        return repr(v)
    if is_z3(v) and v.sort() in (z3.IntSort(), z3.RealSort()):
        return Rope([v])
    if isinstance(v, tuple) and all(isinstance(x, (str, int, float)) for x in v) and \
            not (v and v[0] == "exc"):
        return str(v)
    if isinstance(v, Opq) and "__str__" in v.spec.methods:
        return v.spec.methods["__str__"](I, v, [], {})
    t = z3.Const(fresh_name("text"), S)
    if isinstance(v, SList):
        I.text_of[t.get_id()] = (t, view(v))
    return Rope([t])


def b_str(I, a, k):
    return to_text(I, a[0]) if a else ""


def type_names(I, t):
    if isinstance(t, VType):
        return [t]
    if isinstance(t, tuple):
        return [y for x in t for y in type_names(I, x)]
    return [t]


PYBASE = {"bool": ("int",)}


def type_of(I, v):
    """Name of the concrete Python type, or None."""
    if isinstance(v, bool):
        return "bool"
    if v is None:
        return "NoneType"
    if is_text(v):
        return "str"
    if is_z3(v):
        if v.sort() == z3.BoolSort():
            return "bool"
        return None
    if isinstance(v, int):
        return "int"
    if isinstance(v, (float, Fraction)):
        return "float"
    if isinstance(v, SDict):
        return "dict"
    if isinstance(v, SList):
        return "list"
    if isinstance(v, (tuple, GSeq, CatSeq, FlatSeq)):
        return "tuple"
    if isinstance(v, SSet):
        return "set"
    if isinstance(v, SMatrix):
        return "list" if v.kind == "lists" else "matrix"
    if isinstance(v, (VFunc, Builtin)):
        return "function"
    if isinstance(v, Opq) and v.spec.types:
        return v.spec.types[0]
    return None


def b_isinstance(I, a, k):
    v, t = a
    res = []
    for one in type_names(I, t):
        if isinstance(v, Opq) and "isinstance" in v.spec.methods:
            res.append(v.spec.methods["isinstance"](I, v, [one], {}))
            continue
        if isinstance(one, VType):
            n = type_of(I, v)
            if isinstance(v, VObj):
                res.append(False)
                continue
            if n is None:
                if is_z3(v) and v.sort() == z3.IntSort():
                    n = "int"
                elif is_z3(v) and v.sort() == z3.RealSort():
                    n = "float"
                else:
                    raise Unsupported("type of %r" % (v,))
            res.append(n == one.name or one.name in PYBASE.get(n, ()) or one.name == "object")
        elif isinstance(one, VClass) or one.__class__.__name__ == "VClassRef":
            if isinstance(v, VObj):
                from source import class_info
                ci = one.cls if not isinstance(one, VClass) else class_info(one.module, one.node)
                res.append(v.cls is not None and ci in v.cls.mro())
            elif isinstance(v, Opq):
                raise Unsupported("isinstance of %r" % (v,))
            else:
                res.append(False)
        else:
            raise Unsupported("isinstance with %r" % (one,))
    return I.disj(res)


def b_type(I, a, k):
    v = a[0]
    if isinstance(v, Opq):
        if "type" in v.spec.methods:
            return v.spec.methods["type"](I, v, [], {})
        if v.spec.types:
            return VType(v.spec.types[0])
        raise Unsupported("type of %r" % (v,))
    if isinstance(v, VObj):
        import interp
        return interp.VClassRef(v.cls)
    n = type_of(I, v)
    if n is None:
        if is_z3(v) and v.sort() == z3.IntSort():
            n = "int"
        elif is_z3(v) and v.sort() == z3.RealSort():
            n = "float"
        else:
            raise Unsupported("type of %r" % (v,))
    return VType(n)


def b_list(I, a, k):
    if not a:
        return I.lst(())
    v = a[0]
    if isinstance(v, SList):
        return I.new(SList(v.seq, v.layers))
    return I.lst(catseq(*I.segments(v)))


def b_tuple(I, a, k):
    if not a:
        return ()
    if isinstance(a[0], Opq) and "__tuple__" in a[0].spec.methods:
        return a[0].spec.methods["__tuple__"](I, a[0], [], {})
    return catseq(*I.segments(a[0]))


def b_set(I, a, k):
    if not a:
        return I.new(SSet(()))
    segs = I.segments(a[0])
    if len(segs) == 1 and isinstance(segs[0], GSeq) and not segs[0].distinct and segs[0].index_fn is not None:
        g = segs[0]

        def there(t):
            k = g.index_fn(t)
            return z3.And(k >= 0, k < integer(g.n))
        return I.new(SSet(distinct_texts(I, there, integer(g.n))))
    if not (len(segs) == 1 and isinstance(segs[0], GSeq) and segs[0].distinct) and \
            any(not isinstance(g, tuple) for g in segs):
        try:
            t = z3.Const(fresh_name("a_text"), S)
            there = occurrences(I, segs, t) >= 1
        except Unsupported:
            there = None
        if there is not None:
            # (the number of its own elements is left out)
            occ = z3.Function(fresh_name("occurs"), S, z3.BoolSort())
            I.s.schema(occ.name(), lambda a: [] if z3.is_app(a.arg(0)) and a.arg(0).num_args() and
                       a.arg(0).decl().name().startswith("distinct!") else [
                           a == z3.substitute(there, (t, a.arg(0)))])
            return I.new(SSet(distinct_texts(I, occ)))
    return I.new(SSet(catseq(*segs)))


def occurrences(I, segs, t):
    """How often a text occurs in a sequence of texts."""
    tot = z3.RealVal(0)
    for seg in segs:
        if isinstance(seg, tuple):
            for x in seg:
                if not is_text(x):
                    raise Unsupported("occurrences of something else than texts")
                tot = tot + z3.If(as_S(x) == t, z3.RealVal(1), z3.RealVal(0))
        elif isinstance(seg, GSeq):
            j = fresh_index("o")
            x = general0(lambda: seg.at(j))
            if not is_text(x):
                raise Unsupported("occurrences of something else than texts")
            tot = tot + T.make_fold("sum", integer(seg.n), j, z3.If(
                as_S(x) == t, z3.RealVal(1), z3.RealVal(0)))
        elif isinstance(seg, FlatSeq):
            cnt = z3.RealVal(0)
            for c, items in reversed(seg.cases):
                here = occurrences(I, I.segments(items), t)
                cnt = here if c is True else z3.If(c, here, cnt)
            tot = tot + T.make_fold("sum", integer(seg.n), seg.var, cnt)
        else:
            raise Unsupported("occurrences in %r" % (seg,))
    return z3.simplify(tot)


def distinct_texts(I, there, most=None):
    """The texts of a sequence, each once, in some order (out of range: any other texts)."""
    name = fresh_name("distinct")
    n = z3.Int("n_" + name)
    f, w = z3.Function(name, z3.IntSort(), S), z3.Function("no_" + name, S, z3.IntSort())
    I.s.assume(n >= 0)
    if most is not None:
        I.s.assume(z3.And(n <= most, z3.Implies(most > 0, n > 0)))
    T.INVERSE[name] = w
    I.s.schema(name, lambda a: [w(a) == a.arg(0), z3.Implies(
        z3.And(a.arg(0) >= 0, a.arg(0) < n), there(a))])
    I.s.schema(w.name(), lambda a: [z3.Implies(z3.And(a >= 0, a < n), f(a) == a.arg(0)),
                                    there(a.arg(0)) == z3.And(a >= 0, a < n)])
    return GSeq(n, lambda i: f(integer(i)), "distinct", True, lambda t: T.undo(name, w, t))


def b_dict(I, a, k):
    d = I.new(SDict())
    if a:
        v = a[0]
        if isinstance(v, SDict):
            d.base, d.layers = v.base, v.layers
        elif isinstance(v, DictBase):
            d.base = v
        elif isinstance(v, Opq) and v.spec.getitem is not None and "__dict_base__" in v.spec.methods:
            d.base = v.spec.methods["__dict_base__"](I, v, [], {})
        else:
            I.for_each(v, lambda x: I.dict_set(d, I.getitem(x, 0), I.getitem(x, 1)))
    for key, val in k.items():
        I.dict_set(d, key, val)
    return d


def b_sorted(I, a, k):
    v = a[0]
    segs = I.segments(v)
    if all(isinstance(g, tuple) for g in segs):
        xs = [x for g in segs for x in g]
        if all(isinstance(x, (int, float, str)) for x in xs) and "key" not in k:
            return I.lst(tuple(sorted(xs, reverse=bool(k.get("reverse", False)))))
        if len(xs) <= 1:
            return I.lst(tuple(xs))
    # a permutation of the input, of which nothing else is known (out of range the identity)
    if isinstance(v, SSet) and not (len(segs) == 1 and isinstance(segs[0], GSeq) and segs[0].distinct):
        raise Unsupported("sorting a set")
    n = I.length(v)
    perm = z3.Function(fresh_name("perm"), z3.IntSort(), z3.IntSort())
    inv = z3.Function(perm.name() + "_inverse", z3.IntSort(), z3.IntSort())
    base = segs[0] if isinstance(v, SSet) else view(v)
    T.INVERSE[perm.name()] = inv
    n = integer(n)

    def inside(x):
        return z3.And(x >= 0, x < n)
    I.s.schema(perm.name(), lambda a: [inv(a) == a.arg(0), inside(a.arg(0)) == inside(a)])
    I.s.schema(inv.name(), lambda a: [perm(a) == a.arg(0), inside(a.arg(0)) == inside(a)])

    def at(i):
        return I.seq_at(base, perm(integer(i)))
    g = segs[0] if len(segs) == 1 and isinstance(segs[0], GSeq) and segs[0].distinct and \
        segs[0].index_fn is not None else None
    if g is None or k:
        return I.lst(GSeq(n, at, "sorted"))
    j = fresh_index("s")
    if is_text(general0(lambda: at(j))):
        # neighbours are in order
        I.s.schema(perm.name(), lambda a: [] if z3.is_add(a.arg(0)) and any(
            z3.is_int_value(x) and x.as_long() == -1 for x in a.arg(0).children()) or any(
            z3.is_app(x) and x.decl().eq(inv) for x in T.consts_of(a.arg(0))) else [
            z3.Implies(z3.And(a.arg(0) >= 1, a.arg(0) < n),
                       precedes(as_S(at(z3.simplify(a.arg(0) - 1))), as_S(at(a.arg(0)))))])
    return I.lst(GSeq(n, at, "sorted", True, lambda t: T.undo(perm.name(), inv, g.index_fn(t))))


precedes = z3.Function("precedes", S, S, z3.BoolSort())


def b_reversed(I, a, k):
    return I.slice(a[0], slice(None, None, -1))


def b_reduce(I, a, k):
    f, seq = a[0], a[1]
    segs = I.segments(seq)
    if all(isinstance(g, tuple) for g in segs):
        xs = [x for g in segs for x in g]
        if len(a) > 2:
            xs = [a[2]] + xs
        if not xs:
            pyraise("TypeError", "reduce of empty sequence")
        r = xs[0]
        for x in xs[1:]:
            r = I.call(f, [r, x])
        return r
    # a product (or sum) over a sequence of unknown length
    if len(a) > 2:
        start = a[2]
    else:
        start = None
        n = I.length(seq)
        if is_z3(n) and I.decide(n <= 0):
            pyraise("TypeError", "reduce of empty sequence")
    x, y = z3.Real(fresh_name("x")), z3.Real(fresh_name("y"))
    try:
        r = I.call(f, [x, y])
    except Unsupported:
        raise
    kind = None
    if is_num(r):
        if T._z3_check([real(r) != x*y], 1000)[0] == z3.unsat:
            kind = "prod"
        elif T._z3_check([real(r) != x + y], 1000)[0] == z3.unsat:
            kind = "sum"
    if kind is None:
        raise Unsupported("reduce with an unknown function")
    tot = start if start is not None else (1 if kind == "prod" else 0)
    op = ast.Mult() if kind == "prod" else ast.Add()
    for seg in segs:
        if isinstance(seg, tuple):
            for z in seg:
                tot = I.binop(op, tot, z)
            continue
        v = fresh_index("r")
        if isinstance(seg, GSeq):
            got = fork_values(I, seg, v)
            body = ite_unit(got, kind)
            nn = seg.n
        else:
            body = real(1 if kind == "prod" else 0)
            for c, items in reversed(seg.cases):
                val = 1 if kind == "prod" else 0
                for sub in I.segments(items):
                    if not isinstance(sub, tuple):
                        raise Unsupported("reduce over nested sequences")
                    for z in sub:
                        val = I.arith(op, val, z)
                body = real(val) if c is True else z3.If(c, real(val), body)
            body = subst(body, [(seg.var, v)])
            nn = subst(seg.n, [(seg.var, v)])
        tot = I.binop(op, tot, make_fold(kind, nn, v, body))
    return tot


def ite_unit(cases, kind):
    body = real(1 if kind == "prod" else 0)
    for c, x in reversed(cases):
        body = real(x) if c is True else z3.If(c, real(x), body)
    return body


def b_any(I, a, k):
    return quantified(I, a[0], True)


def b_all(I, a, k):
    return quantified(I, a[0], False)


def quantified(I, v, isany):
    segs = I.segments(v)
    conc = []
    rest = []
    for g in segs:
        if isinstance(g, tuple):
            conc.extend(I.truth(x) for x in g)
        else:
            rest.append(g)
    c = I.disj(conc) if isany else I.conj(conc)
    if not rest:
        return c
    if I.decide(c if isany else I.neg(c)):
        return isany
    for g in rest:
        def holds(j, g=g):
            if isinstance(g, GSeq):
                return I.truth(g.at(j))
            cs = []
            p = [(g.var, j)]
            for cnd, items in g.cases:
                for sub in I.segments(items):
                    if not isinstance(sub, tuple):
                        raise Unsupported("any over nested sequences")
                    t = [I.truth(subst(x, p)) for x in sub]
                    cond = subst(cnd, p) if cnd is not True else True
                    if isany:
                        cs.append(I.conj([cond, I.disj(t)]))
                    else:
                        cs.append(I.disj([I.neg(cond), I.conj(t)]))
            return I.disj(cs) if isany else I.conj(cs)
        if I.s.choose(2) == 0:
            w = fresh_index("w")
            I.s.assume(z3.And(w >= 0, w < g.n))
            h = holds(w)
            I.s.assume(h if isany else I.neg(h))
            I.check_feasible()
            return isany

        def nothing(j, holds=holds, g=g):
            h = holds(j)
            h = I.neg(h) if isany else h
            return z3.Implies(z3.And(j >= 0, j < g.n), z3.BoolVal(h) if isinstance(h, bool) else h)
        I.s.assume_all(nothing)
        I.check_feasible()
    return not isany


def b_divmod(I, a, k):
    return (I.arith(ast.FloorDiv(), a[0], a[1]), I.arith(ast.Mod(), a[0], a[1]))


def b_hasattr(I, a, k):
    if isinstance(a[0], Opq) and "hasattr" in a[0].spec.methods:
        return a[0].spec.methods["hasattr"](I, a[0], [a[1]], {})
    try:
        v = I.getattr(a[0], a[1])
    except PyRaise as e:
        if e.name == "AttributeError":
            return False
        raise
    return True


def b_getattr(I, a, k):
    if len(a) > 2:
        return I.getattr(a[0], a[1], a[2])
    return I.getattr(a[0], a[1])


def b_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def b_isdigit(I, a, k):
    raise Unsupported("isdigit")


def noop(I, a, k):
    return None


def b_callable(I, a, k):
    return isinstance(a[0], (VFunc, Builtin, VClass))


def b_repr(I, a, k):
    return Rope([z3.Const(fresh_name("text"), S)]) if not isinstance(a[0], str) else repr(a[0])


def b_bool(I, a, k):
    return I.truth(a[0]) if a else False


def b_id(I, a, k):
    raise Unsupported("id")


def b_open(I, a, k):
    """A file: reading gives the user's text."""
    import ropeexec
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    if mode in ("w", "a") and I.files is not None:
        # the list of what is done to files: (name, "w" when emptied, text written)
        name = a[0]
        if mode == "w":
            I.append(I.files, (name, "w", ""))

        def write(I, o, a, k):
            if not is_text(a[0]):
                pyraise("TypeError", "write")
            I.append(I.files, (name, "a", a[0]))
        return Opq(Spec("file", methods={"write": write, "close": lambda I, o, a, k: None,
                                         "flush": lambda I, o, a, k: None}))
    if mode not in ("r", "rb"):
        raise Unsupported("file opened for writing")
    if not I.decide(os_exists(I, a, k)):
        pyraise("IOError")
    return Opq(Spec("file", methods={"read": lambda I, o, a, k: ropeexec.user_text(),
                                     "close": lambda I, o, a, k: None}))


def os_exists(I, a, k):
    return z3.Function("exists", S, z3.BoolSort())(as_S(a[0]))


def make(I):
    import interp
    B = {}
    fns = dict(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, map=b_map,
               filter=b_filter, sum=b_sum, max=b_minmax("max"), min=b_minmax("min"), abs=b_abs,
               round=b_round, isinstance=b_isinstance, sorted=b_sorted, any=b_any, all=b_all,
               divmod=b_divmod, hasattr=b_hasattr, vars=lambda I, a, k: instance_dict(I, a[0]), getattr=b_getattr, setattr=b_setattr,
               reversed=b_reversed, callable=b_callable, repr=b_repr, print=noop, id=b_id, open=b_open)
    for n, f in fns.items():
        B[n] = Builtin(f, n)
    for n, f in dict(list=b_list, tuple=b_tuple, set=b_set, dict=b_dict, str=b_str,
                     int=b_int, float=b_float, bool=b_bool, type=b_type).items():
        B[n] = VType(n)
        B[n + "()"] = Builtin(f, n)
    B["object"] = VType("object")
    B["object()"] = Builtin(lambda I, a, k: I.obj(None))
    B["True"], B["False"], B["None"] = True, False, None
    return B


# ------------------------------------------------------------------ libraries
def m_exp(I, a, k):
    x = a[0]
    if not is_num(x):
        raise Unsupported("exp of %r" % (x,))
    return T.Exp(real(x))


def m_log(I, a, k):
    x = a[0]
    if not is_z3(x) and is_num(x):
        if x <= 0:
            pyraise("ValueError")
    elif is_z3(x):
        if not positive(I, real(x)) and not I.decide(real(x) > 0):
            pyraise("ValueError")
    return T.Log(real(x))


def positive(I, x):
    """Is every factor of the product positive here?"""
    if z3.is_mul(x) or z3.is_div(x):
        return all(positive(I, c) for c in x.children())
    c = z3.simplify(x > 0)
    return z3.is_true(c) or not I.s.feasible(x <= 0)


def m_sqrt(I, a, k):
    x = a[0]
    if is_z3(x) and not I.decide(real(x) >= 0):
        pyraise("ValueError")
    if not is_z3(x) and x < 0:
        pyraise("ValueError")
    return T.Sqrt(real(x))


def np_log(I, a, k):
    return T.Log(real(a[0]))


PI = z3.Real("pi")
T.SCHEMAS.setdefault("pi", []).append(lambda a: [a > z3.Q(314, 100), a < z3.Q(315, 100)])
EUL = z3.Real("euler")


def mp_mpf(I, a, k):
    v = a[0]
    if isinstance(v, str):
        try:
            return float(v) if "." in v or "e" in v else int(v)
        except ValueError:
            pyraise("ValueError")
    return v


def np_zeros(I, a, k):
    shp = a[0]
    if isinstance(shp, tuple):
        r, c = shp
        return I.new(SMatrix(r, c, lambda i, j: z3.RealVal(0), (), "arr"))
    raise Unsupported("zeros")


def np_matrix(I, a, k):
    v = a[0]
    if isinstance(v, SMatrix):
        m = I.new(SMatrix(v.rows, v.cols, v.base, v.layers, "np"))
        return m
    if is_seq(v):
        n, at = index_seq(I, v)
        if isinstance(at, tuple):
            if at and is_seq(at[0]):
                raise Unsupported("matrix of lists")
        base = view(v)
        return I.new(SMatrix(1, n, lambda i, j: real(I.seq_at(base, j)), (), "np"))
    raise Unsupported("np.matrix of %r" % (v,))


def np_array(I, a, k):
    """Arrays of numbers in one dimension (kind nd1, a single row) or two (nd2)."""
    v = a[0]
    if len(a) != 1 or k or not is_seq(v):
        raise Unsupported("np.array")
    n = I.length(v)
    if I.decide(integer(n) == 0):
        return I.new(SMatrix(1, 0, lambda i, j: z3.RealVal(0), (), "nd1"))
    base = view(v)
    read = lambda i: I.getitem(base, i) if isinstance(n, int) and isinstance(i, int) else I.seq_at(base, i)
    one = general(lambda: I.seq_at(base, fresh_index("k"))) if not isinstance(n, int) else I.getitem(base, 0)
    if is_num(one):
        return I.new(SMatrix(1, n, lambda i, j: real(I.seq_at(base, j)), (), "nd1"))
    c = I.length(one) if is_seq(one) else None
    if not isinstance(c, int):
        raise Unsupported("np.array of %r" % (one,))
    if isinstance(n, int):
        rows = [I.getitem(base, i) for i in range(n)]
        if any(not is_seq(r) or I.length(r) != c for r in rows):
            raise Unsupported("np.array of rows of different lengths")
    return I.new(SMatrix(n, c, lambda i, j: real(I.seq_at(I.seq_at(base, i), j)), (), "nd2"))


def nd_reshape(I, m, a):
    r, c = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
    if not all(is_intish(x) for x in (r, c)) or any(isinstance(x, int) and x < 0 for x in (r, c)):
        raise Unsupported("reshape")
    b = SMatrix(m.rows, m.cols, m.base, m.layers, m.kind)
    if m.kind == "nd2" and I.decide(z3.And(integer(r) == integer(m.rows), integer(c) == integer(m.cols))):
        return I.new(SMatrix(m.rows, m.cols, lambda i, j: I.mat_read(b, i, j), (), "nd2"))
    if m.kind == "nd1":
        if not I.decide(integer(r)*integer(c) == integer(m.cols)):
            pyraise("ValueError", "shape")
        return I.new(SMatrix(r, c, lambda i, j: I.mat_read(b, 0, integer(i)*integer(c) + integer(j)), (), "nd2"))
    raise Unsupported("reshape")


def nd_op(I, op, a, b):
    """Entry by entry, with a row for every row of the other (the last dimensions agree)."""
    if not isinstance(op, (ast.Add, ast.Sub)):
        raise Unsupported("operation on arrays")
    dims = [m.kind if isinstance(m, SMatrix) else "number" for m in (a, b)]
    if not set(dims) <= {"nd1", "nd2"}:
        raise Unsupported("operation on arrays and something else")
    one = [I.dim(m.cols) for m in (a, b)]
    if any(not isinstance(x, int) for x in one):
        raise Unsupported("arrays of rows of any length")
    if one[0] != one[1]:
        if 1 in one:
            raise Unsupported("a column for every column")
        pyraise("ValueError", "shapes")
    if dims == ["nd2", "nd2"] and not I.decide(integer(a.rows) == integer(b.rows)):
        raise Unsupported("shapes of arrays")
    x, y = [SMatrix(m.rows, m.cols, m.base, m.layers, m.kind) for m in (a, b)]
    at = lambda m, i, j: I.mat_read(m, 0 if m.kind == "nd1" else i, j)
    f = (lambda i, j: at(x, i, j) + at(y, i, j)) if isinstance(op, ast.Add) else \
        (lambda i, j: at(x, i, j) - at(y, i, j))
    big = a if dims[0] == "nd2" else b
    return I.new(SMatrix(big.rows, big.cols, f, (), big.kind))


def mp_matrix(I, a, k):
    if len(a) == 2:
        return I.new(SMatrix(a[0], a[1], lambda i, j: z3.RealVal(0), (), "mp"))
    v = a[0]
    if isinstance(v, SMatrix):
        return I.new(SMatrix(v.rows, v.cols, v.base, v.layers, "mp"))
    if is_seq(v):
        n, at = index_seq(I, v)
        base = view(v)
        one = general(lambda: I.seq_at(base, fresh_index("k"))) if not isinstance(n, int) else None
        if one is not None and is_seq(one):
            if not I.decide(integer(n) > 0):
                return I.new(SMatrix(0, 0, lambda i, j: z3.RealVal(0), (), "mp"))
            c = I.length(one)
            k = fresh_index("k")
            if not I.s.valid(z3.Implies(z3.And(k >= 0, k < integer(n)),
                                        integer(general(lambda: I.length(I.seq_at(base, k)))) == integer(c)))[0]:
                raise Unsupported("matrix of rows of different lengths")
            return I.new(SMatrix(n, c, lambda i, j: real(I.seq_at(I.seq_at(base, i), j)), (), "mp"))
        return I.new(SMatrix(n, 1, lambda i, j: real(I.seq_at(base, i)), (), "mp"))
    raise Unsupported("mp.matrix of %r" % (v,))


def deep(I, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, SList):
        r = I.lst(deep_seq(I, v.seq, memo))
        r.layers = v.layers
    elif isinstance(v, SDict):
        r = I.new(SDict(v.base, tuple(
            Layer(L.kind, L.binders, L.guard, L.key, deep(I, L.val, memo), L.first)
            for L in v.layers)))
        if isinstance(v.base, DictBase):
            b = v.base
            r.base = DictBase(b.has, lambda k: deep(I, b.get(k)), b.keys)
    elif isinstance(v, tuple):
        r = tuple(deep(I, x, memo) for x in v)
    elif isinstance(v, VObj):
        raise Unsupported("copy of an object")
    elif isinstance(v, Opq) and "__deepcopy__" in v.spec.methods:
        r = v.spec.methods["__deepcopy__"](I, v, [], {})
    else:
        r = v
    memo[id(v)] = r
    return r


def deep_seq(I, s, memo):
    if isinstance(s, tuple):
        return tuple(deep(I, x, memo) for x in s)
    if isinstance(s, CatSeq):
        return CatSeq([deep_seq(I, p, memo) for p in s.parts])
    return s


def instance_dict(I, o):
    """o.__dict__: the attributes of the instance itself, by constant keys."""
    if o.lazy is not None:
        raise Unsupported("__dict__ of an object known by a contract")

    def key(x):
        if isinstance(x, Rope):
            x = rope(*parts_of(x))
        if not isinstance(x, str):
            raise Unsupported("attribute name %r" % (x,))
        if o.cls is not None and I.class_member(o.cls, x) is not None:
            raise Unsupported("__dict__ entry of a class attribute")
        return x

    def get(I, d, a, k):
        x = key(a[0])
        return I.getattr(o, x) if x in o.attrs else (a[1] if len(a) > 1 else None)

    def setdefault(I, d, a, k):
        x = key(a[0])
        if x not in o.attrs:
            I.set_attr(o, x, a[1] if len(a) > 1 else None)
        return I.getattr(o, x)

    def item(I, d, x):
        x = key(x)
        if x not in o.attrs:
            pyraise("KeyError", x)
        return I.getattr(o, x)

    def store(I, d, a, k):
        I.set_attr(o, key(a[0]), a[1])
    return Opq(Spec("__dict__", {"get": get, "setdefault": setdefault, "__setitem__": store},
                    getitem=item, contains=lambda I, d, x: key(x) in o.attrs))


def m_deepcopy(I, a, k):
    return deep(I, a[0])


def m_copy(I, a, k):
    v = a[0]
    if isinstance(v, (SList, SDict)):
        return method(I, v, "copy").fn(I, [], {})
    if isinstance(v, SMatrix) and v.kind == "lists":
        raise Unsupported("copy of a list of lists")
    if isinstance(v, SMatrix):
        return I.new(SMatrix(v.rows, v.cols, v.base, v.layers, v.kind))
    if isinstance(v, tuple) or is_num(v):
        return v
    raise Unsupported("copy of %r" % (v,))


def m_mul(I, a, k):
    return I.binop(ast.Mult(), a[0], a[1])


def m_add(I, a, k):
    return I.binop(ast.Add(), a[0], a[1])


def m_chain(I, a, k):
    out = []
    for x in a:
        if not isinstance(x, Star):
            out.extend(I.segments(x))
        elif isinstance(x.seq, GSeq):
            j = fresh_index("j")
            NOFORK[0] += 1
            try:
                one = I.s.under([j >= 0, j < integer(x.seq.n)], lambda: x.seq.at(j))
            finally:
                NOFORK[0] -= 1
            out.append(FlatSeq(x.seq.n, j, [(True, catseq(*I.segments(one)))]))
        else:
            raise Unsupported("chain of filtered sequences")
    return catseq(*out)


def m_combinations(I, a, k):
    seq, r = a
    if r != 2:
        raise Unsupported("combinations")
    segs = I.segments(seq)
    if all(isinstance(g, tuple) for g in segs):
        import itertools
        xs = [x for g in segs for x in g]
        return tuple(itertools.combinations(xs, 2))
    n = I.length(seq)
    seq = view(seq)
    # pairs (p, q), p < q, numbered in some order: a bijection from [0, n(n-1)/2)
    name = fresh_name("pair")
    P = z3.Function(name + "p", z3.IntSort(), z3.IntSort())
    Q = z3.Function(name + "q", z3.IntSort(), z3.IntSort())
    N = z3.Function("Index_" + name + "n", z3.IntSort(), z3.IntSort(), z3.IntSort())
    cnt = z3.Int(name + "c")
    nn = integer(n)
    I.pairs = (P, Q, N)
    I.s.assume(cnt >= 0)
    # number of a pair is in range and back again
    I.s.schema(name + "p", lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < cnt),
                                                 z3.And(t >= 0, t < Q(t.arg(0)), Q(t.arg(0)) < nn))])

    def numbered(t):
        x, y = t.arg(0), t.arg(1)
        return [z3.Implies(z3.And(x >= 0, x < y, y < nn),
                           z3.And(t >= 0, t < cnt, P(t) == x, Q(t) == y))]
    I.s.schema("Index_" + name + "n", numbered)
    I.pair_numbers = getattr(I, "pair_numbers", []) + [N]
    r = GSeq(cnt, lambda i: (I.seq_at(seq, P(integer(i))), I.seq_at(seq, Q(integer(i)))), "pairs")
    r.pair_of = (P, Q, N, cnt)
    return r


def m_floor(I, a, k):
    if not is_z3(a[0]):
        return math.floor(a[0])
    return z3.ToInt(real(a[0]))


def logger_member(I, name):
    return Builtin(noop, name)


LOGGER = Namespace("logger", {n: Builtin(noop, n) for n in
                              ("info", "debug", "warning", "error", "critical", "setLevel",
                               "addHandler", "log", "exception")})

LIB = {
    "math.exp": Builtin(m_exp), "math.log": Builtin(m_log), "math.sqrt": Builtin(m_sqrt),
    "math.pi": PI, "math.floor": Builtin(m_floor),
    "numpy.log": Builtin(np_log), "numpy.exp": Builtin(m_exp), "numpy.sqrt": Builtin(m_sqrt),
    "numpy.zeros": Builtin(np_zeros), "numpy.matrix": Builtin(np_matrix),
    "numpy.array": Builtin(np_array), "numpy.pi": PI,
    "mpmath.mpf": Builtin(mp_mpf), "mpmath.exp": Builtin(m_exp), "mpmath.matrix": Builtin(mp_matrix),
    "mpmath.log": Builtin(m_log), "mpmath.sqrt": Builtin(m_sqrt), "mpmath.pi": PI,
    "operator.mul": Builtin(m_mul), "operator.add": Builtin(m_add),
    "functools.reduce": Builtin(b_reduce),
    "copy.deepcopy": Builtin(m_deepcopy), "copy.copy": Builtin(m_copy),
    "itertools.chain": Builtin(m_chain), "itertools.combinations": Builtin(m_combinations),
    "logging.getLogger": Builtin(lambda I, a, k: LOGGER), "logging.WARNING": 30,
    "logging.INFO": 20, "logging.DEBUG": 10,
    "time.asctime": Builtin(lambda I, a, k: z3.Const(fresh_name("text"), S)),
    "sys.version": "3.12.0", "builtins.open": Builtin(lambda I, a, k: Opq(Spec("file"))), "os.path.exists": Builtin(os_exists),
}


def _texts():
    import texts
    for name, fn in texts.LIB.items():
        LIB[name] = Builtin(fn, name)


_texts()


def external(I, mod, member):
    key = mod + ("." + member if member else "")
    if key in LIB:
        I.modelled.add(key)
        return LIB[key]
    if member is None and any(x.startswith(mod + ".") for x in list(LIB) + list(I.externals)):
        return Namespace(mod, {})
    if member is None and mod in ("logging", "os", "re", "sympy", "scipy", "random", "pickle",
                                  "time", "csv", "importlib", "inspect", "os.path", "mpmath",
                                  "numpy"):
        return Namespace(mod, {})
    if mod == "os" and member == "path":
        return Namespace("os.path", {})
    if mod == "mpmath" and member == "mp":
        return LIB.get("mpmath.mp") or Namespace("mpmath.mp", {})
    return None


# ------------------------------------------------------------------ methods
def method(I, o, name):
    if o is LOGGER:
        return Builtin(noop)
    if is_text(o):
        f = TEXT.get(name)
        return Builtin(lambda I, a, k: f(I, o, a, k), name) if f else None
    if isinstance(o, SList):
        f = LIST.get(name)
        return Builtin(lambda I, a, k: f(I, o, a, k), name) if f else None
    if isinstance(o, (tuple, GSeq, CatSeq, FlatSeq)):
        if name in ("index", "count"):
            f = LIST[name]
            return Builtin(lambda I, a, k: f(I, o, a, k), name)
        return None
    if isinstance(o, (SDict, DictBase)):
        f = DICT.get(name)
        return Builtin(lambda I, a, k: f(I, o, a, k), name) if f else None
    if isinstance(o, SMatrix):
        return matrix_attr(I, o, name)
    if isinstance(o, SSet):
        f = SET.get(name)
        return Builtin(lambda I, a, k: f(I, o, a, k), name) if f else None
    if isinstance(o, VType) and name == "__name__":
        return o.name
    if is_num(o) and "numberattr." + name in I.externals:
        return I.externals["numberattr." + name](I, o)
    if is_num(o) and "number." + name in I.externals:
        f = I.externals["number." + name]
        return Builtin(lambda I, a, k: f(I, o, a, k), name)
    return None


def piece_count(I, seg):
    """Number of elements of a piece of unknown length (positive exactly when it has some)."""
    if isinstance(seg, GSeq):
        return integer(seg.n)
    v, one, rest = seg.var, z3.RealVal(0), []
    for c, items in seg.cases:
        k = len([x for g in I.segments(items) for x in g])
        one = one + z3.If(z3.BoolVal(c) if isinstance(c, bool) else c, z3.RealVal(k), z3.RealVal(0))
    return T.make_fold("sum", integer(seg.n), v, one)


def t_join(I, o, a, k):
    segs = I.segments(a[0])
    if len([g for g in segs if not isinstance(g, tuple)]) > 1 and all(
            isinstance(g, (tuple, GSeq, FlatSeq)) for g in segs) and all(
            isinstance(h, tuple) for g in segs if isinstance(g, FlatSeq)
            for _, items in g.cases for h in I.segments(items)):
        # the pieces that have elements, with the separator between them
        keep = [g for g in segs if (g if isinstance(g, tuple) else I.decide(piece_count(I, g) > 0))]
        joined = [parts_of(t_join(I, o, [g if isinstance(g, (tuple, GSeq)) else CatSeq([g])], {})) for g in keep]
        return rope(*[x for p in joined for x in ([o] + list(p))][1:])
    out = []
    first = [True]
    repeated = None
    for seg in I.segments(a[0]):
        if isinstance(seg, tuple):
            if seg and repeated is not None:
                # something follows: the separator stands after every element
                f, repeated = repeated, None
                if out != [f] or f.skips:
                    raise Unsupported("join of a sequence in pieces")
                out = [FoldPart(f.n, f.var, [(c, rope(r, o)) for c, r in f.cases])]
                started = True
            else:
                started = False
            for x in seg:
                if not is_text(x):
                    pyraise("TypeError")
                if started:
                    started = False
                elif out or not first[0]:
                    out.append(o)
                first[0] = False
                out.extend(parts_of(x))
            continue
        # a piece of unknown length: with the separator before every element
        if isinstance(seg, GSeq):
            v = fresh_index("t")
            x = seg.at(v)
            if not is_text(x):
                raise Unsupported("join of %r" % (x,))
            cases = [(True, x)]
            n = seg.n
        else:
            v = seg.var
            cases = []
            n = seg.n
            for c, items in seg.cases:
                sub = I.segments(items)
                if not all(isinstance(g, tuple) for g in sub):
                    raise Unsupported("join over nested sequences")
                xs = [x for g in sub for x in g]
                if not all(is_text(x) for x in xs):
                    raise Unsupported("join of other values")
                cases.append((c, rope(*[y for x in xs for y in (o, x)][1:]) if xs else None))
        after = not first[0]
        if after and repeated is not None:
            raise Unsupported("join of a sequence in pieces")
        first[0] = False
        keep, skipped = [], []
        for c, x in cases:
            if x is None:
                skipped.append(c)
                continue
            keep.append((I.conj([c] + [I.neg(y) for y in skipped]) if skipped else c, x))
        if after:
            # something stands before: the separator before every element
            out.append(FoldPart(integer(n), v, [(c, rope(o, x)) for c, x in keep]))
            continue
        f = FoldPart(integer(n), v, keep, sep=o)
        f.joined = True
        f.skips = bool(skipped)
        repeated = f
        out.append(f)
    return rope(*out)


def t_format(I, o, a, k):
    if not isinstance(o, str):
        return Rope([z3.Const(fresh_name("text"), S)])
    import string
    out = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(o))
    except ValueError:
        pyraise("ValueError")
    for text, field, spec, conv in fields:
        out.append(text)
        if field is None:
            continue
        if "{" in (spec or ""):
            out.append(z3.Const(fresh_name("text"), S))
            continue
        if field == "":
            if auto >= len(a):
                pyraise("IndexError")
            v = a[auto]
            auto += 1
        elif field.isdigit():
            if int(field) >= len(a):
                pyraise("IndexError")
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            base = field.split("[")[0].split(".")[0]
            if base not in k and not base.isdigit():
                pyraise("KeyError")
            out.append(z3.Const(fresh_name("text"), S))
            continue
        if spec == "d" and not conv and is_intish(v) or spec == "s" and not conv and is_text(v) or \
                not spec and conv == "s":
            out.extend(parts_of(to_text(I, v)))
        elif spec or conv:
            if isinstance(v, (int, float, str)):
                try:
                    out.append(format(v, spec or ""))
                    continue
                except Exception:                           # noqa
                    pass
            out.append(z3.Const(fresh_name("text"), S))
        else:
            x = to_text(I, v)
            out.extend(parts_of(x))
    return rope(*out)


def t_endswith(I, o, a, k):
    suf = a[0]
    if isinstance(o, str):
        return o.endswith(suf)
    ps = parts_of(o)
    if not isinstance(suf, str):
        raise Unsupported("endswith")
    if isinstance(ps[-1], str) and len(ps[-1]) >= len(suf):
        return ps[-1].endswith(suf)
    if len(ps) == 1 and is_z3(ps[0]) and ps[0].sort() == S:
        return z3.Function("endswith<%s>" % suf, S, z3.BoolSort())(ps[0])
    raise Unsupported("endswith")


def t_startswith(I, o, a, k):
    pre = a[0]
    if isinstance(o, str):
        return o.startswith(pre)
    ps = parts_of(o)
    if not isinstance(pre, str):
        raise Unsupported("startswith")
    if isinstance(ps[0], str) and len(ps[0]) >= len(pre):
        return ps[0].startswith(pre)
    if len(ps) == 1 and is_z3(ps[0]) and ps[0].sort() == S:
        return z3.Function("startswith<%s>" % pre, S, z3.BoolSort())(ps[0])
    raise Unsupported("startswith")


def t_concrete(name):
    def f(I, o, a, k):
        if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a):
            try:
                r = getattr(o, name)(*a)
            except ValueError:
                pyraise("ValueError")
            return I.lst(tuple(r)) if isinstance(r, list) else r
        if name in ("strip", "lstrip", "rstrip") and not a:
            import texts
            return texts.strip(I, o, name != "rstrip", name != "lstrip")
        if name == "split" and len(a) == 1 and isinstance(a[0], str):
            import texts
            return texts.split(I, o, a[0])
        if name in ("isdigit", "isupper", "islower", "isalpha") and not a:
            ps = parts_of(o)
            if len(ps) == 1 and is_z3(ps[0]) and ps[0].sort() == S:
                return z3.Function(name, S, z3.BoolSort())(ps[0])
        if name in ("zfill", "ljust", "rjust", "center"):
            return Rope([z3.Const(fresh_name("text"), S)])
        raise Unsupported("text method %s on unknown text" % name)
    return f


TEXT = {"join": t_join, "format": t_format, "endswith": t_endswith, "startswith": t_startswith}
for _n in ("split", "strip", "upper", "lower", "isdigit", "isupper", "islower", "replace", "zfill",
           "find", "count", "lstrip", "rstrip", "splitlines", "isalpha", "title", "ljust"):
    TEXT[_n] = t_concrete(_n)


def percent(I, a, b):
    if isinstance(a, str):
        vals = b if isinstance(b, tuple) else (b,)
        import re
        if all(isinstance(v, (int, float, str)) for v in vals):
            try:
                return a % vals
            except TypeError:
                pyraise("TypeError")
        pieces = re.split(r"(%[^%a-zA-Z]*[a-zA-Z%])", a)
        fs = [f for f in pieces[1::2] if f != "%%"]
        if len(fs) == len(vals) and "(" not in "".join(fs) and "*" not in "".join(fs):
            out, vals = [], list(vals)
            for k, piece in enumerate(pieces):
                if k % 2 == 0:
                    out.append(piece)
                elif piece == "%%":
                    out.append("%")
                else:
                    v = vals.pop(0)
                    if piece == "%s" or piece in ("%d", "%i") and is_intish(v):
                        out.extend(parts_of(to_text(I, v)))
                    elif isinstance(v, (int, float, str)):
                        out.append(piece % v)
                    else:
                        out.append(z3.Const(fresh_name("text"), S))
            return rope(*out)
    return Rope([z3.Const(fresh_name("text"), S)])


def l_append(I, o, a, k):
    I.append(o, a[0])


def l_extend(I, o, a, k):
    segs = I.segments(a[0])
    if isinstance(o.seq, HeadSeq) or isinstance(o.seq, CatSeq):
        base = [o.seq] if isinstance(o.seq, HeadSeq) else list(o.seq.parts)
        I.set_content(o, (CatSeq(base + segs) if segs else o.seq, o.layers))
    else:
        I.set_content(o, (catseq(o.seq, *segs), o.layers))


def l_index(I, o, a, k):
    x = a[0]
    off = 0
    for seg in I.segments(o):
        if isinstance(seg, tuple):
            for y in seg:
                if I.decide(I.eq(y, x)):
                    return off
                off = add(off, 1)
            continue
        if isinstance(seg, GSeq) and seg.index_fn is not None and is_text(x):
            p = seg.index_fn(as_S(x))
            if I.decide(z3.And(p >= 0, p < seg.n)):
                return add(off, p)
            off = add(off, seg.n)
            continue
        # the first position with that value
        n = seg.n if isinstance(seg, GSeq) else I.length(seg)
        same = I.same_at(seg, x)
        if I.s.choose(2) == 0:
            w = fresh_index("f")
            I.s.assume(z3.And(w >= 0, w < integer(n)))
            I.s.assume(same(w))
            I.s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < w), z3.Not(same(j))))
            I.check_feasible()
            return add(off, w)
        I.s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < integer(n)), z3.Not(same(j))))
        I.check_feasible()
        off = add(off, n)
    pyraise("ValueError", "not in list")


def l_count(I, o, a, k):
    x = a[0]
    tot = 0
    for seg in I.segments(o):
        if isinstance(seg, tuple):
            for y in seg:
                c = I.eq(y, x)
                if c is True:
                    tot = add(tot, 1)
                elif c is not False:
                    tot = add(tot, z3.If(c, z3.IntVal(1), z3.IntVal(0)))
            continue
        if not isinstance(seg, GSeq):
            raise Unsupported("count")
        v = fresh_index("c")
        c = I.eq(seg.at(v), x)
        tot = add(tot, z3.ToInt(make_fold("sum", seg.n, v, z3.If(c, z3.RealVal(1), z3.RealVal(0))
                                          if not isinstance(c, bool) else real(int(c)))))
    return tot


def l_pop(I, o, a, k):
    seq = o.seq
    if isinstance(seq, tuple) and not o.layers:
        idx = a[0] if a else -1
        if not seq:
            pyraise("IndexError")
        if isinstance(idx, int):
            l = list(seq)
            v = l.pop(idx)
            I.set_content(o, (tuple(l), ()))
            return v
    if a and is_intish(a[0]) and not o.layers and not isinstance(seq, HeadSeq):
        e, n, c = integer(a[0]), integer(I.length(o)), view(o)
        if not I.decide(z3.And(e >= 0, e < n)):
            raise Unsupported("pop at an index that may be out of range or negative")
        v = I.seq_at(c, e)
        at = index_seq(I, c)[1]
        I.set_content(o, (GSeq(n - 1, lambda i: at(z3.If(integer(i) < e, integer(i), integer(i) + 1))), ()))
        return v
    raise Unsupported("pop")


def l_insert(I, o, a, k):
    if isinstance(a[0], int) and a[0] == 0 and not o.layers and not isinstance(o.seq, HeadSeq):
        I.set_content(o, (catseq((a[1],), o.seq), ()))
        return
    if is_intish(a[0]) and not o.layers and not isinstance(o.seq, HeadSeq):
        e, n, c = integer(a[0]), integer(I.length(o)), view(o)
        if not I.decide(z3.And(e >= 0, e <= n)):
            raise Unsupported("insert at an index that may be out of range or negative")
        at = index_seq(I, c)[1] if not isinstance(n, int) else None
        front, back = GSeq(e, at), GSeq(n - e, lambda i: at(integer(i) + e))
        if isinstance(at, tuple) or at is None:
            raise Unsupported("insert into a list of known length")
        I.set_content(o, (catseq(front, (a[1],), back), ()))
        return
    raise Unsupported("insert")


def l_reverse(I, o, a, k):
    r = I.slice(o, slice(None, None, -1))
    I.set_content(o, (r.seq, r.layers))


def l_sort(I, o, a, k):
    r = b_sorted(I, [o], k)
    I.set_content(o, (r.seq, r.layers))


def l_copy(I, o, a, k):
    return I.new(SList(o.seq, o.layers))


LIST = {"append": l_append, "extend": l_extend, "index": l_index, "count": l_count, "pop": l_pop,
        "insert": l_insert, "reverse": l_reverse, "sort": l_sort, "copy": l_copy}


def s_add(I, o, a, k):
    if isinstance(o.seq, HeadSeq) or isinstance(o.seq, CatSeq):
        base = [o.seq] if isinstance(o.seq, HeadSeq) else list(o.seq.parts)
        I.set_content(o, CatSeq(base + [(a[0],)]))
    else:
        I.set_content(o, catseq(o.seq, (a[0],)))


SET = {"add": s_add}


def d_get(I, o, a, k):
    if isinstance(o, DictBase):
        if I.decide(o.has(a[0])):
            return o.get(a[0])
        return a[1] if len(a) > 1 else None
    ok, v = I.dict_find(o, a[0])
    if ok:
        return v
    return a[1] if len(a) > 1 else None


def d_setdefault(I, o, a, k):
    key, default = a[0], (a[1] if len(a) > 1 else None)
    ok, v = I.dict_find(o, key)
    if ok:
        return v
    I.dict_set(o, key, default)
    return default


def d_keys(I, o, a, k):
    if isinstance(o, DictBase):
        if o.keys is None:
            raise Unsupported("keys of an unknown dict")
        return o.keys
    return I.dict_keys(o)


def d_items(I, o, a, k):
    keys = d_keys(I, o, a, k)
    o = view(o)
    out = []
    for seg in I.segments(keys):
        if isinstance(seg, tuple):
            out.append(tuple((x, I.getitem(o, x)) for x in seg))
        elif isinstance(seg, GSeq):
            out.append(GSeq(seg.n, lambda i, seg=seg: (seg.at(i), I.getitem(o, seg.at(i)))))
        else:
            out.append(each_case(I, seg, lambda x: (x, I.getitem(o, x))))
    return catseq(*out)


def each_case(I, seg, f):
    """The FlatSeq with f applied to its elements, for every index at once."""
    cases = []
    facts = [seg.var >= 0, integer(seg.var) < integer(seg.n)]
    for c, it in seg.cases:
        here = facts + ([c] if is_z3(c) else [])
        NOFORK[0] += 1
        try:
            items = I.s.under(here, lambda: tuple(f(x) for g in I.segments(it) for x in g))
        finally:
            NOFORK[0] -= 1
        cases.append((c, items))
        if is_z3(c):
            facts.append(z3.Not(c))
        elif c:
            break
    return FlatSeq(seg.n, seg.var, cases)


def d_values(I, o, a, k):
    keys = d_keys(I, o, a, k)
    o = view(o)
    out = []
    for seg in I.segments(keys):
        if isinstance(seg, tuple):
            out.append(tuple(I.getitem(o, x) for x in seg))
        elif isinstance(seg, GSeq):
            out.append(GSeq(seg.n, lambda i, seg=seg: I.getitem(o, seg.at(i))))
        else:
            out.append(each_case(I, seg, lambda x: I.getitem(o, x)))
    return catseq(*out)


def dict_update(I, d, other):
    if isinstance(other, SDict):
        if other.base is None:
            I.set_content(d, (d.base, d.layers + other.layers))
            return
        if d.base is None and not d.layers:
            I.set_content(d, (other.base, other.layers))
            return
        src = other
        lay = Layer("setall", (), True, (None,), lambda key: I.getitem(src, key))
        raise Unsupported("update from an unknown dict")
    raise Unsupported("update")


def d_update(I, o, a, k):
    if a:
        if isinstance(a[0], SDict):
            dict_update(I, o, a[0])
        else:
            I.for_each(a[0], lambda x: I.dict_set(o, I.getitem(x, 0), I.getitem(x, 1)))
    for key, v in k.items():
        I.dict_set(o, key, v)


def d_copy(I, o, a, k):
    if isinstance(o, DictBase):
        return I.new(SDict(o))
    return I.new(SDict(o.base, o.layers))


def d_pop(I, o, a, k):
    if o.base is None and all(not L.binders and L.guard is True and isinstance(L.key[0], str)
                              for L in o.layers) and isinstance(a[0], str):
        for n, L in enumerate(o.layers):
            if L.key[0] == a[0]:
                I.set_content(o, (None, o.layers[:n] + o.layers[n + 1:]))
                return L.val
        if len(a) > 1:
            return a[1]
        pyraise("KeyError")
    raise Unsupported("pop from an unknown dict")


DICT = {"get": d_get, "setdefault": d_setdefault, "keys": d_keys, "items": d_items,
        "values": d_values, "update": d_update, "copy": d_copy, "pop": d_pop}


# ------------------------------------------------------------------ matrices
def matrix_attr(I, m, name):
    if m.kind == "lists":
        raise Unsupported("attribute %s of a list of lists" % name)
    if m.kind in ("nd1", "nd2"):
        if name == "tolist":
            return Builtin(lambda I, a, k: I.getitem(m_tolist(I, m), 0) if m.kind == "nd1" else m_tolist(I, m))
        if name == "reshape":
            return Builtin(lambda I, a, k: nd_reshape(I, m, a))
        raise Unsupported("array attribute " + name)
    if name == "T":
        return transpose(I, m)
    if name == "transpose":
        return Builtin(lambda I, a, k: transpose(I, m))
    if name == "tolist":
        return Builtin(lambda I, a, k: m_tolist(I, m))
    if name == "shape":
        return (I.dim(m.rows), I.dim(m.cols))
    if name == "rows":
        return I.dim(m.rows)
    if name == "cols":
        return I.dim(m.cols)
    if name == "copy":
        return Builtin(lambda I, a, k: I.new(SMatrix(m.rows, m.cols, m.base, m.layers, m.kind)))
    if "matrix." + name in I.externals:
        f = I.externals["matrix." + name]
        return Builtin(lambda I, a, k: f(I, m, a, k), name)
    return None


def transpose(I, m):
    c = SMatrix(m.rows, m.cols, m.base, m.layers, m.kind)
    return I.new(SMatrix(m.cols, m.rows, lambda i, j: I.mat_read(c, j, i), (), m.kind))


def m_tolist(I, m):
    c = SMatrix(m.rows, m.cols, m.base, m.layers, m.kind)
    row = lambda i: I.lst(GSeq(integer(m.cols), lambda j: I.mat_read(c, i, j)))
    r = I.dim(m.rows)
    if isinstance(r, int):
        return I.lst(tuple(row(z3.IntVal(i)) for i in range(r)))
    return I.lst(GSeq(integer(r), row))


def matrix_item(I, m, idx):
    if (m.kind == "lists") != (type(idx).__name__ == "RowIndex"):
        raise Unsupported("row of a list of lists")
    if isinstance(idx, tuple) and len(idx) == 2 and all(is_intish(x) for x in idx):
        i, j = idx
        for x, n in ((i, m.rows), (j, m.cols)):
            c = z3.And(integer(x) >= 0, integer(x) < integer(n))
            if not I.decide(c):
                raise Unsupported("matrix index that may be out of range")
        return I.mat_read(m, i, j)
    if is_intish(idx) and m.kind == "mp":
        if I.dim(m.cols) == 1:
            return I.mat_read(m, idx, 0)
        if I.dim(m.rows) == 1:
            return I.mat_read(m, 0, idx)
    raise Unsupported("matrix item")


def matrix_op(I, op, a, b):
    if any(isinstance(m, SMatrix) and m.kind == "lists" for m in (a, b)):
        raise Unsupported("operator on a list of lists")
    if any(isinstance(m, SMatrix) and m.kind in ("nd1", "nd2") for m in (a, b)):
        return nd_op(I, op, a, b)
    def fix(m):
        return SMatrix(m.rows, m.cols, m.base, m.layers, m.kind)
    if is_num(a) or is_num(b):
        m, x = (b, a) if is_num(a) else (a, b)
        c = fix(m)
        if isinstance(op, ast.Mult):
            return I.new(SMatrix(m.rows, m.cols, lambda i, j: I.mat_read(c, i, j)*real(x), (), m.kind))
        if isinstance(op, ast.Div) and m is a:
            if is_z3(x) and I.decide(real(x) == 0):
                raise Unsupported("matrix divided by zero")
            if not is_z3(x) and x == 0:
                raise Unsupported("matrix divided by zero")
            return I.new(SMatrix(m.rows, m.cols, lambda i, j: I.mat_read(c, i, j)/real(x), (), m.kind))
        raise Unsupported("matrix with number")
    if isinstance(a, SMatrix) and isinstance(b, SMatrix):
        x, y = fix(a), fix(b)
        if isinstance(op, ast.Mult):
            if a.kind == "arr" and b.kind == "arr":
                raise Unsupported("elementwise product")
            same = I.eq(integer(a.cols), integer(b.rows)) if True else True
            if not I.decide(integer(a.cols) == integer(b.rows)):
                pyraise("ValueError")

            def base(i, j):
                v = fresh_index("d")
                return make_fold("sum", integer(a.cols), v, I.mat_read(x, i, v)*I.mat_read(y, v, j))
            return I.new(SMatrix(a.rows, b.cols, base, (), a.kind))
        if isinstance(op, (ast.Add, ast.Sub)):
            if not I.decide(z3.And(integer(a.rows) == integer(b.rows),
                                   integer(a.cols) == integer(b.cols))):
                raise Unsupported("matrix shapes")
            if isinstance(op, ast.Add):
                f = lambda i, j: I.mat_read(x, i, j) + I.mat_read(y, i, j)
            else:
                f = lambda i, j: I.mat_read(x, i, j) - I.mat_read(y, i, j)
            return I.new(SMatrix(a.rows, a.cols, f, (), a.kind))
    raise Unsupported("matrix operation")
