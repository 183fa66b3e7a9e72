"""Symbolic Python values."""
import z3

import terms as T
from terms import S, lit, lit_of, cat, istr, rstr, is_z3, real
from session import Unsupported, Infeasible


class PyRaise(Exception):
    """A Python exception raised by the code under verification."""

    def __init__(self, name, msg="", bases=()):
        Exception.__init__(self, name)
        self.name, self.msg, self.bases = name, msg, tuple(bases)


class Poison(object):
    def __repr__(self):
        return "<unknown value>"


POISON = Poison()
HELD = Poison()


# ------------------------------------------------------------------ text
class FoldPart(object):
    """Concatenation over var in [0, n) of the rope of the first case that holds."""

    def __init__(self, n, var, cases, sep=""):
        self.n, self.var, self.cases, self.sep = n, var, cases, sep


class Code(object):
    """Text known by a contract only through its meaning: one line, a product ("mul") or a
    sum ("add") of Python expressions that evaluates to value wherever check(I, env) passes.
    samples(k) is its text in the k-th of a number of instances, for searches (sampled.py);
    key tells texts of one contract apart."""

    def __init__(self, value, prec, check, samples=None, key=None):
        self.value, self.prec, self.check = value, prec, check
        self.samples, self.key = samples, key


class Rope(object):
    """Text: parts are str, z3 terms (Str: itself, Int/Real: its decimal text), FoldPart."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Rope):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] = out[-1] + q
                        continue
                elif is_z3(q):
                    l = lit_of(q)
                    if l is not None:
                        if out and isinstance(out[-1], str):
                            out[-1] = out[-1] + l
                        elif l:
                            out.append(l)
                        continue
                out.append(q)
        self.parts = tuple(out)

    def __repr__(self):
        return "Rope%r" % (self.parts,)


def rope(*parts):
    r = Rope(parts)
    if not r.parts:
        return ""
    if len(r.parts) == 1 and isinstance(r.parts[0], str):
        return r.parts[0]
    return r


def is_text(v):
    return isinstance(v, (str, Rope)) or (is_z3(v) and v.sort() == S)


def as_S(v):
    """Text as a term of sort Str."""
    if isinstance(v, str):
        return lit(v)
    if is_z3(v):
        return v
    ts = []
    for p in v.parts:
        if isinstance(p, str):
            ts.append(lit(p))
        elif is_z3(p):
            ts.append(p if p.sort() == S else istr(p) if p.sort() == z3.IntSort() else rstr(p))
        else:
            raise Unsupported("folded text used as a name")
    t = ts[-1]
    for x in reversed(ts[:-1]):
        t = cat(x, t)
    return t


def parts_of(v):
    if isinstance(v, str):
        return [v] if v else []
    if is_z3(v):
        return [v]
    return list(v.parts)


# ------------------------------------------------------------------ sequences
def held(at):
    """An element made on demand cannot be changed: the change would be lost."""
    def f(i):
        v = at(i)
        if isinstance(v, Mutable):
            v.frozen = True
        return v
    f.held = True
    return f


class GSeq(object):
    """n elements, at(index term) gives them; index_fn(value) is the first position
    of a value, a term that is -1 (or out of range) when absent."""

    def __init__(self, n, at, name="seq", distinct=False, index_fn=None, open_=True):
        # open_: may mention loop indices (False for the sequences of a contract)
        self.n, self.name, self.open_ = n, name, open_
        self.at = at if getattr(at, "held", False) else held(at)
        self.distinct, self.index_fn = distinct, index_fn


class CatSeq(object):
    def __init__(self, parts):
        out = []
        for p in parts:
            ps = p.parts if isinstance(p, CatSeq) else [p]
            for q in ps:
                if isinstance(q, tuple) and not q:
                    continue
                if out and isinstance(q, tuple) and isinstance(out[-1], tuple):
                    out[-1] = out[-1] + q
                else:
                    out.append(q)
        self.parts = out


class FlatSeq(object):
    """For var in [0, n): the items of the first case that holds (a sequence)."""

    def __init__(self, n, var, cases):
        self.n, self.var, self.cases = n, var, cases


class HeadSeq(object):
    """Unknown content of a list at the start of a generic iteration."""
    fn = None             # its elements, when they are numbers
    touched = False       # was an element read
    outer = None          # the content at the start of the iteration of the loop around

    def __init__(self, key, n=None):
        self.key, self.n = key, n


def catseq(*parts):
    c = CatSeq(parts)
    if not c.parts:
        return ()
    if len(c.parts) == 1:
        return c.parts[0]
    return c


# ------------------------------------------------------------------ mutable objects
class Layer(object):
    """kind 'acc' (+= val) or 'set' (= val), for every choice of the binders
    [(var, n)] for which guard holds, at key (a tuple of terms)."""

    def __init__(self, kind, binders, guard, key, val, first=False):
        self.kind, self.binders, self.guard = kind, tuple(binders), guard
        self.key, self.val, self.first = tuple(key), val, first


COUNTER = [0]         # creation order of mutable objects
NOFORK = [0]          # > 0: values are built for every index at once, so no forks


class Mutable(object):
    serial = 0
    frozen = False        # a value inside a summary: may be read, never changed


def view(v):
    """The present content of a mutable sequence or dict, unaffected by later changes."""
    if isinstance(v, SList):
        return SList(v.seq, v.layers)
    if isinstance(v, SSet):
        return SSet(v.seq)
    if isinstance(v, SDict):
        d = SDict(v.base, v.layers)
        return d
    if isinstance(v, SMatrix):
        return SMatrix(v.rows, v.cols, v.base, v.layers, v.kind)
    return v


def snap(v, mark, memo=None):
    """Value with every mutable object created after mark replaced by a frozen copy of
    its present state; older objects keep their identity."""
    memo = {} if memo is None else memo
    if isinstance(v, Mutable):
        if v.frozen or v.serial <= mark:
            return v
        if id(v) in memo:
            memo[id(v)][1].shared = True
            return memo[id(v)][1]
        if isinstance(v, SList):
            r = SList(())
            r.shared = False
        elif isinstance(v, SSet):
            r = SSet(())
        elif isinstance(v, SDict):
            r = SDict()
            for k, x in v.__dict__.items():
                if k not in ("base", "layers", "serial"):
                    setattr(r, k, x)
        elif isinstance(v, SMatrix):
            r = SMatrix(v.rows, v.cols, v.base, (), v.kind)
        elif isinstance(v, VObj):
            r = VObj(v.cls, {}, v.lazy)
        else:
            raise Unsupported("copy of %r" % (v,))
        r.frozen = True
        r.serial = mark
        memo[id(v)] = (v, r)
        if isinstance(v, VObj):
            r.attrs = {k: snap(x, mark, memo) for k, x in v.attrs.items()}
        elif isinstance(v, SSet):
            r.seq = snap(v.seq, mark, memo)
        elif isinstance(v, SList):
            r.seq, r.layers = snap(v.seq, mark, memo), snap(v.layers, mark, memo)
        else:
            r.base = v.base
            r.layers = snap(v.layers, mark, memo)
        return r
    if isinstance(v, tuple):
        return tuple(snap(x, mark, memo) for x in v)
    if isinstance(v, CatSeq):
        return CatSeq([snap(p, mark, memo) for p in v.parts])
    if isinstance(v, FlatSeq):
        return FlatSeq(v.n, v.var, [(c, snap(x, mark, memo)) for c, x in v.cases])
    if isinstance(v, Layer):
        if callable(v.val) and not isinstance(v.val, (Mutable, Builtin, VFunc)):
            return v
        return Layer(v.kind, v.binders, v.guard, snap(v.key, mark, memo), snap(v.val, mark, memo),
                     v.first)
    if isinstance(v, VFunc):
        if v.env is not None and v.env.serial > mark:
            raise Unsupported("function made in a loop and kept")
        if v.bound is not None:
            return VFunc(v.node, v.module, v.cls, v.env, snap(v.bound, mark, memo), v.defaults)
        return v
    if isinstance(v, (VSuper,)):
        raise Unsupported("super object kept")
    if isinstance(v, Row):
        raise Unsupported("row of a list of lists kept")
    return v


class Row(object):
    """rows[i] of a list of number lists, as an alias of it."""

    def __init__(self, rows, i):
        self.rows, self.i = rows, i


class SList(Mutable):
    """A list: base sequence plus element layers."""

    def __init__(self, seq, layers=(), is_tuple=False):
        self.seq, self.layers = seq, tuple(layers)

    @property
    def content(self):
        return (self.seq, self.layers)

    @content.setter
    def content(self, c):
        self.seq, self.layers = c


class SSet(Mutable):
    def __init__(self, seq):
        self.seq = seq
        self.layers = ()

    @property
    def content(self):
        return self.seq

    @content.setter
    def content(self, c):
        self.seq = c


class SDict(Mutable):
    """base: None (empty), or object with has(key) get(key); layers of stores."""

    def __init__(self, base=None, layers=()):
        self.base, self.layers = base, tuple(layers)

    @property
    def content(self):
        return (self.base, self.layers)

    @content.setter
    def content(self, c):
        self.base, self.layers = c


class SMatrix(Mutable):
    """rows x cols, base(i, j) -> real."""

    def __init__(self, rows, cols, base, layers=(), kind="np"):
        self.rows, self.cols, self.base, self.layers = rows, cols, base, tuple(layers)
        self.kind = kind

    @property
    def content(self):
        return (self.base, self.layers)

    @content.setter
    def content(self, c):
        self.base, self.layers = c


class VObj(Mutable):
    """Instance of a class of the repository; attrs by (mangled) name."""

    def __init__(self, cls, attrs=None, lazy=None):
        self.cls, self.attrs, self.lazy = cls, dict(attrs or {}), lazy

    def __repr__(self):
        return "<%s object>" % (self.cls.name if self.cls else "?")


class Opq(object):
    """Value known only through its contract: methods / attributes / items."""

    def __init__(self, spec, term=None, data=None):
        self.spec, self.term, self.data = spec, term, data

    def __repr__(self):
        return "<%s %s>" % (self.spec.name, self.term)


class Spec(object):
    """Contract of a kind of opaque value."""

    def __init__(self, name, methods=None, attrs=None, getitem=None, contains=None,
                 types=(), truth=None, iterate=None, length=None, setattr_=None):
        self.name, self.methods, self.attrs = name, methods or {}, attrs or {}
        self.getitem, self.contains, self.types, self.truth = getitem, contains, types, truth
        self.iterate, self.length = iterate, length


class Builtin(object):
    """A modelled function: fn(interp, args, kwargs)."""

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name


class Star(object):
    """Positional arguments of unknown number."""

    def __init__(self, seq):
        self.seq = seq


class Namespace(object):
    """A modelled module or namespace."""

    def __init__(self, name, members):
        self.name, self.members = name, members


class VType(object):
    """A Python type object."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<type %s>" % self.name


class ExcType(object):
    def __init__(self, name, bases=()):
        self.name, self.bases = name, tuple(bases)


class VFunc(object):
    def __init__(self, node, module, cls=None, env=None, bound=None, defaults=None):
        self.node, self.module, self.cls, self.env = node, module, cls, env
        self.bound, self.defaults = bound, defaults

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")


class VClass(object):
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module


class VSuper(object):
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


# ------------------------------------------------------------------ substitution
def subst(v, pairs):
    """Value with index terms replaced."""
    if not pairs:
        return v
    if isinstance(v, Row):
        raise Unsupported("row of a list of lists kept")
    if is_z3(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, Rope):
        return rope(*[subst(p, pairs) for p in v.parts])
    if isinstance(v, Code):
        return Code(subst(v.value, pairs), v.prec, v.check, v.samples,
                    None if v.key is None else subst(v.key, pairs))
    if isinstance(v, FoldPart):
        var, cases = v.var, v.cases
        inner = [p for p in pairs if p[0].get_id() != var.get_id()]
        if any(T.mentions(p[1], var) for p in inner if is_z3(p[1])):
            var = T.fresh_index("f")
            cases = [(subst(c, [(v.var, var)]), subst(r, [(v.var, var)])) for c, r in cases]
        f = FoldPart(subst(v.n, pairs), var,
                     [(subst(c, inner), subst(r, inner)) for c, r in cases], v.sep)
        f.joined = getattr(v, "joined", False)
        return f
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, GSeq):
        if not v.open_:
            return v
        k = z3.Int(T.fresh_name("k"))
        at_k = general(lambda: v.at(k))
        ix = v.index_fn

        def index_fn(x):
            y = z3.Const(T.fresh_name("y"), S)
            return z3.substitute(ix(y), *(list(pairs) + [(y, x)]))
        return GSeq(subst(v.n, pairs),
                    lambda i: subst(at_k, list(pairs) + [(k, T.integer(i))]), v.name, v.distinct,
                    index_fn if ix else None)
    if isinstance(v, CatSeq):
        return CatSeq([subst(p, pairs) for p in v.parts])
    if isinstance(v, FlatSeq):
        return FlatSeq(subst(v.n, pairs), v.var,
                       [(subst(c, pairs), subst(x, pairs)) for c, x in v.cases])
    if isinstance(v, Layer):
        return Layer(v.kind, [(b, subst(n, pairs)) for b, n in v.binders],
                     subst(v.guard, pairs), subst(v.key, pairs), subst(v.val, pairs), v.first)
    if isinstance(v, Mutable):
        if not v.frozen:
            return v
        return subst_frozen(v, pairs)
    if isinstance(v, Opq):
        return Opq(v.spec, subst(v.term, pairs) if v.term is not None else None,
                   subst(v.data, pairs) if v.data is not None else None)
    if isinstance(v, dict):
        return {k: subst(x, pairs) for k, x in v.items()}
    return v


def general(fn):
    """fn() computed for every value of the free indices at once: no forks, no witnesses."""
    mark, c0 = COUNTER[0], T._count[0]
    NOFORK[0] += 1
    try:
        r = fn()
    except (PyRaise, Infeasible) as e:
        raise Unsupported("partial element (%s)" % e)
    finally:
        NOFORK[0] -= 1
    r = snap(r, mark)
    for name in free_names(r):
        if "!" in name and name.rsplit("!", 1)[1].isdigit() and int(name.rsplit("!", 1)[1]) > c0 \
                and name not in T.FOLDS and not name.startswith("Index_"):
            t = name.split("!")[0]
            if t in ("k",):
                continue
            raise Unsupported("element known only through a witness (%s)" % name)
    return r


def subst_frozen(v, pairs):
    memo = {}

    def go(x):
        if isinstance(x, Mutable) and x.frozen:
            if id(x) in memo:
                return memo[id(x)]
            if isinstance(x, VObj):
                lz = x.lazy
                r = VObj(x.cls, {})
                memo[id(x)] = r
                r.attrs = {k: go(y) for k, y in x.attrs.items()}
                if lz is not None:
                    def lazy(name):
                        got = lz(name)
                        return None if got is None else (subst(got[0], pairs),)
                    r.lazy = lazy
            elif isinstance(x, SList):
                r = SList(go(x.seq), go(x.layers))
                r.shared = getattr(x, "shared", True)
            elif isinstance(x, SSet):
                r = SSet(go(x.seq))
            elif isinstance(x, SDict):
                r = SDict(subst_base(x.base, pairs), go(x.layers))
                for k, y in x.__dict__.items():
                    if k not in ("base", "layers", "serial", "frozen"):
                        setattr(r, k, y)
            else:
                k1, k2 = z3.Int(T.fresh_name("k")), z3.Int(T.fresh_name("k"))
                b = general(lambda: x.base(k1, k2))
                r = SMatrix(subst(x.rows, pairs), subst(x.cols, pairs),
                            lambda i, j: subst(b, list(pairs) + [(k1, T.integer(i)),
                                                                 (k2, T.integer(j))]),
                            go(x.layers), x.kind)
            r.frozen, r.serial = True, x.serial
            memo[id(x)] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return subst(x, pairs)
    return go(v)


def free_names(v):
    """Names of the uninterpreted constants and functions in a value, without those bound
    by its own binders."""
    out = set()

    def term(t, bound):
        for x in T.consts_of(t):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n in T.FOLDS and not getattr(T.FOLDS[n], "seen", False):
                    pass
                if n not in bound:
                    out.add(n)
                if n in T.FOLDS:
                    f = T.FOLDS[n]
                    b2 = bound | {f.var.decl().name()} | {p.decl().name() for p in f.formals}
                    term(f.body, b2)
                    if is_z3(f.n):
                        term(f.n, b2)

    def go(x, bound, seen):
        if is_z3(x):
            term(x, bound)
        elif isinstance(x, Rope):
            for p in x.parts:
                go(p, bound, seen)
        elif isinstance(x, Code):
            term(x.value, bound)
        elif isinstance(x, (FoldPart, FlatSeq)):
            go(x.n, bound, seen)
            b2 = bound | {x.var.decl().name()}
            for c, r in x.cases:
                go(c, b2, seen)
                go(r, b2, seen)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y, bound, seen)
        elif isinstance(x, CatSeq):
            for p in x.parts:
                go(p, bound, seen)
        elif isinstance(x, GSeq):
            go(x.n, bound, seen)
            if x.open_:
                k = z3.Int("k!0")
                try:
                    at = general0(lambda: x.at(k))
                except Unsupported:
                    out.add("?")
                    return
                go(at, bound | {"k!0"}, seen)
        elif isinstance(x, Layer):
            b2 = set(bound)
            for v_, n_ in x.binders:
                go(n_, b2, seen)
                b2 = b2 | {v_.decl().name()}
            go(x.guard, b2, seen)
            go(x.key, b2, seen)
            if not callable(x.val) or isinstance(x.val, (Mutable, VFunc, Builtin)):
                go(x.val, b2, seen)
        elif isinstance(x, Mutable):
            if id(x) in seen:
                return
            seen = seen | {id(x)}
            if isinstance(x, VObj):
                if not x.frozen:
                    return
                for y in x.attrs.values():
                    go(y, bound, seen)
            elif isinstance(x, SMatrix):
                go(x.rows, bound, seen)
                go(x.cols, bound, seen)
                go(x.layers, bound, seen)
            elif isinstance(x, SSet):
                go(x.seq, bound, seen)
            elif isinstance(x, SList):
                go(x.seq, bound, seen)
                go(x.layers, bound, seen)
            else:
                go(x.layers, bound, seen)
        elif isinstance(x, Opq):
            go(x.term, bound, seen)
            go(x.data, bound, seen)
        elif isinstance(x, dict):
            for y in x.values():
                go(y, bound, seen)
        elif isinstance(x, Row):
            raise Unsupported("row of a list of lists kept")
    go(v, frozenset(), frozenset())
    return out


def general0(fn):
    NOFORK[0] += 1
    try:
        return fn()
    except (PyRaise, Infeasible) as e:
        raise Unsupported("partial element (%s)" % e)
    finally:
        NOFORK[0] -= 1


class DictBase(object):
    def __init__(self, has, get, keys=None):
        self.has, self.get, self.keys = has, get, keys


def subst_base(b, pairs):
    if b is None or not isinstance(b, DictBase):
        return b
    return DictBase(lambda k: subst(b.has(k), pairs), lambda k: subst(b.get(k), pairs),
                    subst(b.keys, pairs) if b.keys is not None else None)


def mentions_any(v, consts):
    """Does the value mention one of the constants (by id)?"""
    ids = {c.get_id() for c in consts}

    def go(x):
        if is_z3(x):
            return any(t.get_id() in ids for t in T.consts_of(x))
        if isinstance(x, Rope):
            return any(go(p) for p in x.parts)
        if isinstance(x, Code):
            return go(x.value)
        if isinstance(x, FoldPart):
            return go(x.n) or any(go(c) or go(r) for c, r in x.cases)
        if isinstance(x, (tuple, list)):
            return any(go(y) for y in x)
        if isinstance(x, CatSeq):
            return any(go(p) for p in x.parts)
        if isinstance(x, FlatSeq):
            return go(x.n) or any(go(c) or go(y) for c, y in x.cases)
        if isinstance(x, Layer):
            return go(x.guard) or go(x.key) or go(x.val) or any(go(n) for _, n in x.binders)
        if isinstance(x, (SList,)):
            return go(x.seq) or go(x.layers)
        if isinstance(x, SDict):
            return go(x.layers)
        if isinstance(x, Opq):
            return go(x.term) or go(x.data)
        return False
    return go(v)
