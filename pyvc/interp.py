"""Symbolic interpreter for the Python of the repository.

Concrete loops are unrolled; a loop over a sequence of unknown length is summarised
from one generic iteration (see generic()).  Anything outside the subset raises
Unsupported, which leaves the obligation undecided.
"""
import ast
import os
import weakref
from fractions import Fraction

import z3

import terms as T
from terms import (S, lit, is_z3, real, integer, fresh_index, fresh_name, make_fold)
from session import Unsupported, Infeasible, Session, poly
from values import *          # noqa
from values import DictBase, HELD, snap, view, subst, general, general0, free_names
import source
import texts
import sampled
from source import Module, ClassInfo, class_info


class LoopEnd(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


def invert(t, var, k):
    """The index at which an injective term takes a value."""
    fs = []
    while is_z3(t) and t.get_id() != var.get_id():
        if not z3.is_app(t):
            return None
        name = t.decl().name()
        if t.num_args() == 1 and name in T.INVERSE:
            fs.append(T.INVERSE[name])
            t = t.arg(0)
        elif name in T.INVERSE_AT:
            pos, f = T.INVERSE_AT[name]
            if any(mentions_any(a, [var]) for j, a in enumerate(t.children()) if j != pos):
                return None
            fs.append(lambda x, t=t, f=f: f(t, x))
            t = t.arg(pos)
        else:
            return None
    if not is_z3(t) or not fs:
        return None
    for f in fs:
        k = f(k)
    return k


class ReturnEx(Exception):
    def __init__(self, value):
        Exception.__init__(self)
        self.value = value


class Deferred(object):
    def __init__(self, fn):
        self.fn = fn


class DictHead(object):
    """Content of a dict at the start of a generic iteration: what it was before the loop
    at every key that no other iteration stores to (checked when the loop is summarised)."""

    def __init__(self, key, init, tally=False):
        self.key, self.init, self.reads = key, init, []
        # a dict that only gains amounts: anything may be there already
        self.tally = None
        if tally:
            self.tally = (z3.Function(key + "_has", S, z3.BoolSort()),
                          z3.Function(key + "_val", S, z3.RealSort()))


class NeedTally(Unsupported):
    def __init__(self, key):
        Unsupported.__init__(self, "read of a key that another iteration may store")
        self.key = key


def same_end(a, b):
    """Are two values of a variable or a container the same?"""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(same_end(x, y) for x, y in zip(a, b))
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if isinstance(a, (bool, int, float, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, FoldPart) and isinstance(b, FoldPart):
        return a.sep == b.sep and same_end((a.n, a.var, a.cases), (b.n, b.var, b.cases))
    if isinstance(a, Rope) and isinstance(b, Rope):
        return same_end(list(a.parts), list(b.parts))
    if isinstance(a, Layer) and isinstance(b, Layer):
        return a.kind == b.kind and a.first == b.first and same_end(
            (a.binders, a.guard, a.key, a.val), (b.binders, b.guard, b.key, b.val))
    return False


class Cell(SList):
    """A list held by a dict; appending to it changes the dict."""

    def __init__(self, I, d, key, value):
        self._I, self._d, self._key, self._v, self._seen = I, d, key, value, d.content
        self.frozen = True

    def _now(self):
        if self._d.content != self._seen and self._d.content is not self._seen:
            raise Unsupported("list of a dict that has changed")
        if self._v is None:
            raise Unsupported("read of a list in a dict that the loop builds")
        return self._v

    @property
    def seq(self):
        return self._now().seq

    @property
    def layers(self):
        return self._now().layers

    @property
    def content(self):
        v = self._now()
        return (v.seq, v.layers)

    def add(self, x):
        self._I.add_layer(self._d, Layer("ext", (), True, (self._key,), x))


class Env(object):
    def __init__(self, interp, module, cls=None, parent=None, locals_=None):
        self.I, self.module, self.cls, self.parent = interp, module, cls, parent
        self.vars = {}
        self.serial = interp.s.next_serial()
        interp.register(self)
        self.locals_ = locals_

    def set(self, name, value):
        I = self.I
        old = self.vars.get(name, Env)
        self.vars[name] = value

        def undo():
            if old is Env:
                self.vars.pop(name, None)
            else:
                self.vars[name] = old
        I.s.log(undo)
        I.mutlog.append(("env", self, name))

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Deferred):
                    d, v = v, v.fn()
                    e.vars[name] = v
                    self.I.s.log(lambda: e.vars.__setitem__(name, d))
                if v is POISON:
                    raise Unsupported("value of '%s' after a loop" % name)
                return v
            e = e.parent
        raise KeyError(name)


NUM = (int, float, Fraction)


def is_num(v):
    return (isinstance(v, NUM) and not isinstance(v, bool)) or \
        (is_z3(v) and v.sort() in (z3.IntSort(), z3.RealSort()))


def exact_quotient(a, b):
    """a // b where b is a factor of the product a (b is not zero)."""
    if a.eq(b):
        return z3.IntVal(1)
    if z3.is_mul(a):
        rest = list(a.children())
        for j, x in enumerate(rest):
            q = exact_quotient(x, b)
            if q is not None:
                rest[j] = q
                return z3.simplify(z3.Product(rest))
    return None


def is_intish(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or \
        (is_z3(v) and v.sort() == z3.IntSort())


EXC = {}


def exc(name, *bases):
    EXC[name] = ExcType(name, bases)


for _n, _b in (("BaseException", ()), ("Exception", ("BaseException",)),
               ("ValueError", ("Exception",)), ("TypeError", ("Exception",)),
               ("LookupError", ("Exception",)),
               ("KeyError", ("LookupError", "Exception")),
               ("IndexError", ("LookupError", "Exception")),
               ("AttributeError", ("Exception",)), ("NameError", ("Exception",)),
               ("ArithmeticError", ("Exception",)),
               ("ZeroDivisionError", ("ArithmeticError", "Exception")),
               ("IOError", ("Exception", "OSError")), ("OSError", ("Exception", "IOError")),
               ("NotImplementedError", ("Exception",)), ("ImportError", ("Exception",)),
               ("RuntimeError", ("Exception",)), ("AssertionError", ("Exception",)),
               ("OverflowError", ("ArithmeticError", "Exception")),
               ("StopIteration", ("Exception",)), ("SyntaxError", ("Exception",))):
    exc(_n, *_b)


def pyraise(name, msg=""):
    e = EXC.get(name)
    raise PyRaise(name, msg, e.bases if e else ("Exception",))


class RowIndex(tuple):
    """Index of an entry of a list of lists."""


class Interp(object):
    invariant = None      # contract on a loop: handler(I, node, sequence, env)
    files = None          # what is written to files, when a contract asks for it

    def __init__(self, session, contracts=None, externals=None):
        self.s = session
        self.contracts = contracts or {}
        self.mutlog = []
        self.dict_iter = []
        self.loops, self.deads = [], {}        # [dict, current key, changed otherwise?] of the loops over dicts
        self.heads, self.bases = {}, {}
        self.depth = 0
        # candidates for the invariants of loops of unknown length (None: such loops are
        # unrolled): {name: fn(I, iteration)}, properties of the values changed
        # [(name, fn(v))] and relations between them [(name, fn(a, b))], where fn gives None for values of other kinds
        self.loop_predicates, self.loop_properties, self.loop_relations = None, [], []
        self.inferring, self.on_yield = 0, None
        self.loops_found, self.epoch = {}, []
        self.registry = weakref.WeakValueDictionary()
        self.used = set()          # functions whose source was interpreted
        self.assumed = set()       # contracts assumed at call sites
        self.modelled = set()      # external functions modelled
        self.externals = externals or {}
        self.text_of = {}          # printed lists
        import builtins_model
        self.bm = builtins_model
        self.builtins = builtins_model.make(self)

    # ------------------------------------------------------------ objects
    def new(self, obj):
        obj.serial = self.s.next_serial()
        self.register(obj)
        return obj

    def obj(self, cls, attrs=None, lazy=None):
        return self.new(VObj(cls, attrs, lazy))

    def lst(self, seq=()):
        return self.new(SList(seq))

    def register(self, o):
        """Numbers the objects in the order in which the path creates them."""
        self.s.ordinal[0] += 1
        o.ordinal = self.s.ordinal[0]
        self.registry[o.ordinal] = o

    def set_content(self, o, c, allowed=False):
        if not allowed:
            for e in self.dict_iter:
                if e[0] is o:
                    e[2] = True
        if o.frozen:
            raise Unsupported("change of an object that a summary holds")
        old = o.content
        o.content = c
        self.s.log(lambda: setattr(o, "content", old))
        self.mutlog.append(("content", o, None))

    def set_attr(self, o, name, v):
        if o.frozen:
            raise Unsupported("change of an object that a summary holds")
        if name not in o.attrs and o.lazy is not None:
            self.peek(o, name)
        old = o.attrs.get(name, Env)
        o.attrs[name] = v

        def undo():
            if old is Env:
                o.attrs.pop(name, None)
            else:
                o.attrs[name] = old
        self.s.log(undo)
        self.mutlog.append(("attr", o, name))

    def decide(self, c):
        return self.s.decide(c)

    def peek(self, o, name):
        """Brings a contract-given attribute into the object: it was there all along."""
        if name in o.attrs or o.lazy is None:
            return
        v = o.lazy(name)
        if v is not None:
            if isinstance(v[0], Mutable):
                v[0].serial = o.serial
                if o.frozen:
                    v[0].frozen = True
            o.attrs[name] = v[0]

    # ------------------------------------------------------------ truth, equality
    def truth(self, v):
        """Python truth of a value, as bool or z3 Bool."""
        if isinstance(v, bool) or v is None:
            return bool(v)
        if is_z3(v):
            if v.sort() == z3.BoolSort():
                return v
            if v.sort() == S:
                return True if texts.nonempty(v) else v != lit("")
            return v != 0
        if isinstance(v, NUM):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Rope):
            if any(isinstance(p, (str, Code)) or (is_z3(p) and (p.sort() != S or texts.nonempty(p)))
                   for p in v.parts):
                return True
            cs = []
            for p in v.parts:
                if is_z3(p):
                    cs.append(p != lit(""))
                else:
                    # a fold of nonempty pieces is empty exactly without iterations
                    if all(self.truth(r) is True for _, r in p.cases) and \
                            self.s.valid(z3.Implies(p.n > 0, z3.Or(*[
                                z3.substitute(c, (p.var, z3.IntVal(0))) for c, _ in p.cases])))[0]:
                        cs.append(integer(p.n) > 0)
                        continue
                    # otherwise: the number of nonempty pieces is positive
                    body, joined = z3.RealVal(0), getattr(p, "joined", False)
                    for c, r in reversed(p.cases):
                        t = self.truth(r)
                        if t is not True and (t is not False or joined):
                            raise Unsupported("truth of folded text")
                        one = z3.RealVal(1 if t is True else 0)
                        body = one if c is True else z3.If(c, one, body)
                    cs.append(make_fold("sum", p.n, p.var, body) > 0)
            return z3.Or(*cs)
        if isinstance(v, Opq):
            if v.spec.truth is not None:
                return v.spec.truth(self, v)
            if v.spec.length is not None:
                n = v.spec.length(self, v)
                return n > 0 if is_z3(n) else n > 0
            return True
        if isinstance(v, SDict):
            if v.base is None and not v.layers:
                return False
            if any(not l.binders and l.guard is True for l in v.layers):
                return True
            n = self.length(v)
            return n > 0
        if isinstance(v, (tuple, SList, SSet, GSeq, CatSeq, FlatSeq)):
            n = self.length(v)
            return n > 0
        if isinstance(v, (VObj, VFunc, Builtin, VClass, VType, ExcType, Namespace)):
            return True
        raise Unsupported("truth of %r" % (v,))

    def test(self, v):
        return self.decide(self.truth(v))

    def eq(self, a, b):
        if a is b and not is_z3(a):
            return True
        if is_text(a) and is_text(b):
            return self.text_eq(a, b)
        if is_z3(a) and a.sort() == z3.BoolSort() and isinstance(b, bool):
            return a if b else z3.Not(a)
        if is_z3(b) and b.sort() == z3.BoolSort() and isinstance(a, bool):
            return b if a else z3.Not(b)
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a == b
        if (is_num(a) or isinstance(a, bool)) and (is_num(b) or isinstance(b, bool)):
            if not is_z3(a) and not is_z3(b):
                return a == b
            if is_intish(a) and is_intish(b):
                return integer(a) == integer(b)
            return real(a) == real(b)
        if a is None or b is None:
            if isinstance(a, Opq) or isinstance(b, Opq):
                o = a if isinstance(a, Opq) else b
                if "is_none" in o.spec.attrs:
                    return o.spec.attrs["is_none"](self, o)
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Opq) and isinstance(b, Opq) and a.term is not None and \
                b.term is not None and a.term.sort() == b.term.sort():
            return a.term == b.term
        if isinstance(a, Opq) and "eq" in a.spec.methods:
            return a.spec.methods["eq"](self, a, [b], {})
        if isinstance(b, Opq) and "eq" in b.spec.methods:
            return b.spec.methods["eq"](self, b, [a], {})
        if isinstance(a, VType) and isinstance(b, VType):
            return a.name == b.name
        if isinstance(a, VClassRef) and isinstance(b, VClassRef):
            return a.cls is b.cls
        if isinstance(a, VClassRef) and isinstance(b, VType) or isinstance(a, VType) and isinstance(b, VClassRef):
            return False
        ta, tb = self.kind(a), self.kind(b)
        if ta != tb and "?" not in (ta, tb):
            return False
        if isinstance(a, SDict) and isinstance(b, SDict):
            return self.dict_eq(a, b)
        if isinstance(a, (SList, tuple)) and isinstance(b, (SList, tuple)):
            ia, ib = getattr(a, "ident", None), getattr(b, "ident", None)
            if ia and ib and not a.layers and not b.layers:
                # lists of objects that are equal to themselves only
                return z3.Or(z3.And(*[x == y for x, y in zip(ia, ib)]),
                             z3.And(integer(self.length(a)) == 0, integer(self.length(b)) == 0))
            sa, sb = self.segments(a), self.segments(b)
            if all(isinstance(x, tuple) for x in sa + sb):
                fa = tuple(y for x in sa for y in x)
                fb = tuple(y for x in sb for y in x)
                return self.eq(fa, fb)
        raise Unsupported("comparison of %r and %r" % (a, b))

    def dict_eq(self, a, b):
        """Dicts from texts to numbers that are known by a contract."""
        if a.layers or b.layers or not all(isinstance(x.base, DictBase) for x in (a, b)):
            raise Unsupported("comparison of these dicts")

        def same(t):
            p, q, x, y = a.base.has(t), b.base.has(t), a.base.get(t), b.base.get(t)
            if not is_num(x) or not is_num(y):
                raise Unsupported("comparison of these dicts")
            return z3.And(p == q, z3.Implies(p, real(x) == real(y)))
        if self.s.choose(2) == 0:
            self.s.assume_all(same, S)
            self.check_feasible()
            return True
        w = z3.Const(fresh_name("key"), S)
        self.s.assume(z3.Not(same(w)))
        self.check_feasible()
        return False

    def kind(self, v):
        if v is None:
            return "none"
        if is_text(v):
            return "text"
        if is_num(v) or isinstance(v, bool):
            return "num"
        if isinstance(v, SDict):
            return "dict"
        if isinstance(v, SList):
            return "list"
        if isinstance(v, tuple):
            return "tuple"
        return "?"

    def conj(self, cs):
        out = []
        for c in cs:
            if c is False:
                return False
            if c is True:
                continue
            out.append(c)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def disj(self, cs):
        out = []
        for c in cs:
            if c is True:
                return True
            if c is False:
                continue
            out.append(c)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    def neg(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def text_eq(self, a, b):
        pa, pb = parts_of(a), parts_of(b)
        if same_end(list(pa), list(pb)):
            return True
        # common prefix
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                k = 0
                while k < len(x) and k < len(y) and x[k] == y[k]:
                    k += 1
                if k < len(x) and k < len(y):
                    return False
                pa[0], pb[0] = x[k:], y[k:]
                if not pa[0]:
                    pa.pop(0)
                if not pb[0]:
                    pb.pop(0)
            elif is_z3(x) and is_z3(y) and x.get_id() == y.get_id() and x.sort() != z3.IntSort():
                pa.pop(0)
                pb.pop(0)
            else:
                break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if isinstance(x, str) and isinstance(y, str):
                k = 0
                while k < len(x) and k < len(y) and x[-1 - k] == y[-1 - k]:
                    k += 1
                if k < len(x) and k < len(y):
                    return False
                pa[-1], pb[-1] = x[:len(x) - k], y[:len(y) - k]
                if not pa[-1]:
                    pa.pop()
                if not pb[-1]:
                    pb.pop()
            elif is_z3(x) and is_z3(y) and x.get_id() == y.get_id() and x.sort() != z3.IntSort():
                pa.pop()
                pb.pop()
            else:
                break
        if not pa and not pb:
            return True
        if not pa or not pb:
            rest = pa or pb
            if any(isinstance(p, str) for p in rest):
                return False
        if len(pa) == 1 and len(pb) == 1 and is_z3(pa[0]) and is_z3(pb[0]) and \
                pa[0].sort() == pb[0].sort() and pa[0].sort() != S:
            return pa[0] == pb[0]
        for x, y in ((pa, pb), (pb, pa)):
            if all(isinstance(p, str) for p in x) and texts.differs(self, y, "".join(x)):
                return False
        if sampled.known_pieces(rope(*pa)) or sampled.known_pieces(rope(*pb)):
            return sampled.equal(self, rope(*pa), rope(*pb))
        return as_S(rope(*pa)) == as_S(rope(*pb))

    def contains_text(self, small, big):
        """'small' in text big, small a literal."""
        if isinstance(small, str) and isinstance(big, str):
            return small in big
        if not isinstance(small, str):
            if is_text(small) and sampled.known_pieces(big):
                return sampled.contains(self, small, big)
            if is_text(small):
                f = z3.Function("contains2", S, S, z3.BoolSort())
                return f(as_S(big), as_S(small))
            raise Unsupported("membership in text")
        if sampled.known_pieces(big):
            return sampled.contains(self, small, big)
        cs = []
        for p in parts_of(big):
            if isinstance(p, str):
                if small in p:
                    return True
            elif is_z3(p) and p.sort() == S and len(small) == 1 and texts.lacks(p, small):
                continue
            elif is_z3(p) and p.sort() == S:
                cs.append(T_contains(small)(p))
            elif is_z3(p):
                if any(ch.isdigit() or ch in ".-einf+" for ch in small):
                    raise Unsupported("membership in a printed number")
            else:
                raise Unsupported("membership in folded text")
        if len(small) > 1 and len(parts_of(big)) > 1:
            raise Unsupported("membership across pieces of text")
        return self.disj(cs)

    # ------------------------------------------------------------ sequences
    def segments(self, v):
        """List of tuple | GSeq | FlatSeq whose concatenation is the sequence."""
        if isinstance(v, tuple):
            return [v] if v else []
        if isinstance(v, list):
            return [tuple(v)]
        if isinstance(v, SList):
            if v.layers:
                if isinstance(v.seq, HeadSeq):
                    raise Unsupported("read of a list that the loop changes")
                n = self.length(SList(v.seq))
                if isinstance(n, int):
                    return [tuple(self.getitem(v, k) for k in range(n))]
                c = view(v)
                return [GSeq(n, lambda i: self.list_read(c, i))]
            return self.segments(v.seq)
        if isinstance(v, SSet):
            return self.segments(v.seq)
        if isinstance(v, (GSeq, FlatSeq)):
            n = z3.simplify(v.n) if is_z3(v.n) else v.n
            if is_z3(n) and z3.is_int_value(n):
                n = n.as_long()
            if isinstance(n, int) and isinstance(v, GSeq):
                return [tuple(v.at(z3.IntVal(k)) for k in range(n))]
            return [v]
        if isinstance(v, CatSeq):
            out = []
            for p in v.parts:
                out.extend(self.segments(p))
            return out
        if isinstance(v, str):
            return [tuple(v)]
        if isinstance(v, SDict):
            return self.segments(self.dict_keys(v))
        if isinstance(v, Opq) and v.spec.iterate is not None:
            return self.segments(v.spec.iterate(self, v))
        if isinstance(v, SMatrix):
            r = self.dim(v.rows)
            c = self.dim(v.cols)
            if v.kind == "mp":
                if isinstance(c, int) and c == 1:
                    return self.segments(GSeq(integer(v.rows), lambda i: self.mat_read(v, i, z3.IntVal(0))))
                if isinstance(r, int) and r == 1:
                    return self.segments(GSeq(integer(v.cols), lambda j: self.mat_read(v, z3.IntVal(0), j)))
            raise Unsupported("iteration over a matrix")
        if v is None or is_num(v) or isinstance(v, bool):
            pyraise("TypeError", "not iterable")
        raise Unsupported("iteration over %r" % (v,))

    def dim(self, n):
        if is_z3(n):
            n = z3.simplify(n)
            if z3.is_int_value(n):
                return n.as_long()
        return n

    def length(self, v):
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Opq) and v.spec.length is not None:
            return v.spec.length(self, v)
        if isinstance(v, Row):
            return self.dim(v.rows.cols)
        if isinstance(v, SMatrix):
            if v.kind == "mp":
                return self.dim(integer(v.rows)*integer(v.cols))
            return self.dim(v.rows)
        if isinstance(v, SList) and v.layers:
            v = v.seq
        tot = 0
        for seg in self.segments(v):
            if isinstance(seg, tuple):
                k = len(seg)
            elif isinstance(seg, GSeq):
                k = seg.n
            elif isinstance(seg, FlatSeq):
                cnt = z3.RealVal(0)
                one = True
                for c, items in reversed(seg.cases):
                    ln = self.length(items)
                    one = one and isinstance(ln, int) and ln == 1
                    cnt = z3.If(c, real(ln), cnt) if not isinstance(c, bool) else \
                        (real(ln) if c else cnt)
                if one and self.covers(seg):
                    k = seg.n
                else:
                    k = z3.ToInt(make_fold("sum", seg.n, seg.var, cnt))
            else:
                raise Unsupported("length of %r" % (seg,))
            tot = tot + k
        return self.dim(tot) if is_z3(tot) else tot

    def covers(self, seg):
        """Do the cases of a FlatSeq cover every index?"""
        if any(c is True for c, _ in seg.cases):
            return True
        g = z3.Or(*[c for c, _ in seg.cases if is_z3(c)])
        j = fresh_index("c")
        ok, _ = self.s.under([j >= 0, j < seg.n],
                             lambda: self.s.valid(z3.substitute(g, (seg.var, j))))
        return ok

    def seg_at(self, seg, i):
        if isinstance(seg, tuple):
            if is_z3(i):
                i2 = z3.simplify(i)
                if z3.is_int_value(i2):
                    return seg[i2.as_long()]
                for k in range(len(seg)):
                    if self.decide(i == k):
                        return seg[k]
                raise Unsupported("index")
            return seg[i]
        if isinstance(seg, GSeq):
            return seg.at(integer(i))
        if isinstance(seg, FlatSeq):
            pairs = [(seg.var, integer(i))]
            vals = []
            for c, items in seg.cases:
                if self.length(items) != 1:
                    if is_z3(c) and not self.s.feasible(subst(c, pairs)):
                        continue
                    raise Unsupported("index into a filtered sequence")
                vals.append((subst(c, pairs), items))
            if not vals:
                raise Infeasible()
            firsts = [self.segments(it)[0] for _, it in vals]
            its = [f[0] if isinstance(f, tuple) else self.seg_at(f, 0) for f in firsts]
            its = [subst(x, pairs) for x in its]
            if all(is_num(x) for x in its):
                r = its[-1]
                for (c, _), x in reversed(list(zip(vals, its))[:-1]):
                    r = x if c is True else z3.If(c, real(x), real(r)) \
                        if not (is_intish(x) and is_intish(r)) else z3.If(c, integer(x), integer(r))
                return r
            for (c, _), x in list(zip(vals, its))[:-1]:
                if c is True or self.decide(c):
                    return x
            return its[-1]
        raise Unsupported("index into %r" % (seg,))

    def same_at(self, seg, x):
        """position -> term: the element there equals x (no case distinctions)."""
        j = z3.Int(fresh_name("pos"))
        if isinstance(seg, FlatSeq):
            if not self.covers(seg):
                raise Unsupported("position in a filtered sequence")
            p = [(seg.var, j)]
            alts = []
            for cnd, items in seg.cases:
                subs = self.segments(items)
                if len(subs) != 1 or not isinstance(subs[0], tuple) or len(subs[0]) != 1:
                    raise Unsupported("position in a filtered sequence")
                e = general0(lambda: self.eq(subst(subs[0][0], p), x))
                alts.append(self.conj([subst(cnd, p) if cnd is not True else True, e]))
            c = self.disj(alts)
        else:
            c = general0(lambda: self.eq(seg.at(j), x))
        c = _b(c)
        return lambda i: z3.substitute(c, (j, integer(i)))

    def seq_at(self, v, i):
        """Element i (0 <= i < length assumed) of a sequence."""
        segs = self.segments(v)
        if len(segs) == 1:
            return self.seg_at(segs[0], i)
        off = 0
        for k, seg in enumerate(segs):
            n = len(seg) if isinstance(seg, tuple) else self.length(seg)
            j = self.dim(integer(i) - integer(off)) if (is_z3(i) or is_z3(off)) else i - off
            if k == len(segs) - 1:
                return self.seg_at(seg, j)
            c = (j < n)
            if self.decide(c):
                return self.seg_at(seg, j)
            off = off + n
        pyraise("IndexError")

    def list_read(self, v, i):
        i = integer(i)
        val = None
        if isinstance(v.seq, HeadSeq) and v.seq.fn is None:
            raise Unsupported("read of a list that the loop builds")
        below = lambda: v.seq.fn(i) if isinstance(v.seq, HeadSeq) else self.seq_at(v.seq, i)
        return self.read_layers(v.layers, (i,), below)

    def read_layers(self, layers, key, below):
        """Value at key under the layers."""
        if not layers:
            return below()
        L = layers[-1]
        rest = layers[:-1]
        if L.kind == "acc":
            b = self.read_layers(rest, key, below)
            hit = self.conj([self.eq(x, y) for x, y in zip(L.key, key)] +
                            ([L.guard] if L.guard is not True else []))
            t = real(L.val)
            if hit is False:
                return b
            body = t if hit is True else z3.If(hit, t, z3.RealVal(0))
            for var, n in reversed(L.binders):
                body = make_fold("sum", n, var, body)
            return real(b) + body
        # overwrite
        if not L.binders:
            hit = self.conj([self.eq(x, y) for x, y in zip(L.key, key)] +
                            ([L.guard] if L.guard is not True else []))
            if hit is True:
                return L.val
            if hit is False:
                return self.read_layers(rest, key, below)
            if is_num(L.val):
                b = self.read_layers(rest, key, below)
                if is_num(b):
                    if is_intish(L.val) and is_intish(b):
                        return z3.If(hit, integer(L.val), integer(b))
                    return z3.If(hit, real(L.val), real(b))
                return L.val if self.decide(hit) else b
            if self.decide(hit):
                return L.val
            return self.read_layers(rest, key, below)
        sol = self.solve_binders(L, key)
        if sol is None:
            return self.last_store(L, rest, key, below)
        pairs, inr = sol
        val = subst(L.val, pairs)
        if inr is True:
            return val
        if is_num(val):
            b = self.read_layers(rest, key, below)
            if is_num(b):
                if is_intish(val) and is_intish(b):
                    return z3.If(inr, integer(val), integer(b))
                return z3.If(inr, real(val), real(b))
        if self.decide(inr):
            return val
        return self.read_layers(rest, key, below)

    def last_store(self, L, rest, key, below):
        """The value the last iteration stored at the key, if any did."""
        if len(L.binders) != 1 or NOFORK[0]:
            raise Unsupported("keyed store in a loop with keys that may repeat")
        var, n = L.binders[0]
        hit = self.conj([self.eq(x, y) for x, y in zip(L.key, key)] +
                        ([L.guard] if L.guard is not True else []))
        if hit is False:
            return self.read_layers(rest, key, below)
        at = lambda j: _b(subst(_b(hit), [(var, j)]))
        n = integer(n)
        if self.s.choose(2) == 0:
            w = fresh_index("w")
            self.s.assume(z3.And(w >= 0, w < n, at(w)))
            self.s.assume_all(lambda j: z3.Implies(z3.And(j > w, j < n), z3.Not(at(j))))
            self.check_feasible()
            return subst(L.val, [(var, w)])
        self.s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.Not(at(j))))
        self.check_feasible()
        return self.read_layers(rest, key, below)

    def solve_binders(self, L, key):
        """Index choice that hits key, when it is unique: (substitution, condition)."""
        pairs, conds = [], []
        for var, n in reversed(L.binders):
            sol = None
            for comp, k in zip(L.key, key):
                if is_z3(comp) and comp.get_id() == var.get_id():
                    sol = integer(k)
                    break
                t = as_S(comp) if is_text(comp) else comp
                if isinstance(comp, Opq) and isinstance(k, Opq) and comp.term is not None and k.term is not None:
                    t, k = comp.term, k.term
                sol = invert(t, var, as_S(k) if is_text(k) else k)
                if sol is not None:
                    break
            if sol is None:
                # the guard may determine the index
                for a, b in guard_equalities(L.guard):
                    if z3.is_app(a) and a.num_args() == 1 and a.arg(0).get_id() == var.get_id() \
                            and a.decl().name() in T.INVERSE and not mentions_any(b, [var]):
                        sol = subst(T.INVERSE[a.decl().name()](b), pairs)
                        break
            if sol is None:
                return None
            pairs.append((var, sol))
            conds.append(z3.And(sol >= 0, sol < subst(n, pairs)))
        conds += [self.eq(subst(x, pairs), y) for x, y in zip(L.key, key)]
        if L.guard is not True:
            conds.append(subst(L.guard, pairs))
        return pairs, self.conj(conds)

    # ------------------------------------------------------------ dicts
    def dict_find(self, d, key):
        """(True, value) or (False, None); forks."""
        ok, v = self._find(d.base, d.layers, key)
        if v is HELD:
            raise Unsupported("read of a list in a dict that the loop builds")
        return ok, v

    def _find(self, base, layers, key):
        if not layers:
            if base is None:
                return False, None
            if isinstance(base, DictHead) and base.tally:
                if not is_text(key):
                    raise Unsupported("tally of keys that are no texts")
                if self.decide(base.tally[0](as_S(key))):
                    return True, base.tally[1](as_S(key))
                return False, None
            if isinstance(base, DictHead):
                base.reads.append((key, list(self.s.pc)))
                ok, v = self._find(base.init[0], base.init[1], key)
                if ok and isinstance(v, SList) and v.frozen:
                    if getattr(v, "shared", True):
                        raise Unsupported("list of a dict that the loop builds")
                    v = HELD
                return ok, v
            if self.decide(base.has(key)):
                v = base.get(key)
                if isinstance(v, Mutable):
                    v.frozen = True           # made on demand: a change would be lost
                return True, v
            return False, None
        L = layers[-1]
        if L.kind == "setall":
            ok, v = self._find(base, layers[:-1], key)
            return (ok, L.val(key) if ok else None)
        if L.kind == "acc":
            ok, v = self._find(base, layers[:-1], key)
            if not ok or v is HELD:
                return ok, v
            hit = self.conj([self.eq(L.key[0], key)] + ([L.guard] if L.guard is not True else []))
            if hit is False:
                return ok, v
            body = real(L.val) if hit is True else z3.If(hit, real(L.val), z3.RealVal(0))
            for var, n in reversed(L.binders):
                body = make_fold("sum", n, var, body)
            return True, real(v) + body
        if L.kind == "tal":
            more, times = self.tallied(L, key)
            ok, v = self._find(base, layers[:-1], key)
            if ok:
                return True, real(v) + more
            if self.decide(times >= 1):
                return True, more
            return False, None
        if L.kind == "ext":
            ok, v = self._find(base, layers[:-1], key)
            if not ok or v is HELD:
                return ok, v
            hit = self.conj([self.eq(L.key[0], key)] + ([L.guard] if L.guard is not True else []))
            if not isinstance(v, SList) or v.layers or len(L.binders) > 1:
                raise Unsupported("list of a dict extended by nested loops")
            if not L.binders:
                more = (L.val,) if self.decide(hit) else ()
            else:
                var, n = L.binders[0]
                more = FlatSeq(n, var, [(_b(hit), (L.val,)), (True, ())])
            r = SList(catseq(v.seq, more))
            r.frozen, r.serial = True, v.serial
            return True, r
        if L.first:
            ok, v = self._find(base, layers[:-1], key)
            if ok:
                return ok, v
        if not L.binders:
            hit = self.conj([self.eq(L.key[0], key)] + ([L.guard] if L.guard is not True else []))
            r = self._either(base, layers[:-1], key, hit, L.val, L.first)
            if r is not None:
                return r
            if self.decide(hit):
                return True, L.val
        else:
            sol = self.solve_binders(L, (key,))
            if sol is not None:
                pairs, inr = sol
                val = subst(L.val, pairs)
                r = self._either(base, layers[:-1], key, inr, val, L.first)
                if r is not None:
                    return r
                if self.decide(inr):
                    return True, val
            else:
                # any index may hit: the last (first) one that does
                if len(L.binders) != 1:
                    raise Unsupported("dict filled by nested loops")
                var, n = L.binders[0]

                def hit(j, L=L, var=var):
                    p = [(var, j)]
                    return self.conj([self.eq(subst(L.key[0], p), key)] +
                                     ([subst(L.guard, p)] if L.guard is not True else []))
                if self.s.choose(2) == 0:
                    w = fresh_index("w")
                    self.s.assume(z3.And(w >= 0, w < n))
                    h = hit(w)
                    self.s.assume(h)
                    if L.first:
                        self.s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < w), z3.Not(_b(hit(j)))))
                    else:
                        self.s.assume_all(lambda j: z3.Implies(z3.And(j > w, j < n), z3.Not(_b(hit(j)))))
                    self.check_feasible()
                    return True, subst(L.val, [(var, w)])
                self.s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.Not(_b(hit(j)))))
                self.check_feasible()
        if L.first:
            return False, None
        return self._find(base, layers[:-1], key)

    def tallied(self, L, key):
        """(amount added at a key, number of additions)"""
        binders, val, hit = L.binders, real(L.val), None
        if len(binders) > 1:
            # an inner index that the key determines
            sol = self.solve_binders(Layer("set", binders[-1:], L.guard, L.key, L.val), (key,))
            if sol is not None:
                val, hit, binders = subst(val, sol[0]), sol[1], binders[:-1]
        if hit is None:
            hit = self.conj([self.eq(L.key[0], key)] + ([L.guard] if L.guard is not True else []))
        out = []
        for t in (val, z3.RealVal(1)):
            if hit is False:
                out.append(z3.RealVal(0))
                continue
            body = t if hit is True else z3.If(hit, t, z3.RealVal(0))
            for var, n in reversed(binders):
                body = make_fold("sum", n, var, body)
            out.append(body)
        return out

    def tally_keys(self, d):
        """The keys of a dict that only gains amounts: some list without repetition."""
        if d.base is not None or any(M.kind not in ("setall", "ext", "acc", "tal") for M in d.layers):
            raise Unsupported("keys of a tally in a dict with other keys")
        tals = [M for M in d.layers if M.kind == "tal"]
        L = tals[-1]
        if getattr(L, "names", None) is None or not same_end(L.names[2], tals):
            tag = fresh_name("key")
            n = z3.Int("N_" + tag)
            name = z3.Function("name_" + tag, z3.IntSort(), S)
            f = z3.Function("idx_" + tag, S, z3.IntSort())
            idx = lambda t: T.undo("name_" + tag, f, t)
            T.INVERSE["name_" + tag] = idx
            T.INDEXED["name_" + tag] = 0
            has = lambda t: z3.Or(*[self.tallied(M, t)[1] >= 1 for M in tals])
            T.schema("name_" + tag, lambda a: [f(a) == a.arg(0), z3.Implies(
                z3.And(a.arg(0) >= 0, a.arg(0) < n), has(a))])
            T.schema("idx_" + tag, lambda a: [] if a.arg(0).decl().name() == "name_" + tag else [
                z3.Implies(z3.And(a >= 0, a < n), name(a) == a.arg(0)),
                has(a.arg(0)) == z3.And(a >= 0, a < n)])
            L.names = (n, GSeq(n, lambda i: name(integer(i)), tag, True, idx), tals)
            L.names += (lambda: self.s.assume_all(lambda j: z3.Implies(
                z3.And(j >= 0, j < n), has(name(j)))),)
        self.s.assume(L.names[0] >= 0)
        L.names[3]()
        return L.names[1]

    def _either(self, base, layers, key, hit, val, first):
        """A number of either layer as one term (instead of a fork), when there is one."""
        if first or isinstance(hit, bool) or not is_num(val):
            return None
        if not self.s.feasible(hit) or not self.s.feasible(z3.Not(hit)):
            return None
        there = self._has_term(base, layers, key)
        if there is not True and not self.s.valid(_b(there))[0]:
            return None
        ok, b = self._find(base, layers, key)
        if not ok or not is_num(b):
            return None
        if is_intish(val) and is_intish(b):
            return True, z3.If(hit, integer(val), integer(b))
        return True, z3.If(hit, real(val), real(b))

    def check_feasible(self):
        r, _, _, _ = self.s.check(list(self.s.pc) or [z3.BoolVal(True)], 1500)
        if r == z3.unsat:
            raise Infeasible()

    def dict_set(self, d, key, val, first=False):
        L = Layer("set", (), True, (key,), val, first)
        # a store to the current key does not change the keys
        ok = all(e[0] is not d or (e[1] is not None and self.eq(e[1], key) is True)
                 for e in self.dict_iter)
        if not first:
            # a store to a syntactically equal key replaces the old one
            ls = list(d.layers)
            for k in range(len(ls) - 1, -1, -1):
                o = ls[k]
                if o.binders or o.kind != "set" or o.guard is not True:
                    break
                e = self.eq(o.key[0], key)
                if e is True:
                    ls[k] = Layer("set", (), True, (key,), val, o.first)
                    self.set_content(d, (d.base, tuple(ls)), ok)
                    return
                if e is not False:
                    break
        self.set_content(d, (d.base, d.layers + (L,)), ok)

    def dict_keys(self, d):
        """Sequence of keys in insertion order; needs the layers to add new keys."""
        parts = []
        if isinstance(d.base, DictHead):
            raise Unsupported("iteration over a dict that the loop builds")
        if any(L.kind == "tal" for L in d.layers):
            return self.tally_keys(d)
        if d.base is not None:
            if d.base.keys is None:
                raise Unsupported("iteration over an unknown dict")
            parts.append(d.base.keys)
        for k, L in enumerate(d.layers):
            if L.kind in ("setall", "ext", "acc"):
                continue
            if not L.binders:
                e = self._has_term(d.base, d.layers[:k], L.key[0])
                if e is True:
                    continue
                if e is False:
                    parts.append((L.key[0],))
                    continue
                if self.decide(e):
                    continue
                parts.append((L.key[0],))
            else:
                if len(L.binders) != 1:
                    raise Unsupported("keys of a dict filled by nested loops")
                var, n = L.binders[0]
                t = as_S(L.key[0]) if is_text(L.key[0]) else L.key[0]
                if not (is_z3(t) and z3.is_app(t) and t.num_args() == 1 and
                        t.arg(0).get_id() == var.get_id() and t.decl().name() in T.INVERSE):
                    raise Unsupported("keys of a dict filled in a loop may repeat")
                j = fresh_index("j")
                key = subst(L.key[0], [(var, j)])

                def old():
                    e = self._has_term(d.base, d.layers[:k], key)
                    return e
                guard = subst(L.guard, [(var, j)]) if L.guard is not True else True
                facts = [j >= 0, j < n] + ([guard] if guard is not True else [])
                e = old()
                if e is False or (e is not True and
                                  self.s.under(facts, lambda: self.s.valid(z3.Not(e)))[0]):
                    parts.append(FlatSeq(n, var, [(L.guard, (L.key[0],))])
                                 if L.guard is not True else
                                 GSeq(n, lambda i, L=L, var=var: subst(L.key[0], [(var, i)])))
                elif e is True or self.s.under(facts, lambda: self.s.valid(e))[0]:
                    continue
                else:
                    raise Unsupported("keys of a dict filled in a loop may repeat")
        return catseq(*parts)

    def _has_term(self, base, layers, key):
        """Condition for key to be present (no forks)."""
        cs = []
        if base is not None:
            if isinstance(base, DictHead) and base.tally:
                if not is_text(key):
                    raise Unsupported("tally of keys that are no texts")
                cs.append(base.tally[0](as_S(key)))
            elif isinstance(base, DictHead):
                base.reads.append((key, list(self.s.pc)))
                cs.append(self._has_term(base.init[0], base.init[1], key))
            else:
                cs.append(base.has(key))
        for L in layers:
            if L.kind in ("setall", "ext", "acc"):
                continue
            if L.kind == "tal":
                cs.append(self.tallied(L, key)[1] >= 1)
            elif not L.binders:
                cs.append(self.conj([self.eq(L.key[0], key)] +
                                    ([L.guard] if L.guard is not True else [])))
            else:
                sol = self.solve_binders(L, (key,))
                if sol is None:
                    raise Unsupported("presence in a dict filled in a loop")
                cs.append(sol[1])
        return self.disj(cs)

    # ------------------------------------------------------------ matrices
    def mat_read(self, m, i, j):
        i, j = integer(i), integer(j)
        return self.read_layers(m.layers, (i, j), lambda: m.base(i, j))

    # ------------------------------------------------------------ loops
    def for_each(self, seq, body):
        """Runs body(element) over a sequence."""
        for seg in self.segments(seq):
            if isinstance(seg, tuple):
                for x in seg:
                    try:
                        body(x)
                    except ContinueEx:
                        pass
            elif isinstance(seg, GSeq):
                self.generic(seg.n, lambda i, seg=seg: body(seg.at(i)))
            elif isinstance(seg, FlatSeq):
                def run(i, seg=seg):
                    pairs = [(seg.var, i)]
                    for c, items in seg.cases:
                        if c is True or self.decide(subst(c, pairs)):
                            self.for_each(subst(items, pairs), body)
                            return
                self.generic(seg.n, run)
            else:
                raise Unsupported("loop over %r" % (seg,))

    def generic(self, n, run, ends=False):
        """Summary of  for i in range(n): run(i)."""
        n = integer(n)
        mark_serial = self.s.serial
        i = fresh_index("i")
        W = {}
        forced = set()
        tallies = set()
        while True:
            got = self.summary(i, n, run, mark_serial, W, forced, tallies)
            try:
                self.settle(i, n, *got)
                break
            except NeedTally as e:
                if e.key in tallies:
                    raise
                tallies.add(e.key)
        if ends:
            self.must_end(i, *got)
        self.apply(i, n, got[0], W, got[1])

    def must_end(self, i, res, holders):
        """Every iteration that goes on is under a test that some iteration fails: a
        difference that is not negative and becomes smaller each time."""
        count = self.steady(res, holders)
        pairs = [(holders[k][1], integer(holders[k][3]) + c*i) for k, c in count.items()]
        tokens = [h[1] for h in holders.values() if h[0] in ("num", "text")]

        def falls(c):
            pos, c = True, z3.simplify(_b(c))
            while z3.is_not(c):
                pos, c = not pos, c.arg(0)
            if not (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)) or not z3.is_int(c.arg(0)):
                return False
            d = c.arg(1) - c.arg(0)
            if (z3.is_ge(c) or z3.is_gt(c)) == pos:
                d = -d
            d = z3.substitute(d, *pairs) if pairs else d
            by = z3.simplify(d - z3.substitute(d, (i, i + 1)))
            return not mentions_any(d, tokens) and z3.is_int_value(by) and by.as_long() > 0

        def parts(c):
            return [y for x in c.children() for y in parts(x)] if z3.is_and(c) else [c]
        for r in res:
            if r["kind"] == "next" and not any(falls(y) for c in r["conds"] for y in parts(_b(c))):
                raise Unsupported("while loop that may not end")

    def summary(self, i, n, run, mark_serial, W, forced, tallies):
        counters = {}
        for attempt in range(12):
            holders = {}
            mark = len(self.s.trail)
            c1 = T._count[0]
            for key, loc in W.items():
                holders[key] = self.placeholder(loc, key in forced, key in tallies)
            c0 = T._count[0]
            for key, c in counters.items():
                if holders[key][0] == "num" and holders[key][1].sort() == z3.IntSort():
                    self.s.assume(holders[key][1] == integer(holders[key][3]) + c*i)
            res = self.s.explore(lambda: self.one_iteration(i, n, run, mark_serial, holders))
            new = {}
            reals = set()
            for conds, r in res:
                for key, loc in r["locs"].items():
                    if key not in W:
                        new[key] = loc
                for key, v in r["ends"].items():
                    h = holders.get(key)
                    if h and h[0] == "num" and h[1].sort() == z3.IntSort() and is_z3(v) and \
                            v.sort() == z3.RealSort():
                        reals.add(key)
                    if h and h[0] == "num" and h[1].sort() == z3.IntSort() and \
                            isinstance(v, (float, Fraction)):
                        reals.add(key)
            # effects of later attempts are computed with the placeholders in place
            if not new and not (reals - forced):
                # what every iteration that goes on changes by the same amount is known
                count = self.steady([r for _, r in res], holders)
                if all(k in counters for k in count):
                    break
                counters.update(count)
            self.s.rollback(mark)
            W.update(new)
            forced |= reals
        else:
            raise Unsupported("loop effects did not settle")
        self.s.rollback(mark)
        res = [r for _, r in res]
        for key, h in holders.items():
            if h[0] == "dict" and self.bases[h[1]].tally:
                res = self.merge_tally(key, res, holders)
        self.close(i, res, c0, c1)
        return res, holders

    def steady(self, res, holders):
        """Whole numbers on which the end of a loop depends and that every iteration that
        does not end it changes by the same amount."""
        normal = [r for r in res if r["kind"] == "next"]
        out = {}
        if not normal or len(normal) == len(res):
            return out
        for key, h in holders.items():
            if h[0] != "num" or h[1].sort() != z3.IntSort() or \
                    not any(mentions_any(tuple(r["conds"]), [h[1]]) for r in res):
                continue
            by = set()
            for r in normal:
                v = r["ends"][key]
                d = None
                if is_z3(v) and v.sort() == z3.IntSort():
                    d = z3.simplify(v - h[1])
                by.add(d.as_long() if d is not None and z3.is_int_value(d) else None)
            if len(by) == 1 and None not in by:
                out[key] = by.pop()
        return out

    def not_ended(self, normal, abrupt, tokens):
        """Leaves out of the conditions of the paths that go on what only says that the loop
        does not end."""
        def form(c):
            return z3.simplify(_b(c)).sexpr()
        ends = [{form(c) for c in q["conds"]} for q in abrupt]
        for r in normal:
            for c in list(r["conds"]):
                if not mentions_any(c, tokens):
                    continue
                rest = [x for x in r["conds"] if x is not c]
                if {form(x) for x in rest} | {form(z3.Not(c))} in ends:
                    r["conds"] = rest
                    r["cond"] = self.conj(rest)

    def merge_tally(self, key, res, holders):
        """Pairs of paths that differ in whether the key was there, and leave it with the
        amount it had (or none) plus the same addition."""
        has, val = self.bases[holders[key][1]].tally
        names = {has.name(), val.name()}
        out, pairs = [], []
        for r in res:
            base, layers = r["ends"][key]
            there, rest = None, []
            for c in r["conds"]:
                if not is_z3(c) or not free_names(c) & names:
                    rest.append(c)
                    continue
                x, sign = z3.simplify(c), True
                while z3.is_not(x):
                    x, sign = x.arg(0), not sign
                if not (z3.is_app(x) and x.decl().eq(has)) or \
                        there is not None and not (there[0].eq(x.arg(0)) and there[1] == sign):
                    raise Unsupported("dict that is read and changed in a loop")
                there = (x.arg(0), sign)
            if there is None:
                out.append(r)
                continue
            k, sign = there
            now = val(k) if sign else None
            for L in layers:
                if L.binders or L.guard is not True or self.eq(L.key[0], k) is not True or not is_num(L.val):
                    raise Unsupported("dict that is read and changed in a loop")
                if L.kind == "set":
                    if not L.first or now is None:
                        now = real(L.val)
                elif L.kind == "acc":
                    if now is not None:
                        now = now + real(L.val)
                else:
                    raise Unsupported("dict that is read and changed in a loop")
            if now is None or r["kind"] != "next":
                raise Unsupported("dict that is read and changed in a loop")
            t = self.minus(now, val(k)) if sign else now
            if t is None or free_names(t) & names:
                raise Unsupported("dict that is read and changed in a loop")
            pairs.append((r, k, sign, rest, t))
        while pairs:
            r, k, sign, rest, t = pairs.pop(0)
            for q in pairs:
                if q[2] == sign or not q[1].eq(k) or \
                        {c.get_id() for c in q[3]} != {c.get_id() for c in rest}:
                    continue
                if self.s.under(list(rest), lambda: self.s.valid(q[4] == t)[0]):
                    break
            else:
                raise Unsupported("dict that is read and changed in a loop")
            pairs.remove(q)
            o = q[0]
            ends = {}
            for x in set(r["ends"]) | set(o["ends"]):
                if x == key:
                    ends[x] = (r["ends"][x][0], (Layer("tal", (), True, (Rope([k]),), t),))
                elif x in r["ends"] and x in o["ends"] and same_end(r["ends"][x], o["ends"][x]):
                    ends[x] = r["ends"][x]
                elif x[0] != "content":
                    ends[x] = POISON
                else:
                    raise Unsupported("dict that is read and changed in a loop")
            locs = dict(r["locs"])
            locs.update(o["locs"])
            out.append(dict(kind="next", val=None, locs=locs, ends=ends, conds=rest, every=[],
                            chose=r["chose"] or o["chose"]))
        for r in out:
            for v in [tuple(r["conds"])] + list(r["ends"].values()) + [r["val"] if r["kind"] == "return" else None]:
                if v is not None and v is not POISON and free_names(v) & names:
                    raise Unsupported("dict that is read and changed in a loop")
        return out

    def settle(self, i, n, res, holders):
        self.settle_heads(i, res, holders)
        self.settle_dicts(i, n, res, holders)

    def close(self, i, res, c0, c1):
        """Path conditions as terms; witnesses of an iteration become functions of it."""
        names = set()
        for r in res:
            r["cond"] = self.conj(r["conds"])
            fs = free_names(tuple(r["conds"])) | free_names(tuple(r["ends"].values()))
            if r["kind"] == "return":
                fs |= free_names(r["val"])
            if "?" in fs:
                raise Unsupported("element of a loop that depends on a case distinction")
            for x in fs:
                t = x.rsplit("!", 1)
                if len(t) == 2 and t[1].isdigit() and int(t[1]) > c0 and x not in T.FOLDS:
                    names.add(x)
        pairs = []
        if names:
            found = {}
            for r in res:
                for v in [r["cond"]] + list(r["ends"].values()) + [r["val"]]:
                    collect_consts(v, names, found)
            if set(found) != names:
                raise Unsupported("witness inside a loop (%s)" % ", ".join(sorted(names - set(found))))
            for x in sorted(found):
                c = found[x]
                f = z3.Function(("Index_" if x in T.INDEX else "") + fresh_name("sk_" + x.split("!")[0]),
                                z3.IntSort(), c.sort())
                pairs.append((c, f(i)))
            for r in res:
                r["cond"] = subst(r["cond"], pairs)
                r["conds"] = [subst(x, pairs) for x in r["conds"]]
                for k in r["ends"]:
                    r["ends"][k] = self.subst_end(r["ends"][k], pairs)
                if r["kind"] == "return":
                    r["val"] = subst(r["val"], pairs)
        # universal facts of an iteration, about what was there before or became a function of it
        for r in res:
            keep = []
            for u in r["every"]:
                form = tuple(subst(x, pairs) for x in u.form)
                fs = free_names(form) - {u.probe.decl().name()} - {p[1].decl().name() for p in pairs}
                if not any(new_name(x, c1) for x in fs) and "?" not in fs:
                    keep.append(T.Stated(u.probe, form))
            r["every"] = keep
        # paths that differ in a choice are told apart by the witnesses
        for k, r in enumerate(res):
            if r["cond"] is False:
                continue
            before = [q["cond"] for q in res[:k] if q["chose"] or r["chose"]]
            if before:
                r["cond"] = self.conj([r["cond"], self.neg(self.disj(before))])
                r["conds"] = [r["cond"]]

    def one_iteration(self, i, n, run, mark_serial, holders):
        self.s.assume(z3.And(i >= 0, i < n))
        m0 = len(self.mutlog)
        ch0 = self.s.chosen
        kind, val = "next", None
        pre = len(self.s.pc)
        pre_all = len(self.s.foralls)
        try:
            run(i)
        except ContinueEx:
            pass
        except BreakEx:
            kind = "break"
        except ReturnEx as e:
            kind, val = "return", e.value
        except PyRaise as e:
            kind, val = "raise", e
        locs, ends = {}, {}
        for entry in self.mutlog[m0:]:
            k, o, name = entry
            if o.serial > mark_serial:
                continue
            key = (k, id(o), name)
            locs[key] = entry
        memo = {}
        for key, entry in list(locs.items()):
            ends[key] = self.end_value(entry, mark_serial, memo)
        for key, h in holders.items():
            if key not in ends:
                ends[key] = self.end_value(h[2], mark_serial, memo)
        if kind == "return":
            val = snap(val, mark_serial, memo)
        return dict(kind=kind, val=val, locs=locs, ends=ends, conds=self.s.conditions(pre),
                    every=self.s.foralls[pre_all:],
                    chose=self.s.chosen > ch0)

    def end_value(self, entry, mark, memo):
        v = self.loc_value(entry)
        if isinstance(v, Deferred):
            if entry[0] == "env" and self.loops and self.dead(entry[1], entry[2], self.loops[-1]):
                return POISON
            try:
                v = v.fn()
            except PyRaise:
                v = POISON
        try:
            if entry[0] == "content" and isinstance(v, tuple) and len(v) == 2 and \
                    isinstance(v[1], tuple):
                return (v[0] if isinstance(v[0], (HeadSeq, DictHead)) or callable(v[0])
                        else snap(v[0], mark, memo), snap(v[1], mark, memo))
            return snap(v, mark, memo)
        except Unsupported:
            if entry[0] == "content":
                raise
            return POISON

    def dead(self, env, name, loop):
        """Is a local variable never read after an iteration of the loop before it is set
        again?  (Its value is then left out: a read of it would end the proof.)"""
        f = getattr(env, "func", None)
        if f is None or env.parent is not None:
            return False
        key = (id(f.node), name, id(loop))
        if key not in self.deads:
            self.deads[key] = self._dead(f.node, name, loop)
        return self.deads[key]

    @staticmethod
    def _dead(func, name, loop):
        def reads(node):
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Store):
                    return True
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                    return True
                if isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names:
                    return True
            return False

        def sets(t):
            return isinstance(t, ast.Name) and t.id == name or \
                isinstance(t, (ast.Tuple, ast.List)) and any(sets(e) for e in t.elts)

        def block(stmts):
            """None: set here before any read; True: not read; False: may be read first."""
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and reads(st):
                    return False
                if isinstance(st, ast.Assign):
                    if reads(st.value) or any(reads(t) for t in st.targets):
                        return False
                    if any(sets(t) for t in st.targets):
                        return None
                elif isinstance(st, ast.For):
                    if reads(st.iter):
                        return False
                    if not sets(st.target) and block(st.body) is False or block(st.orelse) is False:
                        return False
                elif isinstance(st, ast.If):
                    if reads(st.test):
                        return False
                    a, b = block(st.body), block(st.orelse)
                    if a is False or b is False:
                        return False
                    if a is None and b is None:
                        return None
                elif isinstance(st, (ast.Continue, ast.Break)):
                    return True
                elif reads(st):
                    return False
            return True

        if any(isinstance(x, ast.Lambda) and reads(x) for x in ast.walk(func)):
            return False
        if loop not in list(ast.walk(func)):
            return False
        inside = set()
        if isinstance(loop, ast.While):
            if reads(loop.test):
                return False
            inside = {id(x) for x in ast.walk(loop.test)}
        for st in loop.body:
            inside |= {id(x) for x in ast.walk(st)}
        for x in ast.walk(func):
            if id(x) not in inside and (isinstance(x, ast.Name) and x.id == name and not isinstance(
                    x.ctx, ast.Store) or isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names or
                    isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name):
                return False
        return isinstance(loop, ast.For) and sets(loop.target) or block(loop.body) is not False

    def loc_value(self, entry):
        k, o, name = entry
        if k == "env":
            return o.vars.get(name, POISON)
        if k == "attr":
            return o.attrs.get(name, POISON)
        return o.content

    def loc_set(self, entry, v):
        k, o, name = entry
        if k == "env":
            o.set(name, v)
        elif k == "attr":
            self.set_attr(o, name, v)
        else:
            self.set_content(o, v, True)

    def placeholder(self, entry, force_real, tally=False):
        """(kind, token, entry, initial value); installs the token."""
        v = self.loc_value(entry)
        k, o, name = entry
        if k == "content":
            tok = fresh_name("head")
            if isinstance(o, SList):
                if o.layers or not isinstance(o.seq, tuple) or self._stored(entry):
                    pass
                h = ("list", tok, entry, v)
                # element stores need the base; appends need a head
                try:
                    hn = v[0].n if isinstance(v[0], HeadSeq) else self.length(SList(v[0]))
                except Unsupported:
                    hn = None
                head = HeadSeq(tok, hn)
                head.outer = v[0] if isinstance(v[0], HeadSeq) else None
                head.read, head.fn = self.head_reader(tok, v, hn), None
                if head.read is not None:
                    head.fn = head.read
                    self.heads[tok] = (head, v)
                self.set_content(o, (head, ()), True)
            elif isinstance(o, SSet):
                h = ("set", tok, entry, v)
                self.set_content(o, HeadSeq(tok), True)
            elif isinstance(o, SDict):
                h = ("dict", tok, entry, v)
                tally = tally or isinstance(v[0], DictHead) and v[0].tally is not None
                head = self.bases[tok] = DictHead(tok, v, tally)
                self.set_content(o, (head, ()), True)
            elif isinstance(o, SMatrix):
                f = z3.Function(tok, z3.IntSort(), z3.IntSort(), z3.RealSort())
                h = ("matrix", f, entry, v)
                self.bases[tok] = lambda a, b: f(integer(a), integer(b))
                self.set_content(o, (self.bases[tok], ()), True)
            else:
                raise Unsupported("loop changes %r" % (o,))
            return h
        if isinstance(v, Deferred):
            v = POISON
        if is_num(v):
            sort = z3.IntSort() if (is_intish(v) and not force_real) else z3.RealSort()
            p = z3.Const(fresh_name("P"), sort)
            h = ("num", p, entry, v)
            self.loc_set(entry, p)
        elif is_text(v):
            p = z3.Const(fresh_name("P"), S)
            h = ("text", p, entry, v)
            self.loc_set(entry, Rope([p]))
        else:
            h = ("any", None, entry, v)
            self.loc_set(entry, POISON)
        return h

    def head_reader(self, tok, v, hn):
        """Elements of a list of numbers at the start of a generic iteration."""
        if hn is None:
            return None
        k = fresh_index("k")
        try:
            x = general(lambda: self.list_read(SList(v[0], v[1]), k))
        except Unsupported:
            return None
        if not is_num(x):
            return None
        return z3.Function(tok, z3.IntSort(), z3.IntSort() if is_intish(x) else z3.RealSort())

    def settle_heads(self, i, res, holders):
        """A list whose stores all go to the iteration's own index still has, at that index,
        the value it had before the loop."""
        lists = {h[1]: (key, h) for key, h in holders.items()
                 if h[0] == "list" and h[1] in self.heads}
        if not lists:
            return
        used = set()
        for r in res:
            vals = [tuple(r["conds"])] + list(r["ends"].values()) + [r["val"] if r["kind"] == "return" else None]
            for v in vals:
                if v is not None and v is not POISON:
                    used |= free_names(v) & set(lists)
        used |= {t for t in lists if self.heads[t][0].touched}
        pairs = []
        for tok in used:
            key, h = lists[tok]
            for r in res:
                seq, layers = r["ends"][key]
                if not isinstance(seq, HeadSeq):
                    raise Unsupported("read of a list that the loop extends")
                for L in layers:
                    if not (is_z3(L.key[0]) and L.key[0].get_id() == i.get_id()):
                        raise Unsupported("read of a list that the loop changes elsewhere")
            v = h[3]
            x = general(lambda: self.list_read(SList(v[0], v[1]), i))
            f = self.heads[tok][0].fn
            pairs.append((f(i), real(x) if f.range() == z3.RealSort() else integer(x)))
        if not pairs:
            return
        for r in res:
            r["conds"] = [subst(c, pairs) for c in r["conds"]]
            r["cond"] = subst(r["cond"], pairs)
            for k in r["ends"]:
                if r["ends"][k] is not POISON:
                    r["ends"][k] = self.subst_end(r["ends"][k], pairs)
            if r["kind"] == "return":
                r["val"] = subst(r["val"], pairs)
            left = set()
            for v in [tuple(r["conds"])] + list(r["ends"].values()) + [r["val"] if r["kind"] == "return" else None]:
                if v is not None and v is not POISON:
                    left |= free_names(v)
            if left & used:
                raise Unsupported("read of another element of a list that the loop changes")

    def settle_dicts(self, i, n, res, holders):
        """Reads of a dict that the loop changes see its content before the loop: no other
        iteration stores to the key read."""
        for key, h in holders.items():
            if h[0] not in ("dict", "matrix"):
                continue
            tok = h[1] if h[0] == "dict" else h[1].name()
            head = self.bases[tok]
            for r in res:
                if r["ends"][key][0] is not head:
                    raise Unsupported("dict or matrix replaced in a loop")
            if h[0] == "matrix" or not head.reads:
                continue
            p = len(self.s.pc)
            for r in res:
                for L in r["ends"][key][1]:
                    if L.kind == "ext":
                        continue
                    if L.kind == "setall":
                        raise Unsupported("read of a dict that the loop builds")
                    j = fresh_index("j")
                    pairs = [(i, j)] + [(v, fresh_index("b")) for v, _ in L.binders]
                    facts = [j >= 0, j < n, j != i]
                    for (v, m), (_, w) in zip(L.binders, pairs[1:]):
                        facts.append(z3.And(w >= 0, w < integer(subst(m, pairs))))
                    for c in (r["cond"], L.guard):
                        if c is not True:
                            facts.append(_b(subst(c, pairs)))
                    wkey = subst(L.key[0], pairs)
                    for k, pc in head.reads:
                        e = self.eq(wkey, k)
                        if e is False:
                            continue
                        if not self.s.under(pc[p:] + facts, lambda: self.s.valid(z3.Not(_b(e)))[0]):
                            if h[0] == "dict":
                                raise NeedTally(key)
                            raise Unsupported("read of a key that another iteration may store")

    def _stored(self, entry):
        return False

    def apply(self, i, n, res, W, holders):
        """Effects of the whole loop from the results of the generic iteration."""
        normal = [r for r in res if r["kind"] == "next"]
        abrupt = [r for r in res if r["kind"] != "next"]
        matrices = {h[1].name() for h in holders.values() if h[0] == "matrix"}
        if matrices:
            for r in res:
                for key, v in r["ends"].items():
                    self.settle_reads(v, holders.get(key), matrices)
                if free_names(tuple(r["conds"])) & matrices:
                    raise Unsupported("loop that branches on a matrix it changes")
        some = _b(self.disj([r["cond"] for r in normal]))
        tokens = [h[1] for h in holders.values() if h[0] in ("num", "text")]
        if abrupt:
            self.not_ended(normal, abrupt, tokens)
        if abrupt and len(normal) == 1:
            # every iteration that counts here took the one path that goes on
            normal[0]["cond"] = True
        sols = self.solve(i, normal, holders)

        def every(m):
            """The universal facts of the first m iterations; each took one of the paths."""
            if abrupt and any(r["every"] for r in normal):
                if not free_names(some) & changed:
                    self.s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < m),
                                                           z3.substitute(some, (i, j))))
            for r in normal:
                facts = [u for u in r["every"] if not free_names(tuple(u.form)) & changed]
                if facts and not free_names(_b(r["cond"])) & changed:
                    self.s.assume_nested(T.Nested(i, m, _b(r["cond"]), facts))
        changed = {h[1].decl().name() for h in holders.values()
                   if h[0] in ("num", "text")} | matrices
        if abrupt:
            if any(mentions_any(tuple(r["conds"]), tokens) for r in abrupt):
                for r in abrupt:
                    r["cond"] = self.prefix(r["cond"], sols, holders, i)
                    if mentions_any(r["cond"], tokens):
                        raise Unsupported("loop exit depends on a value the loop changes")
            anyc = self.disj([r["cond"] for r in abrupt])
            which = self.s.choose(len(abrupt) + 1) + 1
            bad = lambda j: z3.Not(_b(subst(anyc, [(i, j)])))
            if which == len(abrupt) + 1:
                self.s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < n), bad(j)))
                if anyc is True:
                    self.s.assume(n <= 0)
                # instantiate on the first element, so that an always taken exit shows
                self.s.implied(z3.Implies(n > 0, bad(z3.IntVal(0))))
                self.check_feasible()
                every(n)
                self.finish(sols, n)
                return
            r = abrupt[which - 1]
            i0 = fresh_index("x")
            self.s.assume(z3.And(i0 >= 0, i0 < n))
            c = subst(r["cond"], [(i, i0)])
            if c is not True:
                self.s.assume(c)
            self.s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < i0), bad(j)))
            self.check_feasible()
            every(i0)
            for u in r["every"]:
                if not free_names(tuple(u.form)) & changed:
                    self.s.assume_nested(T.Inner(u, i, i0, z3.BoolVal(True)))
            self.finish(sols, i0)
            # the effects of the last, abrupt iteration
            pairs = [(i, i0)]
            for key, v in r["ends"].items():
                entry = r["locs"].get(key)
                if entry is None:
                    continue
                h = holders[key]
                try:
                    self.loc_set(entry, self.last_value(h, v, pairs, sols.get(key), i0, sols, holders))
                except Unsupported:
                    self.loc_set(entry, self.last_poison(h))
            val = r["val"]
            if r["kind"] == "break":
                raise BreakEx()
            if r["kind"] == "return":
                val = subst(val, pairs)
                if mentions_any(val, tokens):
                    raise Unsupported("returned value depends on a value the loop changes")
                raise ReturnEx(val)
            raise PyRaise(val.name, "", val.bases)
        every(n)
        self.finish(sols, n)

    def settle_reads(self, v, h, matrices):
        """Stores M[k] = M[k] + t become accumulations; no other reads of the matrix."""
        if h is not None and h[0] == "matrix":
            for L in v[1]:
                if L.kind == "set" and not L.binders and is_z3(L.val):
                    tok = h[1](*L.key)
                    p = z3.Real(fresh_name("P"))
                    t = z3.substitute(L.val, (tok, p))
                    d = self.minus(t, p) if T.mentions(t, p) else None
                    if d is not None:
                        L.kind, L.val = "acc", d
                if free_names(L) & matrices:
                    raise Unsupported("read of a matrix that the loop changes")
            return
        if v is not POISON and free_names(v) & matrices:
            raise Unsupported("read of a matrix that the loop changes")

    def last_poison(self, h):
        if h[0] in ("num", "text", "any"):
            return POISON
        raise Unsupported("state at a loop exit")

    def last_value(self, h, v, pairs, sol, i0, sols, holders):
        kind, tok, entry, init = h
        if kind == "num":
            if not is_z3(v):
                return v
            v = z3.substitute(v, *pairs)
            if T.mentions(v, tok):
                if sol is None:
                    raise Unsupported("state at a loop exit")
                cur = sol(i0)
                cur = real(cur) if tok.sort() == z3.RealSort() else integer(cur)
                v = z3.substitute(v, (tok, cur))
            if mentions_any(v, [g[1] for g in holders.values() if g[0] in ("num", "text")]):
                raise Unsupported("state at a loop exit")
            return v
        if kind == "any":
            return subst(v, pairs)
        if kind == "list":
            seq, layers = v
            cur = entry[1].content
            return (self.replace_head(seq, tok, cur[0], pairs), cur[1] + subst(layers, pairs))
        if kind == "dict":
            cur = entry[1].content
            return (cur[0], cur[1] + subst(v[1], pairs))
        if kind == "text":
            cur = sol(i0)
            out = []
            for p in parts_of(v):
                out.append(cur if is_z3(p) and p.get_id() == tok.get_id() else subst(p, pairs))
            return rope(*out)
        raise Unsupported("state at a loop exit")

    def replace_head(self, seq, tok, cur, pairs):
        if isinstance(seq, HeadSeq):
            return cur
        if isinstance(seq, CatSeq):
            return catseq(*[cur if isinstance(p, HeadSeq) else subst(p, pairs) for p in seq.parts])
        return subst(seq, pairs)

    def finish(self, sols, m):
        for key, (entry, fn) in sols.items_():
            self.loc_set(entry, fn(m))

    def prefix(self, term, sols, holders, i):
        """Replaces the placeholders of solved numbers by their value at iteration i."""
        for key, h in holders.items():
            if h[0] == "num" and sols.get(key) is not None and T.mentions(term, h[1]):
                cur = sols.get(key)(i)
                cur = real(cur) if h[1].sort() == z3.RealSort() else integer(cur)
                term = z3.substitute(term, (h[1], cur))
        return term

    def solve(self, i, normal, holders):
        sols = Sols()
        pending = dict(holders)
        for rounds in range(len(pending) + 1):
            done = []
            for key, h in list(pending.items()):
                others = [g[1] for k2, g in pending.items()
                          if k2 != key and g[0] in ("num", "text")]
                try:
                    fn = self.solve_one(i, normal, key, h, others)
                except NotYet:
                    continue
                sols.put(key, h[2], fn)
                done.append(key)
                if h[0] == "num":
                    # its value at iteration i, for the others
                    cur = fn(i)
                    if is_num(cur):
                        pr = [(h[1], real(cur) if h[1].sort() == z3.RealSort() else integer(cur))]
                        for r in normal:
                            r["cond"] = subst(r["cond"], pr) if is_z3(r["cond"]) else r["cond"]
                            for k2 in r["ends"]:
                                if k2 != key:
                                    r["ends"][k2] = self.subst_end(r["ends"][k2], pr)
            for k in done:
                del pending[k]
            if not pending:
                return sols
            if not done:
                break
        for key, h in pending.items():
            if h[0] in ("num", "text", "any"):
                sols.put(key, h[2], lambda m: POISON)
            else:
                raise Unsupported("loop with entangled effects")
        return sols

    def subst_end(self, v, pr):
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple):
            a, b = v
            if isinstance(a, (HeadSeq, CatSeq, FlatSeq, GSeq, tuple)):
                a2 = catseq(*[p if isinstance(p, HeadSeq) else subst(p, pr) for p in a.parts]) \
                    if isinstance(a, CatSeq) else (a if isinstance(a, HeadSeq) else subst(a, pr))
            else:
                a2 = a
            return (a2, subst(b, pr))
        return subst(v, pr)

    def solve_one(self, i, normal, key, h, others):
        kind, tok, entry, init = h
        ends = [(r["cond"], r["ends"][key]) for r in normal]
        if not ends:
            return lambda m: init
        if kind == "num":
            terms = []
            kinds = set()
            for c, v in ends:
                if v is POISON or not (is_num(v)):
                    kinds.add("over")
                    terms.append((c, v))
                    continue
                t = v
                if is_z3(t) and T.mentions(t, tok):
                    d = self.minus(t, tok)
                    if d is not None and not T.mentions(d, tok):
                        kinds.add("sum")
                        terms.append((c, d))
                        continue
                    q = self.over(t, tok)
                    if q is not None and not T.mentions(q, tok):
                        kinds.add("prod")
                        terms.append((c, q))
                        continue
                    raise NotYet() if mentions_any(t, others) else Unsupported(
                        "accumulation the engine cannot summarise")
                kinds.add("over")
                terms.append((c, t))
            # an unchanged value fits any fold
            if kinds == {"sum", "prod"}:
                if all(k_is_zero(d) for (c, d), (c2, v) in zip(terms, ends)
                       if is_z3(v) and self.minus(v, tok) is not None):
                    terms = [(c, real(1) if self.minus(v, tok) is not None else self.over(v, tok))
                             for (c, v) in ends]
                    kinds = {"prod"}
            if any(mentions_any(t, others) or mentions_any(c, others + [tok])
                   for c, t in terms if c is not None):
                raise NotYet()
            if kinds == {"over"}:
                return lambda m: Deferred(lambda: self.last_of(i, m, terms, init))
            if kinds == {"sum"}:
                intish = tok.sort() == z3.IntSort() and all(is_intish(t) for _, t in terms)
                body = z3.RealVal(0)
                for c, t in reversed(terms):
                    body = real(t) if c is True else z3.If(c, real(t), body)
                const = z3.simplify(body)
                if intish and (z3.is_rational_value(const)) and const.as_fraction().denominator == 1:
                    # nonnegative number of iterations
                    kk = const.as_fraction().numerator
                    # (an iteration's own index is not negative)
                    return lambda m: integer(init) + (i if m is i else z3.If(
                        integer(m) > 0, integer(m), z3.IntVal(0)))*kk
                if intish:
                    return lambda m: integer(init) + z3.ToInt(make_fold("sum", m, i, body))
                return lambda m: real(init) + make_fold("sum", m, i, body)
            if kinds == {"prod"}:
                body = z3.RealVal(1)
                for c, t in reversed(terms):
                    body = real(t) if c is True else z3.If(c, real(t), body)
                return lambda m: real(init)*make_fold("prod", m, i, body)
            if kinds == {"sum", "over"}:
                # set in some iterations, kept in the others
                keep = [c for c, t in terms if is_z3(t) and k_is_zero(t)]
                raise Unsupported("value kept in some iterations and replaced in others")
            raise Unsupported("mixed accumulation")
        if kind == "text":
            cases, over = [], []
            for c, v in ends:
                ps = parts_of(v) if is_text(v) else None
                if ps and is_z3(ps[0]) and ps[0].get_id() == tok.get_id():
                    rest = rope(*ps[1:])
                    if mentions_any(rest, [tok]):
                        raise Unsupported("text used twice")
                    if mentions_any(rest, others) or mentions_any(c, others + [tok]):
                        raise NotYet()
                    cases.append((c, rest))
                else:
                    over.append((c, v))
            if over and cases:
                if all(r == "" for _, r in cases):
                    raise Unsupported("text replaced in some iterations")
                raise Unsupported("text rebuilt in a loop")
            if over:
                if any(mentions_any(v, [tok] + others) for _, v in over):
                    raise Unsupported("text rebuilt in a loop")
                return lambda m: Deferred(lambda: self.last_of(i, m, over, init))
            if all(r == "" for _, r in cases):
                return lambda m: init
            return lambda m: rope(init, FoldPart(integer(m), i, cases))
        if kind == "any":
            if all(v is POISON for _, v in ends):
                return lambda m: init
            if any(v is POISON for _, v in ends):
                # kept in some iterations
                vals = [v for _, v in ends if v is not POISON]
                if all(simple(v) for v in vals) and len({repr(v) for v in vals}) == 1:
                    hit = self.disj([c for c, v in ends if v is not POISON])
                    if mentions_any(hit, others):
                        raise NotYet()
                    return lambda m: Deferred(lambda: self.flag(i, m, hit, vals[0], init))
                return lambda m: POISON
            return lambda m: Deferred(lambda: self.last_of(i, m, ends, init))
        if kind in ("list", "set"):
            cases, layers = [], []
            for c, v in ends:
                seq, ls = v if kind == "list" else (v, ())
                if mentions_any(c, others):
                    raise NotYet()
                if isinstance(seq, HeadSeq):
                    items = ()
                elif isinstance(seq, CatSeq) and isinstance(seq.parts[0], HeadSeq) and \
                        not any(isinstance(p, HeadSeq) for p in seq.parts[1:]):
                    items = catseq(*seq.parts[1:])
                else:
                    raise Unsupported("list rebuilt in a loop")
                if mentions_any(items, others) or mentions_any(ls, others):
                    raise NotYet()
                cases.append((c, items))
                layers.append((c, ls))
            if any(ls for _, ls in layers):
                at = self.layer_solution(i, layers, init, kind)
                if all(it == () for _, it in cases):
                    return at
                return lambda m: (catseq(init[0], FlatSeq(integer(m), i, cases)), at(m)[1])
            if all(it == () for _, it in cases):
                return lambda m: init
            if kind == "list":
                return lambda m: (catseq(init[0], FlatSeq(integer(m), i, cases)), init[1])
            return lambda m: catseq(init, FlatSeq(integer(m), i, cases))
        if kind in ("dict", "matrix"):
            layers = []
            for c, v in ends:
                if mentions_any(c, others) or mentions_any(v[1], others):
                    raise NotYet()
                layers.append((c, v[1]))
            return self.layer_solution(i, layers, init, kind)
        raise Unsupported("loop effect")

    def layer_solution(self, i, cases, init, kind):
        def at(m):
            out = []
            for c, ls in cases:
                for L in ls:
                    g = self.conj([x for x in (c, L.guard) if x is not True])
                    out.append(Layer(L.kind, ((i, integer(m)),) + L.binders, g, L.key, L.val, L.first))
            tals, out2 = [], []
            for L in out:
                for M in tals if L.kind == "tal" else ():
                    # (different paths: not both in one iteration)
                    if same_end((L.key, L.binders), (M.key, M.binders)) and len(L.binders) == 1:
                        M.val = z3.If(_b(M.guard), real(M.val), real(L.val))
                        M.guard = self.disj([M.guard, L.guard])
                        break
                else:
                    out2.append(L)
                    if L.kind == "tal":
                        tals.append(L)
            out = out2
            sets = [L for L in out if L.kind == "set"]
            if len(sets) > 1 or (sets and len(out) > 1):
                # different iterations must not meet on one key
                for L in out:
                    if not any(is_z3(k) and k.get_id() == i.get_id() for k in L.key) and \
                            not self.injective_key(L, i):
                        break
                else:
                    return (init[0], init[1] + tuple(out))
                for a, L in enumerate(out):
                    for M in out[a:]:
                        if not self.never_meet(i, L, M):
                            raise Unsupported("stores of different kinds in a loop")
            return (init[0], init[1] + tuple(out))
        return at

    def never_meet(self, i, L, M):
        """Stores of different iterations (the first binder) are to different keys."""
        if len(L.key) != len(M.key) or L.kind not in ("set", "acc") or M.kind not in ("set", "acc"):
            return False
        facts, keys = [], []
        for X in (L, M):
            pairs = []
            for v, m in X.binders:
                w = fresh_index("b")
                pairs.append((v, w))
                facts.append(z3.And(w >= 0, w < integer(subst(m, pairs[:-1]))))
            if X.guard is not True:
                # the large conditions hardly matter here
                facts.extend(c for c in conjuncts(_b(subst(X.guard, pairs)))
                             if len(T.consts_of(c)) < 40)
            keys.append(subst(X.key, pairs))
            facts.append(pairs[0][1])
        i1, i2 = [f for f in facts if f.sort() == z3.IntSort()]
        facts = [f for f in facts if f.sort() != z3.IntSort()] + [i1 != i2]
        same = self.conj([self.eq(a, b) for a, b in zip(*keys)])
        if same is False:
            return True
        return self.s.under(facts, lambda: self.s.valid(z3.Not(_b(same)))[0])

    def injective_key(self, L, i):
        for k in L.key:
            t = as_S(k) if is_text(k) else k
            if is_z3(t) and z3.is_app(t) and t.num_args() == 1 and \
                    t.arg(0).get_id() == i.get_id() and t.decl().name() in T.INVERSE:
                return True
        return False

    def minus(self, t, tok):
        """t - tok when t = tok + (something without tok)."""
        if t.sort() == z3.IntSort():
            d = z3.simplify(t - tok)
            return d if not T.mentions(d, tok) else self.ite_minus(t, tok)
        d = z3.simplify(real(t) - real(tok), som=True)
        if not T.mentions(d, tok):
            return d
        return self.ite_minus(t, tok)

    def ite_minus(self, t, tok):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            if T.mentions(c, tok):
                return None
            x, y = self.minus(a, tok), self.minus(b, tok)
            if x is None or y is None:
                return None
            return z3.If(c, x, y)
        return None

    def over(self, t, tok):
        """t / tok when t = tok * (something without tok)."""
        if t.sort() != z3.RealSort():
            return None
        one = z3.substitute(t, (tok, z3.RealVal(1) if tok.sort() == z3.RealSort() else z3.IntVal(1)))
        d = z3.simplify(t - one*real(tok), som=True)
        if z3.is_rational_value(d) and d.as_fraction() == 0:
            return one
        r, _ = T._z3_check([d != 0], 1000)
        return one if r == z3.unsat else None

    def last_of(self, i, m, ends, init):
        if self.decide(integer(m) > 0):
            p = [(i, integer(m) - 1)]
            for c, v in ends[:-1]:
                if c is True or self.decide(subst(c, p)):
                    return subst(v, p)
            return subst(ends[-1][1], p)
        if init is POISON:
            pyraise("NameError")
        return init

    def flag(self, i, m, hit, val, init):
        m = integer(m)
        if self.s.choose(2) == 0:
            w = fresh_index("w")
            self.s.assume(z3.And(w >= 0, w < m))
            if hit is not True:
                self.s.assume(subst(hit, [(i, w)]))
            self.check_feasible()
            return val
        self.s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < m), z3.Not(_b(subst(hit, [(i, j)])))))
        self.check_feasible()
        return init

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        args, kwargs = list(args), dict(kwargs or {})
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, VFunc):
            return self.call_function(f, args, kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExcType):
            return ("exc", f)
        if isinstance(f, VType):
            return self.builtins[f.name + "()"].fn(self, args, kwargs)
        if isinstance(f, Opq) and "__call__" in f.spec.methods:
            return f.spec.methods["__call__"](self, f, args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, vc, args, kwargs):
        key = vc.name
        if key in self.contracts:
            self.assumed.add(key)
            return self.contracts[key](self, None, args, kwargs)
        ci = class_info(vc.module, vc.node)
        # exceptions
        names = [c.name for c in ci.mro()]
        for c in ci.mro():
            for b in c.node.bases:
                if isinstance(b, ast.Name):
                    names.append(b.id)
        if any(n in EXC for n in names):
            bases = list(names)
            for n in names:
                if n in EXC:
                    bases += EXC[n].bases
            return ("exc", ExcType(vc.name, bases))
        o = self.obj(ci)
        init = ci.lookup("__init__")
        if init:
            self.call_method(o, "__init__", args, kwargs)
        return o

    def call_method(self, o, name, args=(), kwargs=None):
        return self.call(self.getattr(o, name), args, kwargs)

    def bind(self, f, args, kwargs):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if f.bound is not None:
            args = [f.bound] + args
        kwargs = dict(kwargs)
        for p in params:
            if args:
                out[p] = args.pop(0)
                if p in kwargs:
                    pyraise("TypeError", "multiple values")
            elif p in kwargs:
                out[p] = kwargs.pop(p)
        if args:
            if a.vararg:
                out[a.vararg.arg] = tuple(args)
            else:
                pyraise("TypeError", "too many arguments")
        elif a.vararg:
            out[a.vararg.arg] = ()
        defaults = a.defaults
        dvals = f.defaults if f.defaults is not None else None
        for k, p in enumerate(params[len(params) - len(defaults):]):
            if p not in out:
                out[p] = dvals[k] if dvals is not None else self.default_value(f, k)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                out[x.arg] = self.eval(d, self.func_env(f))
        if kwargs:
            if a.kwarg:
                d = self.new(SDict())
                for k, v in kwargs.items():
                    self.dict_set(d, k, v)
                out[a.kwarg.arg] = d
            else:
                pyraise("TypeError", "unexpected argument")
        elif a.kwarg:
            out[a.kwarg.arg] = self.new(SDict())
        for p in params:
            if p not in out:
                pyraise("TypeError", "missing argument %s" % p)
        return out

    def default_value(self, f, k):
        node = f.node.args.defaults[k]
        return self.eval(node, self.func_env(f))

    def func_env(self, f):
        return f.env if f.env is not None else Env(self, f.module, f.cls)

    def qualname(self, f):
        return (f.cls.name + "." if f.cls else "") + f.name

    def call_function(self, f, args, kwargs):
        q = self.qualname(f)
        c = self.contracts.get(q) or (self.contracts.get(f.module.path + ":" + f.name)
                                      if not f.cls else None)
        if c is not None and f.env is None:
            self.assumed.add(q)
            if f.bound is not None:
                return c(self, f.bound, args, kwargs)
            return c(self, None, args, kwargs)
        if f.env is not None and not isinstance(f.node, ast.Lambda):
            key = f.module.path + ":<local>." + f.name
            if key in self.contracts:
                self.assumed.add(key)
                return self.contracts[key](self, None, args, kwargs)
        if self.depth > 60:
            raise Unsupported("recursion")
        if isinstance(f.node, ast.Lambda):
            env = Env(self, f.module, f.cls, f.env)
            for k, v in self.bind(f, args, kwargs).items():
                env.set(k, v)
            self.depth += 1
            try:
                return self.eval(f.node.body, env)
            finally:
                self.depth -= 1
        if f.env is None:
            self.used.add(f.module.path + ":" + q)
        env = Env(self, f.module, f.cls, f.env)
        env.func = f
        for k, v in self.bind(f, args, kwargs).items():
            env.set(k, v)
        self.depth += 1
        try:
            self.block(f.node.body, env)
        except ReturnEx as e:
            return e.value
        finally:
            self.depth -= 1
        return None

    def run_function(self, f, args, kwargs=None):
        """Interprets the source of f even if f itself has a contract."""
        q = self.qualname(f)
        keys = [k for k in (q, f.module.path + ":" + f.name) if k in self.contracts]
        saved = {k: self.contracts.pop(k) for k in keys}
        try:
            # recursive calls use the contract again
            env_f = f
            for k, v in saved.items():
                pass
            return self._run_source(env_f, args, kwargs or {}, saved)
        finally:
            self.contracts.update(saved)

    def _run_source(self, f, args, kwargs, saved):
        bound = self.bind(f, args, kwargs)
        self.contracts.update(saved)
        env = Env(self, f.module, f.cls, f.env)
        env.func = f
        for k, v in bound.items():
            env.set(k, v)
        self.used.add(f.module.path + ":" + self.qualname(f))
        self.depth += 1
        try:
            self.block(f.node.body, env)
        except ReturnEx as e:
            return e.value
        finally:
            self.depth -= 1
        return None

    # ------------------------------------------------------------ names, attributes
    def mangle(self, name, cls):
        if cls is not None and name.startswith("__") and not name.endswith("__"):
            return "_%s%s" % (cls.name.lstrip("_"), name)
        return name

    def name(self, name, env):
        try:
            return env.lookup(name)
        except KeyError:
            pass
        return self.global_name(name, env.module)

    def global_name(self, name, module):
        r = module.find(name)
        if r is not None and r[1] is not module and module.effects_on(name):
            raise Unsupported("%s is changed by the importing module" % name)
        if r is not None and r[0] == "extstar":
            # a star import of a library binds the names the library is known to have
            key = r[1] + "." + name
            r = ("ext",) + r[1:] if key in self.externals or key in self.bm.LIB else None
        if r is None:
            if name in self.builtins:
                return self.builtins[name]
            if name == "open":
                return self.external("builtins", name)
            if name in EXC:
                return EXC[name]
            if name == "__name__":
                return module.path[:-3].replace("/", ".")
            pyraise("NameError", name)
        return self.resolved(r, name)

    def resolved(self, r, name):
        kind, mod, node = r
        if kind == "ext":
            return self.external(mod, node)
        if kind == "mod":
            return Namespace(mod.path, mod)
        if isinstance(node, ast.FunctionDef):
            key = mod.path + ":" + node.name
            if key in self.externals:
                self.assumed.add(key)
                return self.externals[key]
            if node.decorator_list or mod.effects_on(name):
                raise Unsupported("decorated function %s" % name)
            return VFunc(node, mod)
        if isinstance(node, ast.ClassDef):
            if mod.effects_on(name):
                raise Unsupported("class %s is changed by its module" % name)
            key = mod.path + ":" + node.name
            if key in self.externals:
                return self.externals[key]
            return VClass(node.name, node, mod)
        key = mod.path + ":" + name
        if key in self.externals:
            return self.externals[key]
        if name not in mod.values:
            v = mod.values[name] = self.eval(node, Env(self, mod))
            self.s.log(lambda: mod.values.pop(name, None))
            for x in mod.effects_on(name):
                t = x.targets[0] if isinstance(x, ast.Assign) and len(x.targets) == 1 else None
                if not (isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and
                        t.value.id == name):
                    raise Unsupported("%s is changed by its module" % name)
                self.setitem(v, self.eval(t.slice, Env(self, mod)), self.eval(x.value, Env(self, mod)))
        return mod.values[name]

    def external(self, mod, member):
        key = mod + ("." + member if member else "")
        if key in self.externals:
            return self.externals[key]
        r = self.bm.external(self, mod, member)
        if r is None:
            raise Unsupported("external name %s" % key)
        return r

    def getattr(self, o, name, default=Env):
        if isinstance(o, VObj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Deferred):
                    d, v = v, v.fn()
                    o.attrs[name] = v
                    self.s.log(lambda: o.attrs.__setitem__(name, d))
                if v is POISON:
                    raise Unsupported("value of attribute '%s' after a loop" % name)
                return v
            self.peek(o, name)
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return VClassRef(o.cls)
            if name == "__dict__":
                return self.bm.instance_dict(self, o)
            if o.cls is not None:
                r = self.class_member(o.cls, name)
                if r is not None:
                    return self.member(o, r)
            if default is not Env:
                return default
            pyraise("AttributeError", name)
        if isinstance(o, VSuper):
            r = o.obj.cls.lookup(name, after=o.cls)
            if r is None:
                if name == "__init__":
                    return Builtin(lambda I, a, k: None)
                pyraise("AttributeError", name)
            return self.member(o.obj, r)
        if isinstance(o, Namespace):
            if isinstance(o.members, Module):
                r = o.members.find(name)
                if r is None:
                    raise Unsupported("%s.%s" % (o.name, name))
                return self.resolved(r, name)
            if name in o.members:
                return o.members[name]
            return self.external(o.name, name)
        if isinstance(o, Opq):
            if name in o.spec.methods:
                m = o.spec.methods[name]
                return Builtin(lambda I, a, k: m(I, o, a, k), name)
            if name in o.spec.attrs:
                return o.spec.attrs[name](self, o)
            if default is not Env:
                return default
            if getattr(o.spec, "closed", False):
                pyraise("AttributeError", name)
            raise Unsupported("%s has no contract for '%s'" % (o.spec.name, name))
        if isinstance(o, VClass):
            ci = class_info(o.module, o.node)
            r = self.class_member(ci, name)
            if r is None:
                if name == "__name__":
                    return o.name
                raise Unsupported("%s.%s" % (o.name, name))
            c, node = r
            if isinstance(node, ast.FunctionDef):
                if set(map(self.dec_name, node.decorator_list)) - {"staticmethod"}:
                    raise Unsupported("%s.%s" % (o.name, name))
                return VFunc(node, c.module, c)
            return self.eval(node.value, Env(self, c.module, c))
        if isinstance(o, VFunc) and name == "__name__":
            return o.node.name
        if isinstance(o, VClassRef):
            if name == "__name__":
                return o.cls.name
            raise Unsupported("class attribute")
        m = self.bm.method(self, o, name)
        if m is not None:
            return m
        if default is not Env:
            return default
        raise Unsupported("attribute '%s' of %r" % (name, o))

    @staticmethod
    def class_member(cls, name):
        r = cls.lookup(name)
        # private methods are looked up by their unmangled name in their class
        if r is None and name.startswith("_") and "__" in name[1:]:
            for c in cls.mro():
                pre = "_" + c.name.lstrip("_")
                if name.startswith(pre + "__") and name[len(pre):] in c.members:
                    return (c, c.members[name[len(pre):]])
        return r

    def member(self, o, r):
        c, node = r
        if isinstance(node, ast.FunctionDef):
            decs = [self.dec_name(d) for d in node.decorator_list]
            if "staticmethod" in decs:
                return VFunc(node, c.module, c)
            f = VFunc(node, c.module, c, bound=o)
            if "Property" in decs or "property" in decs:
                return self.call(f)
            for d in decs:
                if d not in ("Memoized", "return_deepcopy", "wraps"):
                    raise Unsupported("decorator %s" % d)
            return f
        return self.descriptor(o, c, node)

    def descriptor(self, o, c, node):
        """Class attribute that is not a function."""
        return self.eval(node.value, Env(self, c.module, c))

    @staticmethod
    def dec_name(d):
        if isinstance(d, ast.Call):
            d = d.func
        if isinstance(d, ast.Attribute):
            return d.attr
        return d.id

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Expr(self, s, env):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                v.func.attr == "setdefault":
            o = self.eval(v.func.value, env)
            if isinstance(o, SDict) and len(v.args) == 2:
                self.dict_set(o, self.eval(v.args[0], env), self.eval(v.args[1], env), True)
                return
        self.eval(v, env)

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, vals):
                self.assign(a, b, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, self.mangle(t.attr, env.cls), v)
        elif isinstance(t, ast.Subscript):
            o, idx = self.entry(t, env)
            self.setitem(o, idx, v)
        else:
            raise Unsupported("assignment target")

    def entry(self, t, env):
        """Container and index of o[idx]; for rows[i][j] of a list of number lists, the whole and both."""
        o = self.eval(t.value, env)
        idx = self.index_value(t.slice, env)
        if isinstance(o, Row):
            if not is_intish(idx):
                raise Unsupported("index %r" % (idx,))
            return o.rows, RowIndex((o.i, idx))
        return o, idx

    def setattr(self, o, name, v):
        if isinstance(o, VObj):
            self.set_attr(o, name, v)
            return
        if isinstance(o, Opq) and "setattr" in o.spec.methods:
            o.spec.methods["setattr"](self, o, [name, v], {})
            return
        raise Unsupported("attribute store on %r" % (o,))

    def unpack(self, v, k):
        n = self.length(v)
        if isinstance(n, int):
            if n != k:
                pyraise("ValueError", "unpack")
            return [self.seq_at(v, j) for j in range(k)]
        if self.decide(n == k):
            return [self.seq_at(v, j) for j in range(k)]
        pyraise("ValueError", "unpack")

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            if isinstance(cur, SList) and isinstance(s.op, ast.Add):
                self.call(self.getattr(cur, "extend"), [self.eval(s.value, env)])
                return
            if isinstance(cur, SMatrix):
                v = self.eval(s.value, env)
                r = self.binop(s.op, cur, v)
                self.set_content(cur, r.content)
                return
            env.set(t.id, self.binop(s.op, cur, self.eval(s.value, env)))
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            name = self.mangle(t.attr, env.cls)
            cur = self.getattr(o, name)
            self.setattr(o, name, self.binop(s.op, cur, self.eval(s.value, env)))
            return
        o, idx = self.entry(t, env)
        v = self.eval(s.value, env)
        if isinstance(o, (SMatrix, SList)) and isinstance(s.op, (ast.Add, ast.Sub)) and is_num(v):
            key = self.keyed(o, idx)
            if key is not None:
                val = v if isinstance(s.op, ast.Add) else self.binop(ast.Sub(), 0, v)
                self.add_layer(o, Layer("acc", (), True, key, val))
                return
        if isinstance(o, SDict) and isinstance(s.op, (ast.Add, ast.Sub)) and is_num(v) and \
                isinstance(o.base, DictHead) and self.counted(o, idx):
            val = v if isinstance(s.op, ast.Add) else self.binop(ast.Sub(), 0, v)
            self.add_layer(o, Layer("acc", (), True, (idx,), val))
            return
        self.setitem(o, idx, self.binop(s.op, self.getitem(o, idx), v))

    def counted(self, d, key):
        """The key was there with a number before the loop, and is only added to in it."""
        h = d.base
        if h.tally or any(L.kind != "acc" for L in d.layers):
            return False
        there = self._has_term(h.init[0], h.init[1], key)
        if there is not True and not self.s.valid(_b(there))[0]:
            return False
        # (a fork here is a fork on the content before the loop)
        ok, v = self._find(h.init[0], h.init[1], key)
        return ok and is_num(v)

    def keyed(self, o, idx):
        if isinstance(o, SMatrix) and o.kind == "lists":
            if isinstance(idx, RowIndex):
                self.in_range(idx[0], o.rows)
                self.in_range(idx[1], o.cols)
                return tuple(integer(x) for x in idx)
            raise Unsupported("row of a list of lists")
        if isinstance(o, SMatrix):
            if isinstance(idx, tuple) and len(idx) == 2 and all(is_intish(x) for x in idx):
                return tuple(integer(x) for x in idx)
            if is_intish(idx) and o.kind == "mp":
                return (integer(idx), z3.IntVal(0))
            return None
        if isinstance(o, SList) and is_intish(idx) and is_z3(idx):
            self.in_range(idx, self.least_length(o))
            return (integer(idx),)
        return None

    def least_length(self, o):
        """Its length; in a loop that extends it, the one before the loop."""
        h = o.seq.parts[0] if isinstance(o.seq, CatSeq) and o.seq.parts else o.seq
        if not isinstance(h, HeadSeq):
            return self.length(o)
        if h.n is None:
            raise Unsupported("store into a list of unknown length")
        return h.n

    def in_range(self, i, n):
        c = z3.And(integer(i) >= 0, integer(i) < integer(n))
        if not self.decide(c):
            raise Unsupported("index that may be out of range or negative")

    def add_layer(self, o, L):
        self.set_content(o, (o.content[0], o.content[1] + (L,)))

    def setitem(self, o, idx, v):
        if isinstance(o, SDict):
            self.dict_set(o, idx, v)
            return
        if isinstance(o, SMatrix):
            key = self.keyed(o, idx)
            if key is None:
                raise Unsupported("matrix store")
            # M[i,j] = M[i,j] + t is an accumulation
            f = o.base
            self.add_layer(o, Layer("set", (), True, key, real(v)))
            return
        if isinstance(o, SList):
            if isinstance(o.seq, tuple) and not o.layers and isinstance(idx, int):
                if not -len(o.seq) <= idx < len(o.seq):
                    pyraise("IndexError")
                l = list(o.seq)
                l[idx] = v
                self.set_content(o, (tuple(l), ()))
                return
            if is_intish(idx):
                self.in_range(idx, self.least_length(o))
                self.add_layer(o, Layer("set", (), True, (integer(idx),), v))
                return
        if isinstance(o, Opq) and "__setitem__" in o.spec.methods:
            o.spec.methods["__setitem__"](self, o, [idx, v], {})
            return
        raise Unsupported("item store on %r" % (o,))

    def s_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value is not None else None)

    def s_If(self, s, env):
        if self.test(self.eval(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_For(self, s, env):
        seq = self.eval(s.iter, env)
        seq = self.iterable(seq)
        if isinstance(seq, VObj) and seq.cls is not None and seq.cls.lookup("__iter__"):
            seq = self.call_method(seq, "__iter__")
        if self.invariant is not None and self.invariant(self, s, seq, env):
            self.block(s.orelse, env)
            return
        if isinstance(seq, Opq) and "__stream__" in seq.spec.methods:
            def step(g):
                if self.s.choose(2):
                    raise LoopEnd()
                self.assign(s.target, seq.spec.methods["__stream__"](self, seq, [g], {}), env)
                self.block(s.body, env)
            if self.unbounded(step, s) == "end":
                self.block(s.orelse, env)
            return

        mark = [seq, None, False]

        def body(x):
            mark[1] = x
            self.assign(s.target, x, env)
            self.block(s.body, env)
        m0 = len(self.mutlog)
        if isinstance(seq, SDict):
            self.dict_iter.append(mark)
        self.loops.append(s)
        try:
            self.for_each(seq, body)
        except BreakEx:
            return
        finally:
            self.loops.pop()
            if isinstance(seq, SDict):
                self.dict_iter.remove(mark)
                if mark[2]:
                    raise Unsupported("change of a dict during its iteration")
            if isinstance(seq, (SList, SSet)) and \
                    any(e[1] is seq for e in self.mutlog[m0:]):
                raise Unsupported("change of a collection during its iteration")
        self.block(s.orelse, env)

    def iterable(self, v):
        return v

    # ------------------------------------------------ loops of any number of iterations
    def unbounded(self, step, node):
        """A loop whose number of iterations is not known.  step(g) makes iteration g
        (test included): it raises LoopEnd when the loop ends before it.  The state at the
        start of any iteration is arbitrary but for the invariants found: candidates that
        hold on entry and that every iteration preserves (Houdini).  What follows the loop
        is run from that state."""
        serial = self.s.serial
        g = fresh_index("iteration")
        W, dropped, poison = {}, set(), set()
        # the same path is run again for each of its continuations: up to the names of its
        # unknowns this is the same state
        path = (id(node), tuple(self.epoch), tuple(
            (ex.number,) + tuple(c[0] for c in ex.prefix[:ex.pos]) for ex in self.s.explorers))
        known = self.loops_found.get(path)

        def one():
            kind, m0, pre = "next", len(self.mutlog), self.s.chosen
            try:
                step(g)
            except ContinueEx:
                pass
            except (LoopEnd, BreakEx, ReturnEx, PyRaise):
                kind = "leave"
            locs = {(k, id(o), n): (k, o, n) for k, o, n in self.mutlog[m0:] if o.serial <= serial}
            lost, bad = [], []
            if kind == "next":
                for key, shape in shapes.items():
                    if shape is not None and self.havoc_shape(self.loc_value(W[key])) != shape:
                        lost.append(key)
                if not lost and not set(locs) - set(W):
                    bad = self.failing(cands, g + 1)
            return locs, lost, bad
        ordinal = list(self.s.ordinal)
        for attempt in range(60):
            if known is not None:
                W, poison = {}, set()
                for n, (k, at, name, lost) in enumerate(known[0]):
                    o = self.registry[at]
                    W[(k, id(o), name)] = (k, o, name)
                    if lost:
                        poison.add((k, id(o), name))
                dropped = known[1]
                break
            mark = len(self.s.trail)
            mm = len(self.mutlog)
            self.inferring += 1
            self.epoch.append((id(node), attempt))
            try:
                shapes, cands = self.havoc(W, g, dropped, poison)
                res = self.s.explore(one)
            finally:
                self.inferring -= 1
                self.epoch.pop()
                self.s.ordinal[:] = ordinal
            self.s.rollback(mark)
            del self.mutlog[mm:]
            new = {k: l for locs, _, _ in (r for _, r in res) for k, l in locs.items() if k not in W}
            lost = {k for _, (_, ls, _) in res for k in ls}
            bad = {n for _, (_, _, bs) in res for n in bs}
            if not new and not lost and not bad:
                break
            if new or lost:
                dropped = set()
            W.update(new)
            poison |= lost
            dropped |= bad
        else:
            raise Unsupported("loop effects did not settle")
        self.loops_found[path] = ([(k, o.ordinal, name, key in poison)
                                   for key, (k, o, name) in W.items()], dropped)
        self.havoc(W, g, dropped, poison)
        try:
            step(g)
        except ContinueEx:
            pass
        except BreakEx:
            return "break"
        except LoopEnd:
            return "end"
        raise Infeasible()

    def failing(self, cands, g):
        """Names of the candidates that do not hold here."""
        bad, left = [], {}
        for n, fn in cands.items():
            try:
                c = fn(g)
            except Unsupported:
                c = False
            if c is True:
                continue
            if c is False:
                bad.append(n)
            else:
                left[n] = c
        while left:
            r, sol, _, _ = self.s.check(self.s.pc + [z3.Not(z3.And(list(left.values())))])
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = sol.model()
                out = [n for n, c in left.items() if not z3.is_true(m.eval(c, True))]
            else:
                out = []
            if not out:
                out = [n for n, c in left.items() if not self.s.valid(c)[0]]
                if not out:
                    break
            for n in out:
                bad.append(n)
                del left[n]
        return bad

    def havoc_shape(self, v):
        if isinstance(v, bool) or is_z3(v) and v.sort() == z3.BoolSort():
            return "bool"
        if is_num(v):
            return "int" if is_intish(v) else "real"
        if isinstance(v, Opq) and v.term is not None:
            return (id(v.spec), v.term.sort().name())
        return None

    def havoc(self, W, g, dropped, poison):
        """Replaces what the loop changes by arbitrary values; assumes the invariants."""
        entry, shapes = {}, {}
        for key, loc in W.items():
            v = entry[key] = self.loc_value(loc)
            if loc[0] == "content":
                raise Unsupported("loop of unknown length changes %r" % (loc[1],))
            shapes[key] = None if key in poison else self.havoc_shape(v)
        preds = dict(self.loop_predicates)
        cands = {}

        def lit_(b, pos):
            return b if pos else self.neg(b)
        names = {key: "%s#%d" % (key[2], n) for n, key in enumerate(W)}
        bools = {names[k]: (lambda k=k: self.loc_value(W[k])) for k in W if shapes[k] == "bool"}
        for n, b in bools.items():
            for pos in (True, False):
                cands["%s is %s" % (n, pos)] = lambda g, b=b, pos=pos: lit_(b(), pos)
                for m, p in preds.items():
                    cands["%s is %s: %s" % (n, pos, m)] = lambda g, b=b, pos=pos, p=p: \
                        self.disj([lit_(b(), not pos), p(self, g)])
                for n2, b2 in bools.items():
                    for pos2 in (True, False):
                        if n2 != n:
                            cands["%s is %s: %s is %s" % (n, pos, n2, pos2)] = \
                                lambda g, b=b, b2=b2, pos=pos, pos2=pos2: \
                                self.disj([lit_(b(), not pos), lit_(b2(), pos2)])
        for m, p in preds.items():
            cands[m] = lambda g, p=p: p(self, g)
        for k in W:
            if shapes[k] == "int":
                cands["%s counts" % names[k]] = lambda g, k=k: \
                    integer(self.loc_value(W[k])) == integer(entry[k]) + g
        vals = {names[k]: (lambda k=k: self.loc_value(W[k])) for k in W if shapes[k] is not None}
        for r, fn in self.loop_properties:
            for n, a in vals.items():
                if fn(a()) is not None:
                    cands["%s of %s" % (r, n)] = lambda g, a=a, fn=fn: fn(a())
        for r, fn in self.loop_relations:
            for n, a in vals.items():
                for n2, b in vals.items():
                    if n != n2 and fn(a(), b()) is not None:
                        cands["%s of %s and %s" % (r, n, n2)] = lambda g, a=a, b=b, fn=fn: fn(a(), b())
        cands = {n: c for n, c in cands.items() if n not in dropped}
        for n in self.failing(cands, z3.IntVal(0)):
            del cands[n]
        for key, loc in W.items():
            sh = shapes[key]
            if sh is None:
                self.loc_set(loc, POISON)
            elif sh in ("bool", "int", "real"):
                self.loc_set(loc, z3.Const(fresh_name("loop_" + loc[2]), {
                    "bool": z3.BoolSort(), "int": z3.IntSort(), "real": z3.RealSort()}[sh]))
            else:
                v = entry[key]
                self.loc_set(loc, Opq(v.spec, z3.Const(fresh_name("loop_" + loc[2]), v.term.sort()), v.data))
        self.s.assume(g >= 0)
        for c in cands.values():
            f = c(g)
            if f is not True:
                self.s.assume(f if is_z3(f) else z3.BoolVal(f))
        return shapes, cands

    def s_While(self, s, env):
        if self.loop_predicates is not None:
            def step(g):
                if not self.test(self.eval(s.test, env)):
                    raise LoopEnd()
                self.block(s.body, env)
            if self.unbounded(step, s) == "end":
                self.block(s.orelse, env)
            return
        for _ in range(200):
            c = self.truth(self.eval(s.test, env))
            if not isinstance(c, bool):
                c2 = z3.simplify(c)
                if z3.is_true(c2) or z3.is_false(c2):
                    c = z3.is_true(c2)
                else:
                    return self.summed_while(s, env)
            if not c:
                self.block(s.orelse, env)
                return
            try:
                self.block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass
        raise Unsupported("while loop")

    def summed_while(self, s, env):
        """A loop that ends (at an iteration that is not known): the same as a loop over
        enough iterations that is left where the test fails."""
        if s.orelse:
            raise Unsupported("while loop with else")

        def body(i):
            if not self.test(self.eval(s.test, env)):
                raise BreakEx()
            self.block(s.body, env)
        self.loops.append(s)
        try:
            self.generic(z3.Const(fresh_name("enough"), z3.IntSort()), body, True)
        except BreakEx:
            return
        finally:
            self.loops.pop()
        raise Infeasible()

    def s_Break(self, s, env):
        raise BreakEx()

    def s_Continue(self, s, env):
        raise ContinueEx()

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(env, "handling", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        v = self.eval(s.exc, env)
        if isinstance(v, ExcType):
            raise PyRaise(v.name, "", v.bases)
        if isinstance(v, tuple) and v and v[0] == "exc":
            raise PyRaise(v[1].name, "", v[1].bases)
        if isinstance(v, VClass):
            v = self.instantiate(v, [], {})
            raise PyRaise(v[1].name, "", v[1].bases)
        raise Unsupported("raise of %r" % (v,))

    def exc_names(self, node, env):
        v = self.eval(node, env)
        vs = v if isinstance(v, tuple) and not (v and v[0] == "exc") else (v,)
        out = []
        for x in vs:
            out.append(x.name)
        return out

    def s_Try(self, s, env):
        try:
            self.try_(s, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody, env)
            raise
        self.block(s.finalbody, env)

    def try_(self, s, env):
        try:
            self.block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                names = self.exc_names(h.type, env) if h.type is not None else None
                if names is None or e.name in names or any(b in names for b in e.bases):
                    if h.name:
                        env.set(h.name, self.new(VObj(None, {"args": ()})))
                    old = getattr(env, "handling", None)
                    env.handling = e
                    try:
                        self.block(h.body, env)
                    finally:
                        env.handling = old
                    return
            raise
        else:
            self.block(s.orelse, env)

    def s_FunctionDef(self, s, env):
        f = VFunc(s, env.module, env.cls, env)
        f.defaults = [self.eval(d, env) for d in s.args.defaults]
        if s.decorator_list:
            raise Unsupported("decorated local function")
        env.set(s.name, f)

    def s_Import(self, s, env):
        for a in s.names:
            env.set(a.asname or a.name.split(".")[0], self.external(a.name, None))

    def s_ImportFrom(self, s, env):
        for a in s.names:
            mod = env.module._resolve(s.module or "", s.level)
            if mod.endswith(".py"):
                env.set(a.asname or a.name, self.resolved(Module.get(mod).find(a.name), a.name))
            else:
                env.set(a.asname or a.name, self.external(mod, a.name))

    def s_Assert(self, s, env):
        if not self.test(self.eval(s.test, env)):
            pyraise("AssertionError")

    def s_Delete(self, s, env):
        raise Unsupported("del")

    def s_With(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.block(s.body, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), self.mangle(e.attr, env.cls))

    def e_Tuple(self, e, env):
        return self.elements(e.elts, env)

    def elements(self, elts, env, star=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs = self.segments(self.eval(x.value, env))
                for g in segs:
                    if isinstance(g, tuple):
                        out.extend(g)
                    elif star:
                        out.append(Star(g))
                    else:
                        raise Unsupported("starred sequence of unknown length")
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def e_List(self, e, env):
        xs = self.elements(e.elts, env, True)
        return self.lst(catseq(*[x.seq if isinstance(x, Star) else (x,) for x in xs]))

    def e_Set(self, e, env):
        return self.new(SSet(self.elements(e.elts, env)))

    def e_Dict(self, e, env):
        d = self.new(SDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.bm.dict_update(self, d, self.eval(v, env))
            else:
                self.dict_set(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_Yield(self, e, env):
        if self.on_yield is None:
            raise Unsupported("generator")
        v = self.eval(e.value, env) if e.value is not None else None
        if not self.inferring:
            self.on_yield(v)
        return None

    def e_Lambda(self, e, env):
        f = VFunc(e, env.module, env.cls, env)
        f.defaults = [self.eval(d, env) for d in e.args.defaults]
        return f

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.test(self.eval(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, env)
            if k == len(e.values) - 1:
                return v
            t = self.test(v)
            if isand and not t:
                return v if not (is_z3(v) and v.sort() == z3.BoolSort()) else False
            if not isand and t:
                return v if not (is_z3(v) and v.sort() == z3.BoolSort()) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return self.neg(self.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, SMatrix):
                return self.binop(ast.Mult(), v, -1)
            if is_num(v):
                return -v
        if isinstance(e.op, ast.UAdd) and is_num(v):
            return v
        if isinstance(e.op, ast.USub) and isinstance(v, Opq) and "__neg__" in v.spec.methods:
            return v.spec.methods["__neg__"](self, v, [], {})
        raise Unsupported("unary operator on %r" % (v,))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            cs.append(c)
            left = right
        return self.conj(cs)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            if isinstance(a, Opq) and "__eq__" in a.spec.methods:
                return a.spec.methods["__eq__"](self, a, [b], {})
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.compare(ast.Eq(), a, b))
        if isinstance(op, ast.Is):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                return self.eq(a, b)
            if isinstance(a, (VType, VClass)) or isinstance(b, (VType, VClass)):
                return self.eq(a, b)
            if isinstance(a, Opq) and isinstance(b, Opq) and a.spec is b.spec and a is not b:
                raise Unsupported("identity of opaque values")
            return a is b
        if isinstance(op, ast.IsNot):
            return self.neg(self.compare(ast.Is(), a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(a, b))
        for o in (a, b):
            if isinstance(o, Opq) and "__order__" in o.spec.methods:
                return o.spec.methods["__order__"](self, o, [op, a, b], {})
        if not (is_num(a) or isinstance(a, bool)) or not (is_num(b) or isinstance(b, bool)):
            raise Unsupported("order of %r and %r" % (a, b))
        if not is_z3(a) and not is_z3(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if is_intish(a) and is_intish(b):
            x, y = integer(a), integer(b)
        else:
            x, y = real(a), real(b)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]

    def contains(self, x, c):
        if isinstance(c, Opq) and c.spec.contains is not None:
            return c.spec.contains(self, c, x)
        if isinstance(c, DictBase):
            return c.has(x)
        if isinstance(c, SDict):
            try:
                return self._has_term(c.base, c.layers, x)
            except Unsupported:
                ok, _ = self.dict_find(c, x)
                return ok
        if is_text(c):
            return self.contains_text(x, c)
        cs = []
        for seg in self.segments(c):
            if isinstance(seg, tuple):
                cs.extend(self.eq(y, x) for y in seg)
            elif isinstance(seg, GSeq) and seg.index_fn is not None:
                g = True
                if isinstance(x, Opq) and "text" in x.spec.methods:
                    g, x = x.spec.methods["text"](self, x, [], {})
                k = seg.index_fn(as_S(x) if is_text(x) else x)
                cs.append(z3.And(g, k >= 0, k < seg.n))
            else:
                n = self.length(seg)
                w = fresh_index("m")
                hit = self.s.choose(2)
                if hit == 0:
                    self.s.assume(z3.And(w >= 0, w < seg.n))
                    if isinstance(seg, FlatSeq):
                        p = [(seg.var, w)]
                        alts = []
                        for cnd, items in seg.cases:
                            for sub in self.segments(items):
                                if not isinstance(sub, tuple):
                                    raise Unsupported("membership in nested loops")
                                for y in sub:
                                    alts.append(self.conj([subst(cnd, p) if cnd is not True else True,
                                                           self.eq(subst(y, p), x)]))
                        h = self.disj(alts)
                    else:
                        h = self.eq(seg.at(w), x)
                    self.s.assume(h)
                    self.check_feasible()
                    return True

                def miss(j, seg=seg):
                    if isinstance(seg, FlatSeq):
                        p = [(seg.var, j)]
                        fs = []
                        for cnd, items in seg.cases:
                            for sub in self.segments(items):
                                if not isinstance(sub, tuple):
                                    raise Unsupported("membership in nested loops")
                                for y in sub:
                                    fs.append(self.conj([subst(cnd, p) if cnd is not True else True,
                                                         self.eq(subst(y, p), x)]))
                        return z3.Implies(z3.And(j >= 0, j < seg.n), z3.Not(_b(self.disj(fs))))
                    return z3.Implies(z3.And(j >= 0, j < seg.n), z3.Not(_b(self.eq(seg.at(j), x))))
                self.s.assume_all(miss)
                self.check_feasible()
        return self.disj(cs)

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if is_num(a) and is_num(b):
            return self.arith(op, a, b)
        if isinstance(a, SMatrix) or isinstance(b, SMatrix):
            return self.bm.matrix_op(self, op, a, b)
        for o in (a, b):
            if isinstance(o, Opq) and "__op__" in o.spec.methods:
                return o.spec.methods["__op__"](self, o, [op, a, b], {})
        if isinstance(op, ast.Add):
            if is_text(a) and is_text(b):
                return rope(*(parts_of(a) + parts_of(b)))
            if isinstance(a, (SList,)) and isinstance(b, (SList, GSeq, CatSeq, FlatSeq)):
                return self.lst(catseq(*(self.segments(a) + self.segments(b))))
            if isinstance(a, (tuple, GSeq, CatSeq, FlatSeq)) and \
                    isinstance(b, (tuple, GSeq, CatSeq, FlatSeq)):
                return catseq(a, b)
            if isinstance(a, Opq) and a.spec.iterate and isinstance(b, Opq) and b.spec.iterate:
                return catseq(a.spec.iterate(self, a), b.spec.iterate(self, b))
            if isinstance(a, VObj):
                return self.call_method(a, "__add__", [b])
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, str) and isinstance(y, int):
                    return x*y
                if isinstance(x, (SList, tuple)) and is_intish(y):
                    return self.repeat(x, y)
                if is_text(x) and is_intish(y):
                    return Rope([z3.Const(fresh_name("text"), S)])
        if isinstance(op, ast.Mod) and is_text(a):
            return self.bm.percent(self, a, b)
        if isinstance(op, ast.Sub) and isinstance(a, SSet):
            raise Unsupported("set difference")
        raise Unsupported("operator %s on %r and %r" % (type(op).__name__, a, b))

    def repeat(self, x, n):
        segs = self.segments(x)
        if isinstance(n, int):
            r = catseq(*(segs*n))
        elif len(segs) == 1 and isinstance(segs[0], tuple) and len(segs[0]) == 1:
            v = segs[0][0]
            r = GSeq(z3.If(n > 0, n, z3.IntVal(0)), lambda i: v)
        elif len(segs) == 1 and isinstance(segs[0], GSeq):
            g = segs[0]
            if not self.s.valid(integer(g.n) > 0)[0]:
                raise Unsupported("repetition of a list that may be empty")
            r = GSeq(z3.If(n > 0, integer(g.n)*n, z3.IntVal(0)), lambda i: g.at(integer(i) % integer(g.n)))
        else:
            raise Unsupported("repetition")
        return self.lst(r) if isinstance(x, SList) else r

    def arith(self, op, a, b):
        sym = is_z3(a) or is_z3(b)
        if not sym and (isinstance(a, float) or isinstance(b, float)) and \
                isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)) and \
                abs(a) < 1e300 and abs(b) < 1e300:
            # machine numbers are taken as the real numbers they are written as
            r = self.arith(op, real(a), b if isinstance(op, ast.Pow) else real(b))
            return z3.simplify(r) if is_z3(r) else r
        ints = is_intish(a) and is_intish(b)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            if not sym:
                if isinstance(op, ast.Add):
                    return a + b
                return a - b if isinstance(op, ast.Sub) else a*b
            x, y = (integer(a), integer(b)) if ints else (real(a), real(b))
            if isinstance(op, ast.Add):
                return x + y
            if isinstance(op, ast.Sub):
                return x - y
            # keep powers of the same number together
            return x*y
        if isinstance(op, ast.Div):
            if not is_z3(b):
                if b == 0:
                    pyraise("ZeroDivisionError")
                if not sym:
                    return a/b if not (ints and a % b == 0) else float(a//b)
            else:
                if self.decide(b == 0):
                    pyraise("ZeroDivisionError")
            return real(a)/real(b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if not sym:
                if b == 0:
                    pyraise("ZeroDivisionError")
                return a//b if isinstance(op, ast.FloorDiv) else a % b
            if not ints:
                return self.real_divmod(a, b)[0 if isinstance(op, ast.FloorDiv) else 1]
            if is_z3(b) and self.decide(b == 0):
                pyraise("ZeroDivisionError")
            if not self.decide(integer(b) > 0):
                raise Unsupported("division by a negative integer")
            q = exact_quotient(integer(a), integer(b))
            if q is not None:
                return q if isinstance(op, ast.FloorDiv) else 0
            return (integer(a)/integer(b)) if isinstance(op, ast.FloorDiv) else integer(a) % integer(b)
        if isinstance(op, ast.Pow):
            return self.power(a, b)
        raise Unsupported("operator %s" % type(op).__name__)

    def real_divmod(self, a, b):
        """floor division of reals: a = q*b + r with q integral."""
        if not self.decide(real(b) > 0):
            raise Unsupported("division by a number that may not be positive")
        q = z3.ToReal(z3.ToInt(real(a)/real(b)))
        return q, real(a) - q*real(b)

    def power(self, a, b):
        if is_z3(b):
            c = z3.simplify(b)
            if z3.is_int_value(c):
                b = c.as_long()
            elif z3.is_rational_value(c):
                c = c.as_fraction()
                b = int(c) if c.denominator == 1 else 0.5 if 2*c == 1 else b
        if not is_z3(a) and not is_z3(b):
            return a**b
        if isinstance(b, int) and 0 <= b <= 6:
            r = None
            for _ in range(b):
                r = a if r is None else r*a
            if r is None:
                return 1
            return r
        if isinstance(b, int) and -4 <= b < 0:
            d = self.power(a, -b)
            return self.arith(ast.Div(), 1, d)
        if isinstance(b, float) and b == 0.5:
            return T.Sqrt(real(a))
        return T.Pow(real(a), real(b))

    def index_value(self, node, env):
        if isinstance(node, ast.Slice):
            return slice(self.eval(node.lower, env) if node.lower is not None else None,
                         self.eval(node.upper, env) if node.upper is not None else None,
                         self.eval(node.step, env) if node.step is not None else None)
        if isinstance(node, ast.Tuple):
            return tuple(self.index_value(x, env) for x in node.elts)
        return self.eval(node, env)

    def e_Subscript(self, e, env):
        o, idx = self.entry(e, env)
        return self.getitem(o, idx)

    def getitem(self, o, idx):
        if isinstance(o, SDict):
            ok, v = self._find(o.base, o.layers, idx)
            if not ok:
                pyraise("KeyError")
            if v is HELD or type(v) is SList and v.frozen and not o.frozen and \
                    not getattr(v, "shared", True):
                v = self.new(Cell(self, o, idx, None if v is HELD else v))
            return v
        if isinstance(o, DictBase):
            if not self.decide(o.has(idx)):
                pyraise("KeyError")
            return o.get(idx)
        if isinstance(o, Opq):
            if o.spec.getitem is not None:
                return o.spec.getitem(self, o, idx)
            if o.spec.iterate is not None:
                return self.getitem(o.spec.iterate(self, o), idx)
            raise Unsupported("item of %r" % (o,))
        if isinstance(o, SMatrix):
            if o.kind == "lists" and is_intish(idx):
                self.in_range(idx, o.rows)
                return Row(o, idx)
            return self.bm.matrix_item(self, o, idx)
        if isinstance(idx, slice):
            return self.slice(o, idx)
        if isinstance(o, str) and isinstance(idx, int):
            if not -len(o) <= idx < len(o):
                pyraise("IndexError")
            return o[idx]
        if is_text(o):
            raise Unsupported("character of unknown text")
        if isinstance(o, (tuple, SList, GSeq, CatSeq, FlatSeq)):
            if not is_intish(idx):
                if is_z3(idx) or isinstance(idx, (float, str)):
                    pyraise("TypeError")
                raise Unsupported("index %r" % (idx,))
            if isinstance(o, SList) and isinstance(o.seq, HeadSeq):
                if getattr(o.seq, "fn", None) is None:
                    raise Unsupported("read of a list that the loop builds")
                h = o.seq
                while h is not None:
                    h.touched, h = True, h.outer
                n = o.seq.n
            else:
                n = self.length(o)
            if isinstance(idx, int) and isinstance(n, int):
                if not -n <= idx < n:
                    pyraise("IndexError")
                k = idx if idx >= 0 else idx + n
            elif isinstance(idx, int):
                if idx >= 0:
                    if not self.decide(n > idx):
                        pyraise("IndexError")
                    k = z3.IntVal(idx)
                else:
                    if not self.decide(n >= -idx):
                        pyraise("IndexError")
                    k = n + idx
            else:
                if self.decide(idx >= 0):
                    if not self.decide(idx < n):
                        pyraise("IndexError")
                    k = idx
                else:
                    if not self.decide(idx >= -integer(n)):
                        pyraise("IndexError")
                    k = idx + n
            if isinstance(o, SList) and (o.layers or isinstance(o.seq, HeadSeq)):
                return self.list_read(o, k)
            return self.seq_at(o, k)
        raise Unsupported("item of %r" % (o,))

    def slice(self, o, sl):
        if isinstance(o, str) and all(x is None or isinstance(x, int)
                                      for x in (sl.start, sl.stop, sl.step)):
            return o[sl]
        if is_text(o):
            raise Unsupported("slice of unknown text")
        segs = self.segments(o)
        if len(segs) <= 1 and (not segs or isinstance(segs[0], tuple)) and \
                all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
            r = (segs[0] if segs else ())[sl]
            return self.lst(r) if isinstance(o, SList) else r
        n = self.length(o)
        if isinstance(sl.step, int) and sl.step > 1 and sl.stop is None and \
                (sl.start is None or isinstance(sl.start, int) and sl.start >= 0):
            lo, by, base = sl.start or 0, sl.step, view(o)
            if isinstance(base, SList) and base.layers:
                raise Unsupported("slice with a step")
            cnt = z3.simplify(z3.If(integer(n) > lo, (integer(n) - lo + by - 1)/z3.IntVal(by), z3.IntVal(0)))
            r = GSeq(cnt, lambda i: self.seq_at(base, lo + by*integer(i)))
            return self.lst(r) if isinstance(o, SList) else r
        if sl.step not in (None, 1, -1):
            raise Unsupported("slice with a step")
        if sl.step == -1:
            if sl.start is None and sl.stop is None:
                base = view(o)
                r = GSeq(integer(n), lambda i: self.seq_at(base, integer(n) - 1 - i))
                return self.lst(r) if isinstance(o, SList) else r
            raise Unsupported("slice with a step")

        def bound(x, default):
            if x is None:
                return default
            if isinstance(x, int) and x >= 0 and isinstance(n, int):
                return min(x, n)
            x, m = integer(x), integer(n)
            y = z3.If(x < 0, x + m, x)
            return z3.If(y < 0, z3.IntVal(0), z3.If(y > m, m, y))
        lo, hi = bound(sl.start, 0), bound(sl.stop, n)
        cnt = z3.simplify(z3.If(integer(hi) > integer(lo), integer(hi) - integer(lo), z3.IntVal(0)))
        base = view(o)
        r = GSeq(cnt, lambda i: self.seq_at(base, integer(lo) + i) if not
                 (isinstance(base, SList) and base.layers) else self.list_read(base, integer(lo) + i))
        return self.lst(r) if isinstance(o, SList) else r

    def e_Call(self, e, env):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and f.id not in env.vars:
            args = [self.eval(a, env) for a in e.args]
            if args:
                c = args[0]
                return VSuper(args[1], class_info(c.module, c.node))
            return VSuper(env.lookup(list(env.vars)[0]), env.cls)
        if isinstance(f, ast.Name) and f.id in ("exec", "eval"):
            import ropeexec
            vals = [self.eval(a, env) for a in e.args]
            return ropeexec.run(self, f.id, vals, env)
        if isinstance(f, ast.Name) and f.id in ("locals", "globals") and not e.args:
            return Namespace(f.id, {"env": env})
        fn = self.eval(f, env)
        if fn is self.builtins["zip"] and len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and not e.keywords:
            return self.bm.unzip(self, self.eval(e.args[0].value, env))
        args = list(self.elements(e.args, env, fn is self.bm.LIB["itertools.chain"]))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, SDict) or d.base is not None:
                    raise Unsupported("** argument")
                for key in self.segments(self.dict_keys(d)):
                    if not isinstance(key, tuple):
                        raise Unsupported("** argument")
                    for kk in key:
                        kwargs[kk] = self.getitem(d, kk)
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(fn, args, kwargs)

    def comp(self, gens, env, leaf):
        def go(k, env2):
            if k == len(gens):
                leaf(env2)
                return
            g = gens[k]
            seq = self.iterable(self.eval(g.iter, env2))

            def body(x):
                self.assign(g.target, x, env2)
                for c in g.ifs:
                    if not self.test(self.eval(c, env2)):
                        return
                go(k + 1, env2)
            self.for_each(seq, body)
        go(0, Env(self, env.module, env.cls, env))

    def number_rows(self, e, env):
        """[[number]*n for _ in range(m)]: distinct lists of one number, changed by rows[i][j] only."""
        g, x = e.generators[0], e.elt
        names = {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
        if len(e.generators) != 1 or g.ifs or not isinstance(g.target, ast.Name):
            return None
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and isinstance(x.left, ast.List) and \
                len(x.left.elts) == 1:
            c, n = x.left.elts[0], x.right
        elif isinstance(x, ast.ListComp) and len(x.generators) == 1 and not x.generators[0].ifs and \
                isinstance(x.generators[0].target, ast.Name):
            c, r = x.elt, x.generators[0].iter
            if not (isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "range" and
                    len(r.args) == 1 and not r.keywords):
                return None
            n = r.args[0]
        else:
            return None
        if not (isinstance(c, ast.Constant) and type(c.value) in (int, float) and
                isinstance(n, ast.Name) and n.id not in names):
            return None
        if isinstance(x, ast.ListComp) and not isinstance(self.name("range", env), Builtin):
            return None
        cols = self.name(n.id, env)
        if not is_intish(cols) or not is_z3(cols) or not self.s.valid(cols >= 0)[0]:
            return None
        rows = self.length(self.iterable(self.eval(g.iter, env)))
        v = real(c.value)
        return self.new(SMatrix(rows, cols, lambda i, j: v, (), "lists"))

    def e_ListComp(self, e, env):
        m = self.number_rows(e, env)
        if m is not None:
            return m
        out = self.lst(())
        self.comp(e.generators, env, lambda v: self.append(out, self.eval(e.elt, v)))
        return out

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env)

    def e_SetComp(self, e, env):
        return self.new(SSet(self.e_ListComp(e, env).seq))

    def e_DictComp(self, e, env):
        d = self.new(SDict())
        self.comp(e.generators, env,
                  lambda v: self.dict_set(d, self.eval(e.key, v), self.eval(e.value, v)))
        return d

    def append(self, l, v):
        if isinstance(l, Cell):
            l.add(v)
            return
        # (stores are to positions that existed when they were made, never to the new one)
        self.set_content(l, (catseq(l.seq, (v,)) if not isinstance(l.seq, HeadSeq)
                             else CatSeq([l.seq, (v,)]), l.layers))

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            spec = ""
            if v.format_spec is not None:
                spec = "".join(x.value if isinstance(x, ast.Constant) else "{" for x in v.format_spec.values)
            conv = "" if v.conversion in (-1, None) else "!" + chr(v.conversion)
            if "{" in spec:
                self.eval(v.value, env)
                parts.append(z3.Const(fresh_name("text"), S))
                continue
            x = self.bm.t_format(self, "{" + conv + (":" + spec if spec else "") + "}", [self.eval(v.value, env)], {})
            parts.extend(parts_of(x))
        return rope(*parts)

    def e_Starred(self, e, env):
        raise Unsupported("starred")


class VClassRef(object):
    def __init__(self, cls):
        self.cls = cls


class NotYet(Exception):
    pass


class Sols(object):
    def __init__(self):
        self.d = {}

    def put(self, key, entry, fn):
        self.d[key] = (entry, fn)

    def get(self, key):
        return self.d[key][1] if key in self.d else None

    def items_(self):
        return list(self.d.items())


def conjuncts(g):
    if z3.is_and(g):
        return [c for x in g.children() for c in conjuncts(x)]
    return [g]


def guard_equalities(g):
    """Pairs (a, b) with a == b whenever the guard holds."""
    out, stack = [], [g]
    while stack:
        x = stack.pop()
        if not is_z3(x):
            continue
        if z3.is_and(x):
            stack.extend(x.children())
        elif z3.is_eq(x):
            out.append((x.arg(0), x.arg(1)))
            out.append((x.arg(1), x.arg(0)))
    return out


def new_name(x, c0):
    """A name made after the counter stood at c0."""
    t = x.rsplit("!", 1)
    return len(t) == 2 and t[1].isdigit() and int(t[1]) > c0


def collect_consts(v, names, found):
    """Constants of the given names in a value."""
    if is_z3(v):
        for t in T.consts_of(v):
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    t.decl().name() in names:
                found[t.decl().name()] = t
    elif isinstance(v, Rope):
        for p in v.parts:
            collect_consts(p, names, found)
    elif isinstance(v, Code):
        collect_consts(v.value, names, found)
    elif isinstance(v, (FoldPart, FlatSeq)):
        collect_consts(v.n, names, found)
        for c, r in v.cases:
            collect_consts(c, names, found)
            collect_consts(r, names, found)
    elif isinstance(v, (tuple, list)):
        for y in v:
            collect_consts(y, names, found)
    elif isinstance(v, CatSeq):
        for y in v.parts:
            collect_consts(y, names, found)
    elif isinstance(v, GSeq):
        collect_consts(v.n, names, found)
        if v.open_:
            collect_consts(general0(lambda: v.at(z3.Int("k!0"))), names, found)
    elif isinstance(v, Layer):
        collect_consts(v.guard, names, found)
        collect_consts(v.key, names, found)
        collect_consts(tuple(n for _, n in v.binders), names, found)
        if not callable(v.val):
            collect_consts(v.val, names, found)
    elif isinstance(v, VObj):
        if v.frozen:
            for y in v.attrs.values():
                collect_consts(y, names, found)
    elif isinstance(v, SMatrix):
        collect_consts((v.rows, v.cols, v.layers), names, found)
    elif isinstance(v, (SList, SSet)):
        collect_consts(v.seq, names, found)
        collect_consts(v.layers, names, found)
    elif isinstance(v, SDict):
        collect_consts(v.layers, names, found)
    elif isinstance(v, Opq):
        collect_consts(v.term, names, found)
        collect_consts(v.data, names, found)


def simple(v):
    return v is None or isinstance(v, (bool, int, float, str))


def k_is_zero(t):
    s = z3.simplify(real(t)) if is_num(t) else None
    return s is not None and z3.is_rational_value(s) and s.as_fraction() == 0


def _b(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


_cont = {}


def T_contains(small):
    if small not in _cont:
        _cont[small] = z3.Function("contains<%s>" % small, S, z3.BoolSort())
    return _cont[small]
