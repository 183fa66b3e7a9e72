"""Searches in texts that hold pieces known by a contract only (Code with samples).

The contract of such a piece says which of the searched names it does not hold.  A search is
run by CPython itself on several instances of the text, in which the pieces hold what the
contract allows (names that contain the searched ones among it); its outcome counts when it
is the same in all instances, taking known text character by character and unknown pieces as
a whole."""
import re

import z3

import terms as T
from terms import S, is_z3, lit_of
from session import Unsupported
from values import *          # noqa

INSTANCES = 6
NAMES = {}          # declaration name -> fn(k, term): the text of a name in instance k


def known_pieces(text):
    return isinstance(text, Rope) and any(isinstance(p, Code) and p.samples for p in text.parts)


def word(k, p):
    """Text of one part in instance k."""
    if isinstance(p, str):
        return p
    if isinstance(p, Code) and p.samples:
        return p.samples(k)
    if is_z3(p) and p.sort() == S:
        if lit_of(p) is not None:
            return lit_of(p)
        f = NAMES.get(p.decl().name())
        if f:
            return f(k, p)
    if is_z3(p) and p.sort() == z3.IntSort():
        cs = [c for c in T.consts_of(p) if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        if all(z3.is_const(c) for c in cs):
            v = z3.simplify(z3.substitute(p, *[(c, z3.IntVal((2, 10, 37, 3, 12, 100)[k] + 4*j))
                                               for j, c in enumerate(cs)]))
            if z3.is_int_value(v):
                return str(v)
    raise Unsupported("search in this text")


class Instance(object):
    """The text in instance k, and where its parts lie."""

    def __init__(self, text, k):
        self.parts = [lit_of(p) if is_z3(p) and p.sort() == S and lit_of(p) is not None else p
                      for p in parts_of(text)]
        self.text, self.ends = "", [0]
        for p in self.parts:
            self.text += word(k, p)
            self.ends.append(len(self.text))

    def place(self, at, left):
        """Position as (part, offset), offset 0 unless inside known text."""
        for j, p in enumerate(self.parts):
            lo, hi = self.ends[j], self.ends[j + 1]
            if at == lo:
                return (j, 0)
            if lo < at < hi:
                if not isinstance(p, str):
                    raise Unsupported("a search that ends inside unknown text")
                return (j, at - lo)
        return (len(self.parts), 0)

    def span(self, m):
        return None if m[0] < 0 else (self.place(m[0], True), self.place(m[1], False))


def piece(parts, sp):
    (a, i), (b, j) = sp
    out = []
    for n in range(a, min(b + 1, len(parts))):
        p = parts[n]
        if isinstance(p, str):
            out.append(p[(i if n == a else 0):(j if n == b else len(p))])
        elif n < b:
            out.append(p)
    return rope(*out)


def uniform(fn):
    """The outcome of fn(k) in every instance."""
    first = fn(0)
    for k in range(1, INSTANCES):
        if fn(k) != first:
            raise Unsupported("a search that depends on the contents of a text")
    return first


def contains(I, small, big):
    return uniform(lambda k: Instance(small, k).text in Instance(big, k).text)


def equal(I, a, b):
    if uniform(lambda k: Instance(a, k).text == Instance(b, k).text):
        raise Unsupported("comparison of unknown texts")
    return False


def pattern(I, p, k):
    return Instance(p, k).text


MATCH = Spec("match of a search")


def group(I, o, a, k):
    spans, parts = o.data
    n = a[0] if a else 0
    if not isinstance(n, int):
        raise Unsupported("group")
    if n >= len(spans):
        from interp import PyRaise
        raise PyRaise("IndexError")
    return None if spans[n] is None else piece(parts, spans[n])


MATCH.methods = {"group": group, "groups": lambda I, o, a, k: tuple(group(I, o, [j + 1], {})
                                                                   for j in range(len(o.data[0]) - 1))}


def search(I, a, k, how="search"):
    if k or len(a) != 2 or not all(is_text(x) for x in a):
        raise Unsupported("search")

    def one(j):
        t = Instance(a[1], j)
        try:
            m = getattr(re, how)(pattern(I, a[0], j), t.text)
        except re.error:
            raise Unsupported("regular expression")
        return None if m is None else tuple(t.span(m.span(g)) for g in range(m.re.groups + 1))
    spans = uniform(one)
    return None if spans is None else Opq(MATCH, data=(spans, Instance(a[1], 0).parts))


def findall(I, a, k):
    """A list of texts, known by what it holds of the names asked for."""
    if k or len(a) != 2 or not all(is_text(x) for x in a):
        raise Unsupported("findall")

    def holds(I, o, x):
        return uniform(lambda j: Instance(x, j).text in re.findall(pattern(I, a[0], j), Instance(a[1], j).text))
    return Opq(Spec("found texts", contains=holds))


def sub(I, a, k):
    if k or len(a) != 3 or not all(is_text(x) for x in a) or \
            any(isinstance(p, str) and "\\" in p for p in parts_of(a[1])):
        raise Unsupported("sub")

    def one(j):
        t = Instance(a[2], j)
        return tuple(t.span(m.span()) for m in re.finditer(pattern(I, a[0], j), t.text))
    spans = uniform(one)
    parts, out, at = Instance(a[2], 0).parts, [], (0, 0)
    for lo, hi in spans:
        out += list(parts_of(piece(parts, (at, lo)))) + list(parts_of(a[1]))
        at = hi
    return rope(*(out + list(parts_of(piece(parts, (at, (len(parts), 0)))))))


def externals():
    return {"re.search": Builtin(search, "search"), "re.match": Builtin(
        lambda I, a, k: search(I, a, k, "match"), "match"),
        "re.findall": Builtin(findall, "findall"), "re.sub": Builtin(sub, "sub")}
