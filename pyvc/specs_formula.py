"""Contracts on the splitting of molecular formulas (string2symbols) and molecular masses.

A text is a range [lo, hi) of characters.  A formula is empty, or a number and a formula, or
a bracketed formula with an optional number and a formula, or an element with an optional
number and a formula (numbers are maximal runs of digits).  What a formula stands for is, for
an arbitrary element, the number of times that element occurs: a number of times, a sum."""
import ast

import z3

import terms as T
from terms import S, lit, real, integer, make_fold, fresh_index, is_z3
from net import I_, R_, B_
from values import *          # noqa
from interp import pyraise, is_intish
from session import Unsupported
import source

FN = "scaks/functions.py"
DB = "scaks/database/elements_data.py"
PB = "scaks/parsers/parser_base.py"

char = z3.Function("char", I_, S)
number = z3.Function("number", I_, I_, I_)           # value of the digits [lo, hi)
part = z3.Function("part", I_, I_, S)                # the text [lo, hi)
digit, upper, lower = (z3.Function(n, S, B_) for n in ("isdigit", "isupper", "islower"))
E = z3.Const("any_element", S)
T.schema("number", lambda a: [a >= 0])


def text(U, lo, hi):
    """The text [lo, hi) of the formula."""
    lo, hi = integer(lo), integer(hi)

    def item(I, o, k):
        n = hi - lo
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice with a step")

            def bound(x, default):
                if x is None:
                    return default
                x = integer(x)
                if not U.s.valid(z3.And(x >= 0, x <= n))[0]:
                    if I.decide(x < 0):
                        x = x + n
                    if I.decide(x < 0):
                        x = z3.IntVal(0)
                    if I.decide(x > n):
                        x = n
                return x
            a, b = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
            if not U.s.valid(a <= b)[0] and I.decide(a > b):
                b = a
            return text(U, z3.simplify(lo + a), z3.simplify(lo + b))
        x = integer(k)
        if I.decide(x < 0):
            x = x + n
        if I.decide(z3.Or(x < 0, x >= n)):
            pyraise("IndexError")
        return Rope([char(z3.simplify(lo + x))])

    def to_int(I, o, a, k):
        if I.decide(hi <= lo):
            pyraise("ValueError")
        U.forall(hi - lo, lambda j: digit(char(lo + j)), "a number is read from digits only")
        return number(lo, hi)

    def eq(I, o, a, k):
        x = a[0]
        if isinstance(x, str) and len(x) <= 1:
            if x == "":
                return hi <= lo
            return z3.And(hi == lo + 1, char(lo) == lit(x))
        return part(lo, hi) == as_text(x)
    return Opq(Spec("text", getitem=item, length=lambda I, o: hi - lo,
                    truth=lambda I, o: hi > lo, methods={"int": to_int, "__eq__": eq},
                    iterate=lambda I, o: GSeq(hi - lo, lambda j: Rope([char(z3.simplify(lo + integer(j)))]))),
               part(lo, hi), data=(lo, hi))


def as_text(v):
    if isinstance(v, Opq) and v.spec.name == "text":
        return v.term
    if isinstance(v, Rope) and len(v.parts) == 1 and is_z3(v.parts[0]):
        c = v.parts[0]
        if c.decl().name() == "char":
            return part(c.arg(0), z3.simplify(c.arg(0) + 1))
        return c
    raise Unsupported("text %r" % (v,))


def bag(n):
    """A list with the element n times."""
    def op(I, o, a, k):
        kind, x, y = a
        if isinstance(kind, ast.Add):
            return bag(count(I, x) + count(I, y))
        if isinstance(kind, ast.Mult):
            m, l = (x, y) if is_intish(x) else (y, x)
            m = integer(m)
            return bag(z3.If(m > 0, m, z3.IntVal(0))*count(I, l))
        raise Unsupported("operator on lists")
    return Opq(Spec("list", methods={"__op__": op}), data=n)


def count(I, v):
    """How often the element occurs in a list."""
    if isinstance(v, Opq) and v.spec.name == "list":
        return v.data
    out = z3.IntVal(0)
    for seg in I.segments(v):
        if isinstance(seg, tuple):
            for x in seg:
                out = out + z3.If(as_text(x) == E, z3.IntVal(1), z3.IntVal(0))
        elif isinstance(seg, GSeq):
            j = fresh_index("j")
            x = as_text(seg.at(j))
            if T.mentions(x, j):
                raise Unsupported("list of different elements")
            out = out + integer(seg.n)*z3.If(x == E, z3.IntVal(1), z3.IntVal(0))
        else:
            raise Unsupported("list")
    return out


def c29(P):
    T.SHIFTED["char"] = 0
    P.assumption("a formula is made of characters of which digits, capitals, small letters and "
                 "brackets are different kinds; its numbers are decimal")

    def unit(name, layout):
        """layout(U, n) -> (parts that are formulas {(lo, hi): count}, expected count)"""
        def run(U):
            I, s = U.I, U.s
            for c in "()":
                s.assume(z3.And(*[z3.Not(k(lit(c))) for k in (digit, upper, lower)]))
            s.assume_all(lambda x: z3.And(z3.Implies(digit(x), z3.Not(z3.Or(upper(x), lower(x)))),
                                          z3.Implies(upper(x), z3.Not(lower(x)))), S)
            n = z3.Int("n")
            s.assume(n >= 0)
            parts, want = layout(U, n)
            f = U.function(FN, "string2symbols")

            def again(I, a, k):
                I.assumed.add("string2symbols (on a part of the formula)")
                t = a[0] if a else k["s"]
                if isinstance(t, str) and t == "":
                    return bag(z3.IntVal(0))
                if not (isinstance(t, Opq) and t.spec.name == "text"):
                    raise Unsupported("formula %r" % (t,))
                lo, hi = t.data
                for (a, b), c in parts.items():
                    if s.valid(z3.And(lo == a, hi == b))[0]:
                        return bag(c)
                if s.valid(hi <= lo)[0]:
                    return bag(z3.IntVal(0))
                U.prove(z3.BoolVal(False), "its parts are the parts of the formula")
                return bag(z3.Int("other"))
            I.externals[FN + ":string2symbols"] = Builtin(again)
            r = I.run_function(f, [text(U, 0, n)], {})
            U.prove(count(I, r) == want, "every element as often as the formula says")
        P.unit("string2symbols (%s)" % name, run, {}, {},
               expect=["every element as often as the formula says"])

    def digits(U, a, b, n):
        """[a, b) is a maximal run of digits."""
        U.s.assume(z3.And(a <= b, b <= n, z3.Or(b == n, z3.Not(digit(char(b))))))
        U.s.assume_all(lambda k: z3.Implies(z3.And(a <= k, k < b), digit(char(k))))

    def sub(name):
        c = z3.Int("in_" + name)
        return c

    def empty(U, n):
        U.s.assume(n == 0)
        return {}, z3.IntVal(0)

    def times(U, n):
        d, c = z3.Int("d"), sub("rest")
        U.s.assume(z3.And(d > 0, c >= 0))
        digits(U, z3.IntVal(0), d, n)
        U.s.assume(z3.And(digit(char(z3.IntVal(0)))))
        return {(d, n): c}, number(z3.IntVal(0), d)*c

    def group(U, n):
        q, d, a, b = z3.Int("q"), z3.Int("d"), sub("group"), sub("rest")
        k = fresh_index("k")
        U.s.prefixes = True
        U.s.assume(z3.And(q > 0, q < n, char(z3.IntVal(0)) == lit("("), char(q) == lit(")"),
                          a >= 0, b >= 0))

        def depth(m):
            return make_fold("sum", m, k, z3.If(char(k) == lit("("), z3.RealVal(1), z3.If(
                char(k) == lit(")"), z3.RealVal(-1), z3.RealVal(0))))
        U.s.assume_all(lambda m: z3.Implies(z3.And(m >= 0, m < q), depth(m + 1) > 0))
        U.s.assume(depth(q + 1) == 0)
        digits(U, q + 1, d, n)
        U.s.assume(d > q)
        return {(z3.IntVal(1), q): a, (d, n): b}, \
            z3.If(d > q + 1, number(q + 1, d), z3.IntVal(1))*a + b

    def element(U, n):
        e, d, b = z3.Int("e"), z3.Int("d"), sub("rest")
        one = z3.IntVal(1)
        U.s.assume(z3.And(n > 0, b >= 0, upper(char(z3.IntVal(0))), z3.Or(
            z3.And(e == 1, z3.Or(n == 1, z3.Not(lower(char(one))))),
            z3.And(e == 2, n > 1, lower(char(one))))))
        digits(U, e, d, n)
        return {(d, n): b}, z3.If(part(z3.IntVal(0), e) == E, z3.If(
            d > e, number(e, d), z3.IntVal(1)), z3.IntVal(0)) + b
    unit("empty", empty)
    unit("number and formula", times)
    unit("bracket", group)
    unit("element", element)

    def mass(U):
        I, s = U.I, U.s
        known, grams = z3.Function("in_table", S, B_), z3.Function("mass", S, R_)
        el = z3.Function("element", I_, S)
        N = z3.Int("N")
        s.assume(N >= 0)
        name = z3.Const("formula", S)
        absolute = z3.Bool("absolute")

        def split(I, a, k):
            t = a[0] if a else k["s"]
            U.prove(as_text(t) == name, "the formula is split")
            return I.lst(GSeq(N, lambda i: Rope([el(integer(i))])))

        def data(I, o, key):
            t = as_text(key)
            if not I.decide(known(t)):
                pyraise("KeyError")

            def entry(I, o, what):
                if what != "mass":
                    raise Unsupported("entry %r" % (what,))
                return grams(t)
            return Opq(Spec("element data", getitem=entry))
        table = Opq(Spec("table", getitem=data, contains=lambda I, o, x: known(as_text(x))))
        amu = z3.Real("amu")
        I.externals.update({FN + ":string2symbols": Builtin(split), PB + ":string2symbols": Builtin(split),
                            DB + ":chem_elements": table, DB + ":amu": amu,
                            "scaks.functions.string2symbols": Builtin(split)})
        f = U.function(PB, "ParserBase.get_molecular_mass")
        try:
            r = I.run_function(f, [Rope([name]), absolute], {})
        except PyRaise as e:
            U.prove(e.name == "ElementSearchingError", "refused with ElementSearchingError")
            U.never(lambda i: z3.Implies(z3.And(i >= 0, i < N), known(el(i))),
                    "refused only for an unknown element")
            return
        U.forall(N, lambda i: known(el(i)), "an unknown element is refused")
        i = fresh_index("i")
        total = make_fold("sum", N, i, grams(el(i)))
        U.prove(real(r) == z3.If(absolute, amu*total, total), "the masses add up")
    P.unit("ParserBase.get_molecular_mass", mass, {}, {},
           expect=["the formula is split", "refused only for an unknown element",
                   "an unknown element is refused", "the masses add up"])


PROPS = {"C29": c29}
