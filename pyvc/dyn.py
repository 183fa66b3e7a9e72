"""Arbitrary Python values: a value is a term; its type, length, items, keys and number
are functions of it.  Texts, numbers, lists, tuples, dicts, None and other objects (of
types unrelated to these, without length, iteration or order) are covered."""
import ast

import z3

import terms as T
from terms import S, real, integer, is_z3, fresh_name
from session import Unsupported
from values import *          # noqa
from builtins_model import VType, is_text, is_num, pyraise

I_ = z3.IntSort()
R_ = z3.RealSort()
B_ = z3.BoolSort()
TAGS = {"NoneType": 0, "bool": 1, "int": 2, "float": 3, "str": 4, "list": 5, "tuple": 6,
        "dict": 7, "other": 8}
kind = z3.Function("type_of", S, I_)
size = z3.Function("len_of", S, I_)
item = z3.Function("item_of", S, I_, S)
number = z3.Function("number_of", S, R_)
has_key = z3.Function("has_key", S, S, B_)
at_key = z3.Function("at_key", S, S, S)
key_no = z3.Function("key_no", S, I_, S)       # the keys of a dict in order
no_of = z3.Function("no_of_key", S, S, I_)
text = z3.Function("str_of", S, S)
ends = z3.Function("ends_with", S, S, B_)
T.schema("type_of", lambda a: [a >= 0, a <= 8])
T.schema("len_of", lambda a: [a >= 0])
T.schema("number_of", lambda a: [z3.Implies(z3.Or(kind(a.arg(0)) == 1, kind(a.arg(0)) == 2),
                                            z3.ToReal(z3.ToInt(a)) == a),
                                 z3.Implies(kind(a.arg(0)) == 1, z3.Or(a == 0, a == 1))])
T.schema("has_key", lambda a: [z3.Implies(a, z3.And(no_of(a.arg(0), a.arg(1)) >= 0,
                                                    no_of(a.arg(0), a.arg(1)) < size(a.arg(0)),
                                                    key_no(a.arg(0), no_of(a.arg(0), a.arg(1))) == a.arg(1)))])
# (out of range the keys are any other texts without repetition)
T.schema("key_no", lambda a: [no_of(a.arg(0), a) == a.arg(1),
                              z3.Implies(z3.And(a.arg(1) >= 0, a.arg(1) < size(a.arg(0))),
                                         has_key(a.arg(0), a))])
T.INVERSE_AT["key_no"] = (1, lambda t, k: no_of(t.arg(0), k))
T.schema("str_of", lambda a: [z3.Implies(kind(a.arg(0)) == 4, a == a.arg(0))])
T.INDEXED["item_of"] = 1
T.INDEXED["key_no"] = 1


def typed(t, *names):
    return z3.Or(*[kind(t) == TAGS[n] for n in names]) if len(names) > 1 else kind(t) == TAGS[names[0]]


# names of types whose instances are the values of these tags
INSTANCES = {"bool": ("bool",), "int": ("bool", "int"), "float": ("float",), "str": ("str",),
             "list": ("list",), "tuple": ("tuple",), "dict": ("dict",), "NoneType": ("NoneType",)}


def d_isinstance(I, o, a, k):
    one = a[0]
    if isinstance(one, VType):
        if one.name == "object":
            return True
        if one.name in INSTANCES:
            return typed(o.term, *INSTANCES[one.name])
        if one.name in ("set", "frozenset", "complex", "bytes"):
            return False
    if isinstance(one, Opq) and one.spec is TYPE:
        raise Unsupported("isinstance with an unknown type")
    return False


def type_eq(I, o, a, k):
    b = a[0]
    if isinstance(b, VType):
        return o.term == TAGS[b.name] if b.name in TAGS else False
    if isinstance(b, Opq) and b.spec is TYPE:
        return o.term == b.term
    return False


TYPE = Spec("type", methods={"eq": type_eq, "__eq__": type_eq})


def d_type(I, o, a, k):
    return Opq(TYPE, kind(o.term))


def d_hasattr(I, o, a, k):
    if a[0] in ("__iter__", "__len__", "__contains__", "__getitem__"):
        return typed(o.term, "str", "list", "tuple", "dict")
    raise Unsupported("hasattr(%s)" % a[0])


def need(I, o, *names):
    if not I.s.decide(typed(o.term, *names)):
        pyraise("TypeError", "type")


def d_len(I, o):
    need(I, o, "str", "list", "tuple", "dict")
    return size(o.term)


def d_iter(I, o):
    need(I, o, "list", "tuple", "str", "dict")
    t = o.term
    if I.s.decide(typed(t, "dict")):
        return GSeq(size(t), lambda i: val(key_no(t, integer(i))))
    if I.s.feasible(size(t) == 3) and not I.s.feasible(size(t) != 3):
        return tuple(val(item(t, z3.IntVal(i))) for i in range(3))
    return GSeq(size(t), lambda i: val(item(t, integer(i))))


def d_getitem(I, o, idx):
    t = o.term
    need(I, o, "list", "tuple", "str", "dict")
    if I.s.decide(typed(t, "dict")):
        k = term_of(idx)
        if not I.s.decide(has_key(t, k)):
            pyraise("KeyError")
        return val(at_key(t, k))
    return I.getitem(GSeq(size(t), lambda i: val(item(t, integer(i)))), idx)


def d_contains(I, o, x):
    t = o.term
    need(I, o, "list", "tuple", "str", "dict")
    if I.s.decide(typed(t, "dict")):
        return has_key(t, term_of(x))
    if I.s.decide(typed(t, "str")):
        return z3.Function("text_in", S, S, B_)(t, term_of(x))
    return I.contains(I.lst(GSeq(size(t), lambda i: val(item(t, integer(i))))), x)


def term_of(x):
    if isinstance(x, Opq) and x.spec is ANY:
        return x.term
    if is_text(x):
        return as_S(x)
    raise Unsupported("key %r" % (x,))


def d_eq(I, o, a, k):
    b = a[0]
    t = o.term
    if isinstance(b, Opq) and b.spec is ANY:
        return t == b.term
    if is_text(b):
        return z3.And(typed(t, "str"), t == as_S(b))
    if b is None:
        return typed(t, "NoneType")
    if isinstance(b, bool) or is_num(b):
        return z3.And(typed(t, "bool", "int", "float"), number(t) == real(b))
    raise Unsupported("comparison of a value with %r" % (b,))


def num_of(I, x):
    if isinstance(x, Opq) and x.spec is ANY:
        need(I, x, "bool", "int", "float")
        return number(x.term)
    return x


def d_order(I, o, a, k):
    op, x, y = a
    if I.s.decide(z3.Or(*[z3.Not(typed(v.term, "bool", "int", "float")) for v in (x, y)
                          if isinstance(v, Opq) and v.spec is ANY])):
        both = [v for v in (x, y) if isinstance(v, Opq) and v.spec is ANY]
        if len(both) == 2 and not I.s.decide(kind(both[0].term) != kind(both[1].term)):
            raise Unsupported("order of texts or sequences")
        pyraise("TypeError", "order")
    return I.compare(op, num_of(I, x), num_of(I, y))


def d_op(I, o, a, k):
    op, x, y = a
    if isinstance(op, ast.Add) and (is_text(x) or is_text(y)):
        for v in (x, y):
            if not is_text(v):
                need(I, v, "str")
        return rope(*[p for v in (x, y) for p in (parts_of(v) if is_text(v) else [v.term])])
    for v in (x, y):
        if isinstance(v, Opq) and v.spec is ANY and \
                not I.s.decide(typed(v.term, "bool", "int", "float")):
            raise Unsupported("operator on values that may not be numbers")
    return I.binop(op, num_of(I, x), num_of(I, y))


def d_keys(I, o, a, k):
    need_attr(I, o, "dict")
    t = o.term
    return GSeq(size(t), lambda i: val(key_no(t, integer(i))))


def d_items(I, o, a, k):
    need_attr(I, o, "dict")
    t = o.term
    return GSeq(size(t), lambda i: (val(key_no(t, integer(i))), val(at_key(t, key_no(t, integer(i))))))


def d_values(I, o, a, k):
    need_attr(I, o, "dict")
    t = o.term
    return GSeq(size(t), lambda i: val(at_key(t, key_no(t, integer(i)))))


def need_attr(I, o, *names):
    if not I.s.decide(typed(o.term, *names)):
        pyraise("AttributeError", "attribute")


def d_endswith(I, o, a, k):
    need_attr(I, o, "str")
    return ends(o.term, term_of(a[0]))


def d_abs(I, o, a, k):
    need(I, o, "bool", "int", "float")
    n = number(o.term)
    return z3.If(n >= 0, n, -n)


def d_truth(I, o):
    t = o.term
    return z3.If(typed(t, "bool", "int", "float"), number(t) != 0,
                 z3.If(typed(t, "str", "list", "tuple", "dict"), size(t) > 0,
                       z3.If(typed(t, "NoneType"), False, True)))


def d_str(I, o, a, k):
    return Rope([o.term if I.s.valid(typed(o.term, "str"))[0] else text(o.term)])


ANY = Spec("value", methods={
    "isinstance": d_isinstance, "type": d_type, "hasattr": d_hasattr, "eq": d_eq, "__eq__": d_eq,
    "__order__": d_order, "__op__": d_op, "keys": d_keys, "items": d_items, "values": d_values,
    "endswith": d_endswith, "__abs__": d_abs,
    "text": lambda I, o, a, k: (typed(o.term, "str"), o.term),
    "__str__": d_str,
}, attrs={"is_none": lambda I, o: typed(o.term, "NoneType")},
    getitem=d_getitem, contains=d_contains, truth=d_truth, iterate=d_iter, length=d_len)


def val(t):
    return Opq(ANY, t)
