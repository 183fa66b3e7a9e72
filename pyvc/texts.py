"""Regular expressions and splitting of texts that are only partly known.

A text is a rope whose unknown parts have a declared shape: a sequence of runs of
characters.  The matcher follows CPython's priorities (leftmost start, then the first
alternative that leads to a match, greedy repeats from the longest) over the runs; where
the outcome would depend on characters that the shapes leave open, it gives up
(Unsupported).  A position inside a run of unknown length is only ever used to show that no
match goes on from there.
"""
import re
import re._parser as rp
import re._constants as rc

import z3

import terms as T
from terms import S, is_z3, lit_of
from session import Unsupported
from values import *          # noqa
from values import subst

ALL = frozenset(chr(i) for i in range(128))
INF = 10**9


def chars(pattern):
    """The characters of a class such as [a-z]."""
    return frozenset(c for c in ALL if re.fullmatch(pattern, c, re.S))


DIGIT = chars(r"\d")
BLANK = chars(r" ")
SPACE = chars(r"\s")
SHAPES = {}         # name of a constant or function -> runs (class, at least, at most)


def shape(decl, *runs):
    """Declares the shape of the texts decl(...)."""
    name = decl if isinstance(decl, str) else decl.decl().name() if is_z3(decl) else decl.name()
    SHAPES[name] = [(chars(c), lo, hi) for c, lo, hi in runs]


def shape_of(t):
    return SHAPES.get(t.decl().name()) if is_z3(t) and t.sort() == S and z3.is_app(t) else None


def nonempty(t):
    r = shape_of(t)
    return r is not None and any(lo > 0 for _, lo, _ in r)


def lacks(t, c):
    """True when no text of the shape has the character c."""
    r = shape_of(t)
    return r is not None and all(c not in cls for cls, _, _ in r)


class Run(object):
    __slots__ = ("cls", "lo", "hi", "owner")

    def __init__(self, cls, lo, hi, owner):
        self.cls, self.lo, self.hi, self.owner = cls, lo, hi, owner


def runs_of(I, parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if any(c not in ALL for c in p):
                raise Unsupported("text outside ASCII")
            out.extend(Run(frozenset(c), 1, 1, c) for c in p)
        elif is_z3(p) and p.sort() == S:
            l = lit_of(p)
            if l is not None:
                out.extend(Run(frozenset(c), 1, 1, c) for c in l)
                continue
            r = shape_of(p)
            if r is None:
                raise Unsupported("pattern matching on text of unknown shape")
            own = Owned(p, len(r))
            out.extend(Run(c, lo, hi, own) for c, lo, hi in r)
        elif is_z3(p) and p.sort() == z3.IntSort():
            if not I.s.valid(p >= 0)[0]:
                raise Unsupported("pattern matching on a number of unknown sign")
            out.append(Run(DIGIT, 1, INF, Owned(p, 1)))
        elif isinstance(p, FoldPart) and not p.sep and I.s.valid(p.n >= 1)[0]:
            # the first character of a piece, then characters of pieces
            first, every = frozenset(), frozenset()
            for _, r in p.cases:
                m = Matcher(runs_of(I, parts_of(r)))
                c, empty = firsts(m)
                if empty:
                    raise Unsupported("repeated text that may be empty")
                first |= c
                for r in m.runs:
                    every |= r.cls
            own = Owned(p, 2)
            out += [Run(first, 1, 1, own), Run(every, 0, INF, own)]
        else:
            raise Unsupported("pattern matching on this text")
    return out


class Owned(object):
    def __init__(self, part, n):
        self.part, self.n = part, n


def rest_of(cls):
    """Text that goes on in an unknown way, its first characters from a class."""
    return Run(cls, 0, INF, None)


# ------------------------------------------------------------------ the pattern
def compile_(pattern, flags=0):
    if flags:
        raise Unsupported("flags of a pattern")
    try:
        tree = rp.parse(pattern)
    except re.error:
        pyraise_("error")
    return seq(tree), tree.state.groups - 1


def pyraise_(n):
    raise PyRaise(n)


def one(op, av):
    """Class of a node that matches one character, or None."""
    if op is rc.LITERAL:
        return frozenset([chr(av)])
    if op is rc.NOT_LITERAL:
        return ALL - {chr(av)}
    if op is rc.ANY:
        return ALL - {"\n"}
    if op is rc.IN:
        neg, out = False, frozenset()
        for o, a in av:
            if o is rc.NEGATE:
                neg = True
            elif o is rc.LITERAL:
                out |= {chr(a)}
            elif o is rc.RANGE:
                out |= {chr(c) for c in range(a[0], a[1] + 1)}
            elif o is rc.CATEGORY:
                pat = {rc.CATEGORY_DIGIT: r"\d", rc.CATEGORY_NOT_DIGIT: r"\D",
                       rc.CATEGORY_WORD: r"\w", rc.CATEGORY_NOT_WORD: r"\W",
                       rc.CATEGORY_SPACE: r"\s", rc.CATEGORY_NOT_SPACE: r"\S"}.get(a)
                if pat is None:
                    raise Unsupported("pattern category")
                out |= chars(pat)
            else:
                raise Unsupported("pattern set")
        return (ALL - out) if neg else out & ALL
    return None


def seq(tree):
    out = []
    for op, av in tree:
        c = one(op, av)
        if c is not None:
            out.append(("set", c))
        elif op in (rc.MAX_REPEAT, rc.MIN_REPEAT):
            lo, hi, sub = av
            hi = INF if hi is rc.MAXREPEAT else hi
            out.append(("rep", lo, hi, seq(sub), op is rc.MAX_REPEAT))
        elif op is rc.SUBPATTERN:
            g, add, rem, sub = av
            if add or rem:
                raise Unsupported("pattern flags")
            out.extend(([("open", g)] if g else []) + seq(sub) + ([("close", g)] if g else []))
        elif op is rc.BRANCH:
            out.append(("alt", [seq(x) for x in av[1]]))
        elif op is rc.AT and av in (rc.AT_BEGINNING, rc.AT_BEGINNING_STRING):
            out.append(("begin",))
        elif op is rc.AT and av in (rc.AT_END_STRING,):
            out.append(("end",))
        else:
            raise Unsupported("pattern %s" % (op,))
    return out


class K(object):
    """A continuation: a node and what follows."""
    __slots__ = ("node", "next", "memo")

    def __init__(self, node, nxt):
        self.node, self.next, self.memo = node, nxt, {}


def chain(nodes, k):
    for n in reversed(nodes):
        k = K(n, k)
    return k


def steps(k):
    """Alternatives after a repeat or a choice: continuations, in order of priority."""
    m = k.memo.get("steps")
    if m is None:
        n = k.node
        if n[0] == "alt":
            m = [chain(x, k.next) for x in n[1]]
        else:
            _, lo, hi, sub, greedy = n
            again = None
            if hi > 0:
                nlo, nhi = max(0, lo - 1), (INF if hi >= INF else hi - 1)
                loop = k if (nlo, nhi) == (lo, hi) else K(("rep", nlo, nhi, sub, greedy), k.next)
                again = chain(sub, loop)
            m = ([again] if again else []) + ([k.next] if lo == 0 else [])
            if not greedy:
                m.reverse()
        k.memo["steps"] = m
    return m


class Matcher(object):
    """Positions: (j, 0) before run j; (j, 1) strictly inside it; (j, 2) after at least one
    of its characters."""

    def __init__(self, runs):
        self.runs = runs

    def options(self, pos):
        """(class, next position) of the next character; None stands for the end."""
        out = []
        j, where = pos
        while True:
            if j == len(self.runs):
                out.append((None, None))
                return out
            r = self.runs[j]
            if where == 1:
                return out + [(r.cls, (j, 2))]
            if where == 2:
                if r.hi > 1:
                    out.append((r.cls if r.owner is not None else ALL, (j, 2)))
            else:
                out.append((r.cls, (j, 2) if r.hi > 1 else (j + 1, 0)))
                if r.lo > 0:
                    return out
            j, where = j + 1, 0

    def can(self, k, pos):
        """False: no match of k goes on from any of the positions that pos stands for."""
        seen = set()
        todo = [(k, pos)]
        keep = []
        while todo:
            k, pos = todo.pop()
            key = (id(k), pos)
            if key in seen:
                continue
            seen.add(key)
            keep.append(k)
            if k is None:
                return True
            n = k.node
            if n[0] == "set":
                for c, q in self.options(pos):
                    if c is not None and c & n[1]:
                        todo.append((k.next, q))
            elif n[0] in ("open", "close"):
                todo.append((k.next, pos))
            elif n[0] == "begin":
                if pos[1] < 2 and all(r.lo == 0 for r in self.runs[:pos[0]]):
                    todo.append((k.next, pos))
            elif n[0] == "end":
                if any(c is None for c, _ in self.options(pos)):
                    todo.append((k.next, pos))
            else:
                for x in steps(k):
                    todo.append((x, pos))
        return False

    def match(self, k, p, caps):
        """Matches of k from before run p, best first: (end, captures)."""
        if k is None:
            yield p, caps
            return
        n = k.node
        if n[0] == "open":
            yield from self.match(k.next, p, dict(caps, **{"<%d" % n[1]: p}))
        elif n[0] == "close":
            c = dict(caps)
            c[n[1]] = (c.pop("<%d" % n[1]), p)
            yield from self.match(k.next, p, c)
        elif n[0] == "begin":
            if p == 0:
                yield from self.match(k.next, p, caps)
            elif all(r.lo == 0 for r in self.runs[:p]):
                raise Unsupported("start of a text of unknown shape")
        elif n[0] == "end":
            o = self.options((p, 0))
            if len(o) == 1 and o[0][0] is None:
                yield from self.match(k.next, p, caps)
            elif any(c is None for c, _ in o):
                raise Unsupported("end of a text of unknown shape")
        elif n[0] == "set":
            o = self.options((p, 0))
            hit = [x for x in o if x[0] is not None and x[0] & n[1]]
            if not hit:
                return
            if len(o) == 1 and o[0][0] <= n[1] and o[0][1] == (p + 1, 0):
                yield from self.match(k.next, p + 1, caps)
            elif any(self.can(k.next, q) for _, q in hit):
                raise Unsupported("match that depends on unknown characters")
        elif n[0] == "rep" and len(n[3]) == 1 and n[3][0][0] == "set":
            yield from self.repeat(k, p, caps)
        elif n[0] == "rep":
            for x in steps(k):
                for e, c in self.match(x, p, caps):
                    if x is not k.next and e == p and n[2] >= INF:
                        raise Unsupported("repeat of an empty match")
                    yield e, c
        else:
            for x in steps(k):
                yield from self.match(x, p, caps)

    def repeat(self, k, p, caps):
        _, lo, hi, sub, greedy = k.node
        cls = sub[0][1]
        ends = [p]              # exact positions, with the runs between them
        count = [0]
        most = [0]
        j = p
        while True:
            o = self.options((j, 0))
            if not any(c is not None and c & cls for c, _ in o):
                break
            r = self.runs[j] if j < len(self.runs) else None
            if r is None or r.owner is None or not r.cls <= cls:
                raise Unsupported("repeat that depends on unknown characters")
            if hi < INF:
                if most[-1] >= hi:
                    break
                if r.hi > 1 or (r.lo < 1 and any(c is not None and c & cls
                                                 for c, _ in self.options((j + 1, 0)))):
                    raise Unsupported("bounded repeat over unknown characters")
            j += 1
            ends.append(j)
            count.append(count[-1] + r.lo)
            most.append(INF if r.hi >= INF else most[-1] + r.hi)
        order = list(range(len(ends)))
        if greedy:
            order.reverse()

        def inside(i):
            """Positions strictly inside the run before ends[i]."""
            if self.runs[ends[i] - 1].hi > 1 and most[i] >= lo and \
                    self.can(k.next, (ends[i] - 1, 1)):
                raise Unsupported("match that may go on inside unknown characters")
        for i in order:
            if i and not greedy:
                inside(i)
            if most[i] >= lo:
                if count[i] < lo:
                    if self.can(k.next, (ends[i], 0)):
                        raise Unsupported("repeat of unknown length")
                else:
                    yield from self.match(k.next, ends[i], caps)
            if i and greedy:
                inside(i)

    def first(self, k, p):
        for r in self.match(k, p, {}):
            return r
        return None

    def search(self, k, p=0, stop=None):
        """(start, end, captures) of the first match from a position in [p, stop) on, or None."""
        while p != stop:
            if p < len(self.runs) and self.runs[p].lo == 0 and self.runs[p].owner is not None and \
                    not self.can(k, (p, 1)):
                # no match starts at one of its characters, if there are any
                p += 1
                continue
            r = self.first(k, p)
            if r is not None:
                return (p,) + r
            if p == len(self.runs):
                return None
            if self.runs[p].owner is None:
                if self.can(k, (p, 2)):
                    raise Unsupported("match in unknown text")
            elif self.runs[p].hi > 1 and self.can(k, (p, 1)):
                raise Unsupported("match inside unknown characters")
            p += 1
        return None

    def text(self, p, q):
        out = []
        while p < q:
            o = self.runs[p].owner
            if isinstance(o, str):
                out.append(o)
                p += 1
                continue
            if o is None or p + o.n > q or any(self.runs[p + i].owner is not o for i in range(o.n)) or \
                    (p and self.runs[p - 1].owner is o):
                raise Unsupported("part of an unknown text")
            out.append(o.part)
            p += o.n
        return rope(*out)


# ------------------------------------------------------------------ the library
def pattern(I, p, flags=0):
    if isinstance(p, Opq) and p.spec.name == "pattern":
        return p.data
    if not isinstance(p, str):
        raise Unsupported("unknown pattern")
    nodes, groups = compile_(p, flags)
    return p, nodes, groups


def whole(text):
    return isinstance(text, str)


def parts(v):
    return parts_of(v)


def found(I, m, r, groups):
    if r is None:
        return None
    p, q, caps = r

    def group(I, o, a, k):
        out = []
        for g in a or (0,):
            if not isinstance(g, int):
                raise Unsupported("named group")
            if g > groups:
                raise PyRaise("IndexError")
            x = (p, q) if g == 0 else caps.get(g)
            out.append(m.text(*x) if x is not None else None)
        return out[0] if len(out) == 1 else tuple(out)

    def groups_(I, o, a, k):
        d = a[0] if a else None
        return tuple(m.text(*caps[g]) if g in caps else d for g in range(1, groups + 1))
    return Opq(Spec("match", truth=lambda I, o: True,
                    getitem=lambda I, o, i: group(I, o, [i], {}),
                    methods={"group": group, "groups": groups_}))


def r_search(I, pat, text, how):
    p, nodes, groups = pattern(I, pat)
    if not is_text(text):
        raise PyRaise("TypeError")
    m = Matcher(runs_of(I, parts_of(text)))
    k = chain(nodes + ([("end",)] if how == "fullmatch" else []), None)
    if how == "search":
        r = m.search(k)
    else:
        r = m.first(k, 0)
        r = None if r is None else (0,) + r
    return found(I, m, r, groups)


def differs(I, ps, text):
    """True when the shapes of the parts leave no way to spell the text."""
    if not any(isinstance(p, FoldPart) or shape_of(p) for p in ps):
        return False
    try:
        m = Matcher(runs_of(I, ps))
    except Unsupported:
        return False
    return not m.can(chain([("set", frozenset(c)) for c in text] + [("end",)], None), (0, 0))


def firsts(m, p=0):
    """Classes of the first character from run p on, and whether the text may end there."""
    o = m.options((p, 0))
    c = frozenset()
    for x, _ in o:
        if x is not None:
            c |= x
    return c, any(x is None for x, _ in o)


def all_in(I, nodes, groups, ps, after):
    """Matches in one stretch of text; after: the class of what may follow."""
    runs = runs_of(I, ps)
    end = len(runs)
    m = Matcher(runs + ([rest_of(after)] if after else []))
    k = chain(nodes, None)
    if Matcher([]).first(k, 0) is not None:
        raise Unsupported("matches of a pattern that matches nothing")
    out, p = [], 0
    while p < end:
        r = m.search(k, p, end)
        if r is None:
            break
        a, b, caps = r
        if a == b or a >= end or b > end:
            raise Unsupported("match that is empty or goes on in unknown text")
        if groups == 0:
            out.append(m.text(a, b))
        else:
            g = tuple(m.text(*caps[x]) if x in caps else "" for x in range(1, groups + 1))
            out.append(g if groups > 1 else g[0])
        p = b
    return tuple(out)


def r_findall(I, pat, text):
    p, nodes, groups = pattern(I, pat)
    ps = parts_of(text)
    folds = [i for i, x in enumerate(ps) if isinstance(x, FoldPart)]
    if not folds:
        return I.lst(all_in(I, nodes, groups, ps, frozenset()))
    if len(folds) > 1 or ps[folds[0]].sep:
        raise Unsupported("matches in repeated text")
    f = ps[folds[0]]
    pre, post = ps[:folds[0]], ps[folds[0] + 1:]
    after, _ = firsts(Matcher(runs_of(I, post)))
    starts = after
    for c, r in f.cases:
        x, empty = firsts(Matcher(runs_of(I, parts_of(r))))
        if empty:
            raise Unsupported("repeated text that may be empty")
        starts |= x
    segs = []
    a = all_in(I, nodes, groups, pre, starts) if pre else ()
    segs.append(a)
    cases = [(c, all_in(I, nodes, groups, parts_of(r), starts)) for c, r in f.cases]
    segs.append(FlatSeq(f.n, f.var, cases))
    segs.append(all_in(I, nodes, groups, post, frozenset()) if post else ())
    return I.lst(catseq(*[x for x in segs if x != ()]))


def compiled(I, a, k):
    p, nodes, groups = pattern(I, a[0], *(a[1:]))
    how = lambda h: lambda I, o, a, k: r_search(I, o, a[0], h)
    o = Opq(Spec("pattern", truth=lambda I, o: True,
                 methods={"search": how("search"), "match": how("match"), "fullmatch": how("fullmatch"),
                          "findall": lambda I, o, a, k: r_findall(I, o, a[0])}))
    o.data = (p, nodes, groups)
    return o


LIB = {
    "re.compile": compiled, "re.escape": lambda I, a, k: re.escape(a[0]),
    "re.search": lambda I, a, k: r_search(I, a[0], a[1], "search"),
    "re.match": lambda I, a, k: r_search(I, a[0], a[1], "match"),
    "re.fullmatch": lambda I, a, k: r_search(I, a[0], a[1], "fullmatch"),
    "re.findall": lambda I, a, k: r_findall(I, a[0], a[1]),
}


# ------------------------------------------------------------------ splitting
def has_char(I, p, c):
    """Whether a part has the character: True, False, or Unsupported."""
    if isinstance(p, str):
        return c in p
    if is_z3(p) and p.sort() == S:
        if lacks(p, c):
            return False
        r = shape_of(p)
        if r and any(cls == frozenset(c) and lo > 0 for cls, lo, _ in r):
            return True
        raise Unsupported("search in text of unknown shape")
    if is_z3(p) and p.sort() == z3.IntSort() and not c.isdigit() and c != "-":
        return False
    if isinstance(p, FoldPart):
        if any(has_char(I, q, c) for _, r in p.cases for q in parts_of(r)) or c in (p.sep or ""):
            raise Unsupported("search in repeated text")
        return False
    raise Unsupported("search in this text")


def split(I, text, sep):
    """Pieces between the separators, or None when this is not known."""
    if len(sep) != 1:
        raise Unsupported("separator of several characters")
    ps = parts_of(text)
    folds = [p for p in ps if isinstance(p, FoldPart)]
    if len(ps) == 1 and folds and folds[0].sep == sep:
        f = folds[0]
        if not I.s.valid(f.n >= 1)[0]:
            raise Unsupported("pieces of a text that may be empty")
        if f.cases[-1][0] is not True or any(has_char(I, q, sep) for _, r in f.cases for q in parts_of(r)):
            raise Unsupported("pieces of repeated text")
        if len(f.cases) > 1:
            return I.lst(FlatSeq(f.n, f.var, [(c, (r,)) for c, r in f.cases]))
        r, v = f.cases[0][1], f.var
        return I.lst(GSeq(f.n, lambda i: subst(r, [(v, T.integer(i))])))
    out, cur = [], []
    for p in ps:
        if isinstance(p, str):
            bits = p.split(sep)
            cur.append(bits[0])
            for b in bits[1:]:
                out.append(rope(*cur))
                cur = [b]
            continue
        if has_char(I, p, sep):
            raise Unsupported("split of unknown text")
        cur.append(p)
    out.append(rope(*cur))
    return I.lst(tuple(out))


def strip(I, text, left=True, right=True):
    ps = list(parts_of(text))

    def trim(end):
        while ps:
            p = ps[end]
            if isinstance(p, str):
                q = p.lstrip() if end == 0 else p.rstrip()
                if q:
                    ps[end] = q
                    return
            elif is_z3(p) and p.sort() == S and shape_of(p):
                r = shape_of(p)
                r = r if end == 0 else r[::-1]
                if not all(c <= SPACE for c, _, _ in r):
                    if r[0][1] > 0 and not r[0][0] & SPACE:
                        return
                    raise Unsupported("strip of unknown text")
            elif is_z3(p) and p.sort() != S:
                return
            else:
                raise Unsupported("strip of unknown text")
            ps.pop(end)
    if left:
        trim(0)
    if right:
        trim(-1)
    return rope(*ps)
