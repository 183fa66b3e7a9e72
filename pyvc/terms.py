"""Logic layer: sorts, fold terms, axiom schemas and the proof procedure (z3, then cvc5).

Every query is quantifier free: axiom schemas are instantiated on the terms that
occur in it.  A query that comes back unsat is proved; sat or unknown is not.
"""
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

S = z3.DeclareSort("Str")
cat = z3.Function("cat", S, S, S)
istr = z3.Function("istr", z3.IntSort(), S)
rstr = z3.Function("rstr", z3.RealSort(), S)
Exp = z3.Function("exp", z3.RealSort(), z3.RealSort())
Log = z3.Function("log", z3.RealSort(), z3.RealSort())
Sqrt = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
Pow = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())

_lits = {}


def lit(s):
    if s not in _lits:
        _lits[s] = z3.Const("lit<%s>" % s, S)
    return _lits[s]


def lit_of(t):
    """The text of a literal constant, or None."""
    if z3.is_const(t) and t.sort() == S:
        n = t.decl().name()
        if n.startswith("lit<"):
            return n[4:-1]
    return None


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def real(x):
    """Number (python or z3) as a z3 Real term."""
    if is_z3(x):
        if x.sort() == z3.IntSort():
            return z3.ToReal(x)
        if x.sort() == z3.BoolSort():
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        return x
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator))/z3.RealVal(str(x.denominator)) \
            if x.denominator != 1 else z3.RealVal(str(x.numerator))
    if isinstance(x, float):
        f = Fraction(repr(x)) if "n" not in repr(x) else None
        if f is None:
            raise ValueError("not finite")
        return z3.Q(f.numerator, f.denominator)
    raise TypeError("not a number: %r" % (x,))


def integer(x):
    if is_z3(x):
        return x
    return z3.IntVal(int(x))


# ------------------------------------------------------------------ folds
class Fold(object):
    def __init__(self, kind, decl, formals, var, n, body):
        self.kind, self.decl, self.formals = kind, decl, formals
        self.var, self.n, self.body = var, n, body


FOLDS = {}            # decl name -> Fold
INDEX = set()         # names of generic index constants
_count = [0]


def fresh_name(p):
    _count[0] += 1
    return "%s!%d" % (p, _count[0])


def fresh_index(p="i"):
    c = z3.Int(fresh_name(p))
    INDEX.add(c.decl().name())
    return c


_sub = {}


def consts_of(*terms):
    """All subterms of the terms (each once)."""
    terms = [t for t in terms if is_z3(t)]
    if len(terms) == 1:
        k = terms[0].get_id()
        r = _sub.get(k)
        if r is None:
            r = _sub[k] = (terms[0], _subterms(terms))
        return r[1]
    seen, out = set(), []
    for t in terms:
        if t.get_id() in seen:
            continue
        for x in consts_of(t):
            if x.get_id() not in seen:
                seen.add(x.get_id())
                out.append(x)
    return out


def _subterms(terms):
    seen, out, stack = set(), [], list(terms)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        out.append(t)
        stack.extend(t.children())
    return out


def mentions(t, var):
    if not is_z3(t):
        return False
    vid = var.get_id()
    return any(x.get_id() == vid for x in consts_of(t))


PARAM = set()         # names of other constants folds must abstract over


def params_of(terms, without):
    ps = {}
    for t in consts_of(*terms):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if (n in INDEX or n in PARAM or "!" in n) and not n.startswith("lit<") and \
                    t.get_id() != without.get_id():
                ps[n] = t
    return [ps[k] for k in sorted(ps)]


def make_fold(kind, n, var, body):
    """Sum or product of body over var in [0, n)."""
    body = real(body)
    n = integer(n)
    if mentions(n, var):
        # the number of terms may be an index of that name
        other = fresh_index("f")
        body, var = z3.substitute(body, (var, other)), other
    sb = z3.simplify(body)
    if kind == "sum":
        if z3.is_rational_value(sb) and sb.as_fraction() == 0:
            return z3.RealVal(0)
        if not mentions(sb, var):
            return z3.If(n > 0, z3.ToReal(n), z3.RealVal(0))*sb
        # a guard fixing the index: one summand
        r = _delta(n, var, body)
        if r is not None:
            return r
    if kind == "prod" and z3.is_rational_value(sb) and sb.as_fraction() == 1:
        return z3.RealVal(1)
    if z3.is_int_value(n):
        k = n.as_long()
        if k <= 4:
            acc = z3.RealVal(0 if kind == "sum" else 1)
            for j in range(k):
                b = z3.substitute(body, (var, z3.IntVal(j)))
                acc = acc + b if kind == "sum" else acc*b
            return acc
    ps = params_of([n, body], var)
    pairs = [(p, z3.Const("param!%d" % q, p.sort())) for q, p in enumerate(ps)]
    kept = (z3.substitute(n, *pairs) if pairs else n,
            z3.substitute(body, *([(var, z3.Int("bound!"))] + pairs)))
    key = (kind, kept[0].get_id(), kept[1].get_id(), tuple(p.sort().name() for p in ps))
    for f in FOLDS.values():
        if f.key == key:
            return f.decl(*ps) if ps else f.decl()
    name = fresh_name(kind)
    decl = z3.Function(name, *([p.sort() for p in ps] + [z3.RealSort()]))
    f = Fold(kind, decl, ps, var, n, body)
    f.key = key
    f.keep = kept
    FOLDS[name] = f
    return decl(*ps) if ps else decl()


def _conj(c):
    return [x for a in c.children() for x in _conj(a)] if z3.is_and(c) else [c]


def _delta(n, var, body):
    b = body
    if not z3.is_app_of(b, z3.Z3_OP_ITE):
        return None
    c, t, e = b.children()
    es = z3.simplify(e)
    if not (z3.is_rational_value(es) and es.as_fraction() == 0):
        return None
    for g in _conj(c):
        if z3.is_eq(g):
            x, y = g.children()
            for p, q in ((x, y), (y, x)):
                if p.get_id() == var.get_id() and not mentions(q, var):
                    return z3.If(z3.And(q >= 0, q < n, z3.substitute(c, (var, q))),
                                 z3.substitute(t, (var, q)), z3.RealVal(0))
    # guards that do not depend on the index move out
    free = [g for g in _conj(c) if not mentions(g, var)]
    if free:
        rest = [g for g in _conj(c) if mentions(g, var)]
        inner = make_fold("sum", n, var, z3.If(z3.And(*rest), t, z3.RealVal(0)) if rest else t)
        return z3.If(z3.And(*free), inner, z3.RealVal(0))
    return None


def fold_at(app, idx):
    """(n, body) of the fold application, body at index idx."""
    f = FOLDS[app.decl().name()]
    sub = list(zip(f.formals, app.children()))
    n = z3.substitute(f.n, *sub) if sub else f.n
    b = z3.substitute(f.body, *([(f.var, idx)] + sub))
    return n, b


# ------------------------------------------------------------------ schemas
SCHEMAS = {}          # decl name -> function(app) -> [facts]
INDEXED = {}          # decl name of a sequence element function -> arg position of the index


def schema(name, fn):
    SCHEMAS.setdefault(name, []).append(fn)


schema("exp", lambda a: [a > 0])
schema("sqrt", lambda a: [z3.Implies(a.arg(0) >= 0, z3.And(a >= 0, a*a == a.arg(0)))])
schema("pow", lambda a: [z3.Implies(a.arg(1) == 1, a == a.arg(0)),
                         z3.Implies(a.arg(1) == 0, a == 1),
                         z3.Implies(a.arg(0) > 0, a > 0)])


_inst = {}


def whole(t):
    """Is the real term a whole number by its form?"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return whole(t.arg(1)) and whole(t.arg(2))
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return True
    if z3.is_rational_value(t):
        return t.denominator_as_long() == 1
    if z3.is_add(t) or z3.is_sub(t) or z3.is_mul(t) or z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return all(whole(c) for c in t.children())
    return False


def instances(t):
    """Instances of the global schemas at an application (cached)."""
    k = t.get_id()
    r = _inst.get(k)
    if r is None:
        fs = []
        for fn in SCHEMAS.get(t.decl().name(), ()):
            fs.extend(fn(t))
        f = FOLDS.get(t.decl().name())
        if f is not None and f.kind == "sum" and whole(f.body):
            fs.append(z3.ToReal(z3.ToInt(t)) == t)
        if f is not None and f.kind == "sum" and _leaves_nonneg(f.body):
            fs.append(t >= 0)
        if f is not None and f.kind == "sum" and _leaves_nonneg(f.body, True):
            # a sum of exponentials
            n, _ = fold_at(t, f.var)
            fs.append(z3.And(t >= 0, z3.Implies(n > 0, t > 0)))
        r = _inst[k] = (t, fs)
    return r[1]


EXACT = set()       # functions whose other arguments must be the same terms, too


# functions of a position whose universal facts are also used at shifted positions
SHIFTED = {}


class Forall(object):
    """A fact for every index.  Instances are taken at the indices at which one of the
    functions applied to the bound index occurs; at every index when the bound index
    occurs in another way (leaving an instance out can only lose a proof)."""

    def __init__(self, fn, sort=None):
        self.cache = {}
        self.probe = z3.Const(fresh_name("probe"), z3.IntSort() if sort is None else sort)
        f = fn(self.probe)
        self.form = list(f) if isinstance(f, (list, tuple)) else [f]
        self.form = [z3.BoolVal(x) if isinstance(x, bool) else x for x in self.form]
        self.triggers = self._triggers()
        self.shifts = self._shifts() if SHIFTED else ()
        if self.triggers is None and sort is not None:
            raise ValueError("universal fact without triggers")

    def __call__(self, c):
        return self.at(c.get_id(), c)

    def at(self, k, c):
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = (c, [z3.substitute(x, (self.probe, c)) for x in self.form])
        return r[1]

    shifts = ()

    def _shifts(self):
        """Functions of positions applied to the bound index plus something."""
        out = {}
        for t in consts_of(*self.form):
            if z3.is_app(t) and t.decl().name() in SHIFTED:
                p = SHIFTED[t.decl().name()]
                a = t.arg(p)
                if mentions(a, self.probe):
                    d = z3.simplify(a - self.probe)
                    if not mentions(d, self.probe):
                        out[t.decl().name(), d.get_id()] = (t.decl().name(), p, d)
        return list(out.values())

    def shifted(self, c, d):
        """The instance at the index at which the position is c."""
        k = ("shift", c.get_id(), d.get_id())
        r = self.cache.get(k)
        if r is None:
            x = z3.simplify(c - d)
            r = self.cache[k] = (c, d, [z3.simplify(z3.substitute(f, (self.probe, x)))
                                        for f in self.form])
        return r[2]

    def _triggers(self):
        probe = self.probe
        out = set()
        for t in consts_of(*self.form):
            if not z3.is_app(t) or not any(mentions(a, probe) for a in t.children()):
                continue
            if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            n = t.decl().name()
            if n in FOLDS:
                return None
            for p, a in enumerate(t.children()):
                if a.get_id() == probe.get_id():
                    rest = [(q, b.get_id()) for q, b in enumerate(t.children()) if q != p]
                    if n not in EXACT or any(mentions(b, probe) for q, b in enumerate(t.children())
                                             if q != p):
                        rest = []
                    out.add((n, p, tuple(rest)))
                elif z3.is_int(a) and mentions(a, probe) and \
                        a.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                    return None
        return out or None


class Nested(Forall):
    """For every i in [0, n) with cond(i): the universal facts of that iteration."""

    def __init__(self, i, n, cond, facts):
        self.cache = {}
        self.probe = i
        self.n, self.cond, self.facts = n, cond, facts
        self.form = [cond] + [x for u in facts for x in u.form]
        self.triggers = self._triggers()

    def at(self, k, c):
        r = self.cache.get(k)
        if r is None:
            guard = z3.And(c >= 0, c < self.n, z3.substitute(self.cond, (self.probe, c)))
            r = self.cache[k] = (c, [Inner(u, self.probe, c, guard) for u in self.facts])
        return r[1]


class Stated(object):
    """A universal fact as it stands in a summary."""

    def __init__(self, probe, form):
        self.probe, self.form = probe, form


class Inner(Forall):
    def __init__(self, u, i, c, guard):
        self.cache = {}
        self.probe = u.probe
        self.form = [z3.Implies(guard, z3.substitute(x, (i, c))) for x in u.form]
        self.triggers = self._triggers()


def _leaves_nonneg(t, strict=False):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            stack.extend([x.arg(1), x.arg(2)])
            continue
        if z3.is_app(x) and x.decl().name() == "exp":
            continue
        if strict:
            return False
        x = z3.simplify(x)
        if not z3.is_rational_value(x) or x.as_fraction() < 0:
            return False
    return True


SCHEMAS.setdefault("exp", []).append(lambda t: [t > 0])


_counts = {}


def count_fact(app):
    """A sum of nonnegative numbers is at least each of its summands."""
    k = app.get_id()
    if k not in _counts:
        f = FOLDS[app.decl().name()]
        _counts[k] = (app, None)
        if f.kind == "sum" and _leaves_nonneg(f.body):
            def fn(c):
                n, b = fold_at(app, c)
                return [app >= 0, z3.Implies(z3.And(c >= 0, c < n), b <= app)]
            _counts[k] = (app, Forall(fn))
    return _counts[k][1]


class Query(object):
    def __init__(self, session):
        self.s = session

    def facts(self, terms, rounds=5):
        """Instances of the schemas and of the universal facts in force."""
        out, done = [], set()
        todo = list(terms)
        pool = {}
        cands = {}
        hits = {}
        want = {}
        local = self.s.schemas
        foralls = list(self.s.foralls)
        for t in terms:
            for x in infos(t):
                if x.fold:
                    u = count_fact(x.t)
                    if u is not None and u not in foralls:
                        foralls.append(u)
        for u in foralls:
            for n, p, rest in u.triggers or ():
                want.setdefault(n, set()).add((p, rest))
        inner = set()

        def nested(u):
            """A universal fact that an instance of another one brings."""
            if id(u) in inner:
                return
            inner.add(id(u))
            foralls.append(u)
            for n, p, rest in u.triggers or ():
                if (p, rest) in want.get(n, ()):
                    continue
                want.setdefault(n, set()).add((p, rest))
                for x in pool.values():
                    if x.name == n and all(x.args[q][0] == j for q, j in rest):
                        i, c = x.args[p]
                        hits.setdefault((n, p, rest), {})[i] = c
        for _ in range(rounds):
            new = []
            before = len(foralls)
            for t in todo:
                if not is_z3(t):
                    continue
                for x in infos(t):
                    if x.id in pool:
                        continue
                    pool[x.id] = x
                    if x.index:
                        cands[x.id] = x.t
                    if x.name is not None:
                        if x.facts is None:
                            x.facts = instances(x.t)
                        new.extend(x.facts)
                        if local:
                            for fn in local.get(x.name, ()):
                                new.extend(fn(x.t))
                        for p, rest in want.get(x.name, ()):
                            if all(x.args[q][0] == j for q, j in rest):
                                i, c = x.args[p]
                                hits.setdefault((x.name, p, rest), {})[i] = c
                        if x.pos is not None:
                            i, c = x.args[x.pos]
                            cands[i] = c
            for u in list(foralls):
                if u.triggers is None:
                    at = list(cands.items())
                else:
                    at = [c for g in u.triggers for c in hits.get(g, {}).items()]
                for i, c in at:
                    k = (id(u), i)
                    if k not in done:
                        done.add(k)
                        for x in u.at(i, c):
                            if isinstance(x, Forall):
                                nested(x)
                            else:
                                new.append(x)
            if SHIFTED:
                positions = {n: {} for n in SHIFTED}
                for x in pool.values():
                    if x.name in positions:
                        i, c = x.args[SHIFTED[x.name]]
                        positions[x.name][i] = c
                for u in list(foralls):
                    for n, p, d in u.shifts:
                        for i, c in positions[n].items():
                            k = (id(u), "shift", i, d.get_id())
                            if k not in done:
                                done.add(k)
                                new.extend(u.shifted(c, d))
            for f in self.s.search_facts(list(cands.values()), done):
                new.append(f)
            new = [f for f in new if f is not None and f is not True]
            out.extend(new)
            todo = new
            if not new and len(foralls) == before:
                break
        texts = [x for x in pool.values() if x.lit is not None or x.name == "cat"]
        pool = {i: x.t for i, x in pool.items()}
        return out + text_facts(texts), pool


class Info(object):
    """What the search for instances asks of a term."""
    __slots__ = ("id", "t", "name", "index", "args", "pos", "lit", "fold", "facts")

    def __init__(self, t):
        self.t, self.id = t, t.get_id()
        self.name = self.lit = self.facts = self.pos = None
        self.args, self.fold = (), False
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                self.name = d.name()
                self.args = [(c.get_id(), c) for c in t.children()]
                self.fold = self.name in FOLDS
                p = INDEXED.get(self.name)
                if p is not None and len(self.args) > p:
                    self.pos = p
                if not self.args:
                    self.lit = lit_of(t)
        self.index = t.sort() == z3.IntSort() and (
            (not self.args and self.name in INDEX) if not (self.args or self.name is None)
            else self.name is not None and self.name.startswith("Index_"))


_info, _infos = {}, {}


def infos(t):
    k = t.get_id()
    r = _infos.get(k)
    if r is None:
        out = []
        for x in consts_of(t):
            i = x.get_id()
            y = _info.get(i)
            if y is None:
                y = _info[i] = Info(x)
            out.append(y)
        r = _infos[k] = (t, out)
    return r[1]


def text_facts(texts):
    out = []
    lits = [x.t for x in texts if x.lit is not None]
    if len(lits) > 1:
        out.append(z3.Distinct(*lits))
    cats = [x for x in texts if x.name == "cat"]
    for i, a in enumerate(cats):
        for b in cats[i + 1:]:
            k = (a.id, b.id)
            r = _pair.get(k)
            if r is None:
                r = _pair[k] = (a.t, b.t, _cat_facts(a, b))
            out.extend(r[2])
        for l in texts:
            if l.lit is None:
                continue
            k = (a.id, l.id)
            r = _pair.get(k)
            if r is None:
                la, ra = lit_of(a.t.arg(0)), lit_of(a.t.arg(1))
                f = [a.t != l.t] if (la is not None and not l.lit.startswith(la)) or \
                    (ra is not None and not l.lit.endswith(ra)) else []
                r = _pair[k] = (a.t, l.t, f)
            out.extend(r[2])
    return out


_pair = {}


def _cat_facts(a, b):
    out = []
    a, b = a.t, b.t
    la, lb = lit_of(a.arg(0)), lit_of(b.arg(0))
    if a.arg(0).get_id() == b.arg(0).get_id():
        out.append((a == b) == (a.arg(1) == b.arg(1)))
    if a.arg(1).get_id() == b.arg(1).get_id():
        out.append((a == b) == (a.arg(0) == b.arg(0)))
    if la is not None and lb is not None and not (la.startswith(lb) or lb.startswith(la)):
        out.append(a != b)
    return out


class Stats(object):
    def __init__(self):
        self.time = 0.0
        self.calls = {}


STATS = Stats()


SLOW = float(os.environ.get("PYVC_SLOW", "1"))     # factor on every solver time limit


def _z3_check(asserts, timeout_ms):
    t0 = time.time()
    s = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
    s.set("timeout", int(timeout_ms*SLOW))
    s.add(*asserts)
    r = s.check()
    STATS.time += time.time() - t0
    STATS.calls["z3"] = STATS.calls.get("z3", 0) + 1
    return r, s


def _cvc5_check(asserts, timeout_s):
    s = z3.Solver()
    s.add(*asserts)
    text = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout_s*1000), f.name],
                           capture_output=True, text=True, timeout=timeout_s + 5)
        out = p.stdout.strip().split("\n")[0]
    except Exception:                                         # noqa
        out = "unknown"
    finally:
        os.unlink(f.name)
        STATS.time += time.time() - t0
        STATS.calls["cvc5"] = STATS.calls.get("cvc5", 0) + 1
    return out


# decl name of an injective element function of one index -> its inverse
INVERSE_AT = {}       # name -> (position of the index, inverse(term, value)) of injective functions
INVERSE = {}


def undo(name, inverse, t):
    """inverse(t) for the inverse of the element function of that name."""
    if is_z3(t) and z3.is_app(t) and t.num_args() == 1 and t.decl().name() == name:
        return t.arg(0)
    return inverse(t)


def quick_valid(goal):
    """Valid with no assumption at all."""
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(z3.Not(goal))
    return s.check() == z3.unsat
