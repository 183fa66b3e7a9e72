"""Path exploration, assumptions and proving."""
import time

import z3

from terms import *          # noqa
import terms as T


class Unsupported(Exception):
    """The engine cannot express this: the obligation stays undecided."""


class Infeasible(BaseException):
    pass


class TooLong(Unsupported):
    pass


class Explorer(object):
    def __init__(self, base):
        self.prefix, self.pos, self.base = [], 0, base


class Session(object):
    def __init__(self, timeout_ms=6000, deadline=None):
        self.pc = []              # z3 facts in force
        self.lemmas = set()       # positions of those that follow from the others
        self.foralls = []         # functions index term -> fact (universal facts)
        self.schemas = {}         # decl name -> [fn(app) -> facts]
        self.trail = []           # undo log
        self.explorers = []
        self.results = []         # (name, status, info)
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.abstract = 0
        self.feas_cache = {}
        self.labels = {}
        self.lemma_positive = True
        self.chosen = 0
        self.ordinal = [0, 0]     # objects and explorations of this path so far

    # -------------------------------------------------------------- trail
    def log(self, undo):
        self.trail.append(undo)

    def rollback(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()()

    @property
    def serial(self):
        import values
        return values.COUNTER[0]

    def next_serial(self):
        import values
        values.COUNTER[0] += 1
        return values.COUNTER[0]

    def schema(self, name, fn):
        """fn(term) -> facts, of every application of the function (the same ones each time)."""
        known = {}

        def facts(t):
            k = t.get_id()
            if k not in known:
                known[k] = (t, fn(t))
            return known[k][1]
        fns = self.schemas.setdefault(name, [])
        n = len(fns)
        fns.append(facts)
        self.log(lambda: fns.__delitem__(slice(n, None)))

    def is_index(self, t):
        if z3.is_const(t):
            return t.decl().name() in T.INDEX
        return z3.is_app(t) and t.decl().name().startswith("Index_")

    def search_facts(self, cands, done):
        return []

    # -------------------------------------------------------------- assumptions
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        n = len(self.pc)
        self.pc.append(c)
        self.log(lambda: self.pc.__delitem__(slice(n, None)))

    def implied(self, c):
        """Assumes what follows from the facts in force (kept as a lemma)."""
        k = len(self.pc)
        self.assume(c)
        self.lemmas.add(k)
        self.log(lambda: self.lemmas.discard(k))

    def conditions(self, k):
        """The facts assumed since there were k of them, without implied ones."""
        return [c for j, c in enumerate(self.pc) if j >= k and j not in self.lemmas]

    def assume_all(self, fn, sort=None):
        """fn(index) -> fact, true for every index term (every term of a sort)."""
        import values
        n = len(self.foralls)
        values.NOFORK[0] += 1
        try:
            u = T.Forall(fn, sort)
        finally:
            values.NOFORK[0] -= 1
        self.foralls.append(u)
        self.log(lambda: self.foralls.__delitem__(slice(n, None)))

    def assume_nested(self, u):
        n = len(self.foralls)
        self.foralls.append(u)
        self.log(lambda: self.foralls.__delitem__(slice(n, None)))

    # -------------------------------------------------------------- queries
    def check(self, asserts, timeout=None, rounds=5):
        if self.deadline and time.time() > self.deadline:
            raise TooLong("time budget used up")
        f, pool = Query(self).facts(asserts, rounds)
        r, s = T._z3_check(list(asserts) + f, timeout or self.timeout_ms)
        return r, s, f, pool

    def feasible(self, cond):
        key = (tuple(c.get_id() for c in self.pc), cond.get_id(),
               tuple(id(u) for u in self.foralls))
        if key not in self.feas_cache:
            r, _, _, _ = self.check(self.pc + [cond], 1500, 4)
            # the terms are kept alive, so that their ids stay theirs
            self.feas_cache[key] = (r != z3.unsat, cond, list(self.pc), list(self.foralls))
        return self.feas_cache[key][0]

    def decide(self, cond, why=""):
        """Truth of cond on this path; forks when both are possible."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.feasible(cond):
            self.implied(z3.Not(cond))
            return False
        if not self.feasible(z3.Not(cond)):
            self.implied(cond)
            return True
        self.nofork()
        ex = self.explorers[-1]
        if ex.pos < len(ex.prefix):
            v = ex.prefix[ex.pos][0]
        else:
            v = True
            ex.prefix.append([True, False])
        ex.pos += 1
        self.assume(cond if v else z3.Not(cond))
        return v

    def choose(self, n):
        """A fork with n alternatives (both feasible by the caller's word).  Alternatives
        that name a witness come before the one that says there is none."""
        self.nofork()
        self.chosen += 1
        ex = self.explorers[-1]
        if ex.pos < len(ex.prefix):
            v = ex.prefix[ex.pos][0]
        else:
            v = 0
            ex.prefix.append([0, n])
        ex.pos += 1
        return v

    def nofork(self):
        import values
        if values.NOFORK[0]:
            raise Unsupported("element that depends on a case distinction")

    def explore(self, thunk, limit=600):
        """Runs thunk on every path; yields through collect what thunk returns.
        thunk's effects are undone after each path.  Returns [(conds, result)]."""
        out = []
        ex = Explorer(len(self.pc))
        self.ordinal[1] += 1
        ex.number = self.ordinal[1]
        ordinal = list(self.ordinal)
        self.explorers.append(ex)
        try:
            while True:
                mark, pcn = len(self.trail), len(self.pc)
                ex.pos = 0
                self.ordinal[:] = ordinal
                try:
                    r = thunk()
                    out.append((list(self.pc[pcn:]), r))
                except Infeasible:
                    pass
                finally:
                    self.rollback(mark)
                del ex.prefix[ex.pos:]
                while ex.prefix:
                    last = ex.prefix[-1]
                    if isinstance(last[0], bool):
                        if last[0]:
                            last[0] = False
                            break
                    elif last[0] + 1 < last[1]:
                        last[0] += 1
                        break
                    ex.prefix.pop()
                else:
                    break
                if len(out) > limit:
                    raise TooLong("more than %d paths" % limit)
        finally:
            self.explorers.pop()
            self.ordinal[:] = ordinal
        return out

    # -------------------------------------------------------------- proving
    def valid(self, goal, depth=0, timeout=None):
        """True when goal follows from the assumptions; otherwise (False, model or None)."""
        if isinstance(goal, bool):
            return (goal, None)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True, None
        asserts = self.pc + [z3.Not(goal)]
        if z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort() and \
                any(z3.is_div(t) for t in T.consts_of(goal)) and \
                ratio_equal(self, goal.arg(0), goal.arg(1)):
            return True, None
        r, s, f, pool = self.check(asserts, timeout)
        if r == z3.unsat:
            return True, None
        model = str(s.model())[:1500] if r == z3.sat else None
        if depth > 4:
            return False, model
        if z3.is_and(goal):
            for c in goal.children():
                ok, m = self.valid(c, depth, timeout)
                if not ok:
                    return False, m
            return True, None
        folds = [t for t in pool.values() if z3.is_app(t) and t.decl().name() in T.FOLDS]
        if depth >= 1:
            # below an obligation only the folds of the same kinds as its own matter
            kinds = {T.FOLDS[t.decl().name()].kind for t in T.consts_of(goal)
                     if z3.is_app(t) and t.decl().name() in T.FOLDS}
            folds = [t for t in folds if T.FOLDS[t.decl().name()].kind in kinds]
        if folds:
            lem = self.fold_lemmas(folds, depth)
            if lem:
                # lemmas may bring further instances
                r, s, f2, pool = self.check(asserts + lem, timeout)
                if r == z3.unsat:
                    return True, None
                if r == z3.sat:
                    model = str(s.model())[:1500]
            if z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort():
                if self.prove_linear(goal.arg(0) - goal.arg(1), lem, depth):
                    return True, None
            return False, None if model is None else "(abstract) " + model
        if r == z3.unknown:
            out = T._cvc5_check(list(asserts) + f, 8)
            if out == "unsat":
                return True, None
        return False, model

    def under(self, facts, fn):
        mark = len(self.trail)
        for x in facts:
            self.assume(x)
        try:
            return fn()
        finally:
            self.rollback(mark)

    def fold_lemmas(self, apps, depth):
        lem = []
        reps = []
        apps = sorted(apps, key=lambda t: t.get_id())
        for a in apps:
            f = T.FOLDS[a.decl().name()]
            n, _ = T.fold_at(a, f.var)
            base = 0 if f.kind == "sum" else 1
            lem.append(z3.Implies(n <= 0, a == base))
            for b in reps:
                g = T.FOLDS[b.decl().name()]
                if g.kind != f.kind:
                    continue
                if self.fold_equal(a, b, depth):
                    lem.append(a == b)
                    break
            else:
                reps.append(a)
        if self.prefixes:
            for x, a in enumerate(reps):
                f = T.FOLDS[a.decl().name()]
                j = fresh_index("j")
                n1, b1 = T.fold_at(a, j)
                for b in reps[:x]:
                    g = T.FOLDS[b.decl().name()]
                    if (f.kind, g.kind) != ("sum", "sum"):
                        continue
                    n2, b2 = T.fold_at(b, j)
                    if b1.get_id() != b2.get_id() and \
                            not self.under([j >= 0], lambda: self.valid(b1 == b2, depth + 3, 800))[0]:
                        continue
                    lem.append(z3.Implies(n1 == n2, a == b))
                    lem.append(z3.Implies(z3.And(n2 >= 0, n1 == n2 + 1), a == b + T.fold_at(b, n2)[1]))
                    lem.append(z3.Implies(z3.And(n1 >= 0, n2 == n1 + 1), b == a + T.fold_at(a, n1)[1]))
        if depth <= 2 and (self.foralls or any(
                z3.is_app(t) and t.decl().name() in T.FOLDS for t in T.consts_of(*self.pc))):
            for a in reps:
                f = T.FOLDS[a.decl().name()]
                j = fresh_index("j")
                n, body = T.fold_at(a, j)
                unit = 0 if f.kind == "sum" else 1
                ok, _ = self.under([j >= 0, j < n], lambda: self.valid(body == unit, depth + 2, 800))
                if ok:
                    lem.append(a == unit)
        if self.lemma_positive:
            for a in reps:
                f = T.FOLDS[a.decl().name()]
                j = fresh_index("j")
                n, body = T.fold_at(a, j)
                if f.kind == "sum":
                    ok, _ = self.under([j >= 0, j < n], lambda: self.valid(body >= 0, depth + 2, 800))
                    if ok:
                        lem.append(a >= 0)
                        self_a = a
                        for c in consts_of(*self.pc):
                            if c.sort() == z3.IntSort() and self.is_index(c):
                                n2, b2 = T.fold_at(self_a, c)
                                lem.append(z3.Implies(z3.And(c >= 0, c < n2), a >= b2))
                else:
                    ok, _ = self.under([j >= 0, j < n], lambda: self.valid(body > 0, depth + 2, 800))
                    if ok:
                        lem.append(a > 0)
        return lem

    # relate the sums of the first m and m + 1 of the same numbers
    prefixes = False

    def fold_equal(self, a, b, depth):
        j = fresh_index("j")
        n1, b1 = T.fold_at(a, j)
        n2, b2 = T.fold_at(b, j)
        if n1.get_id() != n2.get_id():
            ok, _ = self.valid(n1 == n2, depth + 2, 1500)
            if not ok:
                return False
        ok, _ = self.under([j >= 0, j < n1], lambda: self.valid(b1 == b2, depth + 1, 3000))
        return ok

    # sums are linear: sum_k c_k*Sum_i b_k(i) == 0 if for all i sum_k c_k*b_k(i) == 0
    def prove_linear(self, diff, lem, depth, split=False):
        conds = []
        for t in _outer(diff):
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                conds.append(t.arg(0))
        if conds:
            c = conds[0]
            res = True
            for val, tv in ((c, z3.BoolVal(True)), (z3.Not(c), z3.BoolVal(False))):
                if not self.feasible(val):
                    continue
                d = z3.substitute(diff, (c, tv))
                d = _simp_ite(d)
                if not self.under([val], lambda: self.prove_linear(d, lem, depth, True)):
                    res = False
                    break
            return res
        p = poly(diff)
        groups, rest = {}, {}
        for mono, coef in p.items():
            fs = [a for a in mono if a[1].decl().name() in T.FOLDS
                  and T.FOLDS[a[1].decl().name()].kind == "sum"] if mono else []
            if len(fs) == 1:
                app = fs[0][1]
                n, _ = T.fold_at(app, z3.IntVal(0))
                key = z3.simplify(n).sexpr()
                others = list(mono)
                others.remove(fs[0])
                groups.setdefault(key, []).append((coef, others, app, n))
            else:
                rest[mono] = coef
        goals = []
        for key, parts in groups.items():
            j = fresh_index("j")
            tot = z3.RealVal(0)
            for coef, others, app, n in parts:
                t = z3.Q(coef.numerator, coef.denominator)*T.fold_at(app, j)[1]
                for o in others:
                    t = t*o[1]
                tot = tot + t
            goals.append(([j >= 0, j < parts[0][3]], tot == 0))
        r = z3.RealVal(0)
        for mono, coef in rest.items():
            t = z3.Q(coef.numerator, coef.denominator)
            for o in mono:
                t = t*o[1]
            r = r + t
        goals.append(([], r == 0))
        if not groups:
            r_, _, _, _ = self.check(self.pc + lem + [diff != 0])
            if r_ == z3.unsat:
                return True
        for facts, g in goals:
            ok, _ = self.under(facts, lambda: self.valid(g, depth + 1, 4000))
            if not ok:
                break
        else:
            return True
        if depth > 2 or not split:
            return False
        # sums that are equal only in this case
        folds = [t for t in T.consts_of(diff, *self.pc)
                 if z3.is_app(t) and t.decl().name() in T.FOLDS]
        lem2 = self.fold_lemmas(folds, depth + 1)
        if not lem2:
            return False
        r_, _, _, _ = self.check(self.pc + lem + lem2 + [diff != 0])
        return r_ == z3.unsat

    def prove(self, goal, label):
        t0 = time.time()
        try:
            ok, model = self.valid(goal)
            status = "proved" if ok else ("refuted" if model else "unknown")
        except TooLong:
            ok, model, status = False, "time budget", "unknown"
        self.results.append((label, status, "" if ok else (model or "")[:1200], time.time() - t0))
        return ok

    def fail(self, label, info):
        """A path that the contract forbids is feasible."""
        self.results.append((label, "refuted" if self.sat_pc() else "unknown", info, 0.0))

    def sat_pc(self):
        r, _, _, _ = self.check(list(self.pc) or [z3.BoolVal(True)])
        return r == z3.sat


def _outer(t):
    """Subterms not below a fold."""
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        if z3.is_app(x) and x.decl().name() in T.FOLDS:
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            continue
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            stack.append(x.arg(1))
            stack.append(x.arg(2))
            continue
        stack.extend(x.children())
    return out


def _simp_ite(t):
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = z3.simplify(x.arg(0))
            if z3.is_true(c):
                r = go(x.arg(1))
            elif z3.is_false(c):
                r = go(x.arg(2))
            else:
                r = z3.If(x.arg(0), go(x.arg(1)), go(x.arg(2)))
        elif z3.is_app(x) and x.num_args() and x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            ch = [go(c) for c in x.children()]
            r = x.decl()(*ch) if not (z3.is_add(x) or z3.is_mul(x) or z3.is_and(x) or z3.is_or(x)) \
                else (z3.Sum(ch) if z3.is_add(x) else z3.Product(ch) if z3.is_mul(x)
                      else z3.And(*ch) if z3.is_and(x) else z3.Or(*ch))
        else:
            r = x
        memo[k] = r
        return r
    return go(t)


class _Atom(tuple):
    pass


def poly(t):
    """{monomial (sorted tuple of (id, term)): Fraction} of a real term."""
    from fractions import Fraction as Fr
    if z3.is_rational_value(t):
        f = t.as_fraction()
        f = Fr(f.numerator, f.denominator)
        return {(): f} if f else {}
    if z3.is_int_value(t):
        v = Fr(t.as_long())
        return {(): v} if v else {}
    if z3.is_add(t):
        out = {}
        for c in t.children():
            for m, k in poly(c).items():
                out[m] = out.get(m, 0) + k
        return {m: k for m, k in out.items() if k}
    if z3.is_sub(t):
        ch = t.children()
        out = dict(poly(ch[0]))
        for c in ch[1:]:
            for m, k in poly(c).items():
                out[m] = out.get(m, 0) - k
        return {m: k for m, k in out.items() if k}
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return {m: -k for m, k in poly(t.arg(0)).items()}
    if z3.is_mul(t):
        out = {(): Fr(1)}
        for c in t.children():
            p = poly(c)
            nxt = {}
            for m1, k1 in out.items():
                for m2, k2 in p.items():
                    m = tuple(sorted(m1 + m2, key=lambda a: a[0]))
                    nxt[m] = nxt.get(m, 0) + k1*k2
            out = nxt
        return {m: k for m, k in out.items() if k}
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL) and z3.is_int_value(t.arg(0)):
        v = Fr(t.arg(0).as_long())
        return {(): v} if v else {}
    if z3.is_div(t):
        d = z3.simplify(t.arg(1))
        if z3.is_rational_value(d) and d.as_fraction() != 0:
            f = d.as_fraction()
            return {m: k/Fr(f.numerator, f.denominator) for m, k in poly(t.arg(0)).items()}
    return {((t.get_id(), t),): __import__("fractions").Fraction(1)}


# ------------------------------------------------------------------ rational functions
class _Ratio(object):
    """A real term as a quotient of polynomials over atoms; arguments of applications
    are compared as quotients, too."""

    def __init__(self):
        self.atoms = []           # (decl or None, [args as quotients], term)
        self.dens = {}            # id -> denominator that must not be zero
        self.memo = {}

    def atom(self, t):
        args = []
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                all(a.sort() == z3.RealSort() for a in t.children()):
            args = [self.of(a) for a in t.children()]
        for k, (d, x, u) in enumerate(self.atoms):
            if u.get_id() == t.get_id():
                return k
            if args and d is not None and d.eq(t.decl()) and len(x) == len(args) and \
                    all(self.same(p, q) for p, q in zip(x, args)):
                return k
        self.atoms.append((t.decl() if args else None, args, t))
        return len(self.atoms) - 1

    @staticmethod
    def mul(p, q):
        out = {}
        for m1, k1 in p.items():
            for m2, k2 in q.items():
                m = tuple(sorted(m1 + m2))
                out[m] = out.get(m, 0) + k1*k2
        if len(out) > 4000:
            raise Unsupported("large polynomial")
        return {m: k for m, k in out.items() if k}

    @staticmethod
    def add(p, q, c=1):
        out = dict(p)
        for m, k in q.items():
            out[m] = out.get(m, 0) + c*k
        return {m: k for m, k in out.items() if k}

    def same(self, a, b):
        return not self.add(self.mul(a[0], b[1]), self.mul(b[0], a[1]), -1)

    def of(self, t):
        r = self.memo.get(t.get_id())
        if r is None:
            r = self.memo[t.get_id()] = self._of(t)
        return r

    def _of(self, t):
        from fractions import Fraction as Fr
        one = {(): Fr(1)}
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else Fr(t.as_long())
            return ({(): Fr(f.numerator, f.denominator)} if f else {}), one
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            p, q = self.of(t.arg(0))
            return {m: -k for m, k in p.items()}, q
        if z3.is_add(t) or z3.is_sub(t):
            p, q = self.of(t.arg(0))
            for c in t.children()[1:]:
                r, s = self.of(c)
                sg = 1 if z3.is_add(t) else -1
                if q == s:
                    p = self.add(p, r, sg)
                else:
                    p, q = self.add(self.mul(p, s), self.mul(r, q), sg), self.mul(q, s)
            return p, q
        if z3.is_mul(t):
            p, q = one, one
            for c in t.children():
                r, s = self.of(c)
                p, q = self.mul(p, r), self.mul(q, s)
            return p, q
        if z3.is_div(t):
            self.dens[t.arg(1).get_id()] = t.arg(1)
            (p, q), (r, s) = self.of(t.arg(0)), self.of(t.arg(1))
            if not r:
                raise Unsupported("division by zero")
            return self.mul(p, s), self.mul(q, r)
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL) and z3.is_int_value(t.arg(0)):
            return {(): Fr(t.arg(0).as_long())}, one
        return {(((self.atom(t)),)): Fr(1)}, one


def ratio_equal(session, a, b):
    """a == b as quotients of polynomials whose denominators are not zero."""
    R = _Ratio()
    try:
        if not R.same(R.of(a), R.of(b)):
            return False
    except (Unsupported, ZeroDivisionError):
        return False
    for d in R.dens.values():
        s = z3.simplify(d != 0)
        if z3.is_true(s):
            continue
        if session.feasible(d == 0):
            return False
    return True
