"""prove.py PROPERTY [--tier quick|thorough] [--verbose]: generates and discharges the
obligations of the contracts behind one property from /repo's current source.
The last line of standard output is the result as JSON."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import z3                                                     # noqa

import terms as T                                             # noqa
from session import Session, Unsupported, TooLong, Infeasible # noqa
from interp import Interp, ReturnEx                           # noqa
from values import PyRaise, VFunc                             # noqa
import source                                                 # noqa

SPECS = ["specs_net", "specs_energy", "specs_rates", "specs_util", "specs_kmc", "specs_text", "specs_parse",
         "specs_model", "specs_settings", "specs_memo", "specs_formula", "specs_sym", "specs_jac", "specs_symj", "specs_total"]


JOBS = min(6, os.cpu_count() or 1)


class Goal(object):
    def __init__(self, label):
        self.label, self.proved, self.bad, self.unknown = label, 0, [], []


class Prover(object):
    """Collects the obligations of one property."""

    def __init__(self, prop, tier, verbose):
        self.prop, self.tier, self.verbose = prop, tier, verbose
        self.goals = {}
        self.functions, self.assumed, self.modelled = set(), set(), set()
        self.assumptions, self.bounded = [], []
        self.running = {}
        self.t_end = time.time() + (110 if tier == "quick" else 540)*T.SLOW

    def goal(self, label):
        return self.goals.setdefault(label, Goal(label))

    def assumption(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def unit(self, name, thunk, *a, **k):
        """Runs thunk(U) on every path, in a process of its own."""
        if self.verbose:
            self.run_unit(name, thunk, *a, **k)
            return
        while len(self.running) >= JOBS:
            self.reap()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                self.goals = {}
                self.functions, self.assumed, self.modelled = set(), set(), set()
                T.STATS.time, T.STATS.calls = 0.0, {}
                self.run_unit(name, thunk, *a, **k)
                out = dict(goals=[(g.label, g.proved, g.bad[:1], g.unknown[:1])
                                  for g in self.goals.values()],
                           sets=[sorted(x) for x in (self.functions, self.assumed, self.modelled)],
                           time=T.STATS.time, calls=T.STATS.calls)
                with os.fdopen(w, "w") as f:
                    f.write(json.dumps(out))
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        self.running[pid] = (r, name)

    def reap(self):
        """Collects one finished unit."""
        import select
        ready, _, _ = select.select([r for r, _ in self.running.values()], [], [])
        pid = [p for p, (r, _) in self.running.items() if r == ready[0]][0]
        r, name = self.running.pop(pid)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        try:
            d = json.loads(text)
        except ValueError:
            self.goal(name + ": within the subset").unknown.append("engine: the unit's process ended")
            return
        for label, proved, bad, unknown in d["goals"]:
            g = self.goal(label)
            g.proved += proved
            g.bad += bad
            g.unknown += unknown
        for mine, got in zip((self.functions, self.assumed, self.modelled), d["sets"]):
            mine |= set(got)
        T.STATS.time += d["time"]
        for k, v in d["calls"].items():
            T.STATS.calls[k] = T.STATS.calls.get(k, 0) + v

    def run_unit(self, name, thunk, contracts=None, externals=None, timeout=6000, expect=()):
        """Runs thunk(U) on every path.  expect: labels that must be reached."""
        s = Session(timeout_ms=timeout, deadline=min(self.t_end, time.time() + 200*T.SLOW))
        I = Interp(s, contracts, externals)
        U = Unit(self, name, s, I)
        for l in expect:
            self.goal(name + ": " + l)
        try:
            def run():
                try:
                    thunk(U)
                except PyRaise as e:
                    U.fail("no exception escapes", "%s %s" % (e.name, e.msg))
                except ReturnEx:
                    raise Unsupported("stray return")
                return True
            s.explore(run)
        except (Unsupported, TooLong) as e:
            self.goal(name + ": within the subset").unknown.append(str(e))
            if self.verbose:
                traceback.print_exc(limit=-60)
        except (KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError,
                NotImplementedError, RecursionError, z3.Z3Exception, ZeroDivisionError) as e:
            self.goal(name + ": within the subset").unknown.append("engine: %r" % (e,))
            if self.verbose:
                traceback.print_exc(limit=-60)
        self.functions |= I.used
        self.assumed |= I.assumed
        self.modelled |= I.modelled
        # vacuity: every expected obligation is met on some consistent path
        for l in expect:
            g = self.goal(name + ": " + l)
            if not g.proved and not g.bad and not g.unknown:
                g.unknown.append("no path reaches this obligation")

    def report(self):
        while self.running:
            self.reap()
        out = []
        disc, refuted, undecided = 0, [], []
        for g in self.goals.values():
            if g.bad:
                refuted.append(dict(obligation=g.label, info=g.bad[0][:1500]))
            elif g.unknown:
                undecided.append(dict(obligation=g.label, reason=g.unknown[0][:600]))
            else:
                disc += 1
        n = len(self.goals)
        if n == 0:
            undecided.append(dict(obligation="-", reason="no obligation was generated"))
        return dict(property=self.prop, obligations=n, discharged=disc,
                    functions=sorted(self.functions), refuted=refuted, undecided=undecided,
                    names=sorted(self.goals),
                    assumptions=self.assumptions +
                    ["contract assumed at call sites: " + a for a in sorted(self.assumed)] +
                    ["library model assumed: " + a for a in sorted(self.modelled)],
                    trusted_base=["pyvc (verification condition generator in /verif/pyvc)",
                                  "z3 %s" % z3.get_version_string(), "cvc5",
                                  "CPython ast module"],
                    backends={k: v for k, v in T.STATS.calls.items()},
                    solver_s=round(T.STATS.time, 2), bounded=self.bounded)


class Unit(object):
    """What a contract sees on one path."""

    def __init__(self, P, name, s, I):
        self.P, self.name, self.s, self.I = P, name, s, I

    def prove(self, goal, label):
        """Obligation: goal holds here."""
        g = self.P.goal(self.name + ": " + label)
        if not self._live():
            return
        t0 = time.time()
        try:
            if isinstance(goal, bool):
                ok, model = goal, None
                if not ok:
                    model = self._model()
            else:
                ok, model = self.s.valid(goal)
        except Unsupported as e:
            g.unknown.append(str(e))
            return
        if ok:
            g.proved += 1
        elif model and not model.startswith("(abstract)"):
            g.bad.append(model)
        else:
            g.unknown.append("not proved%s" % (" " + model if model else ""))
        if self.P.verbose:
            print("%-8s %5.1fs %s" % ("ok" if ok else "FAIL", time.time() - t0, g.label))
            if not ok:
                print("    ", (model or "")[:600])

    def never(self, fact, label):
        """Obligation: fact(i) does not hold for every i (here, where something is reached)."""
        g = self.P.goal(self.name + ": " + label)
        if not self._live():
            return
        mark = len(self.s.trail)
        try:
            self.s.assume_all(fact)
            r = self.s.check(list(self.s.pc) or [z3.BoolVal(True)])[0]
        finally:
            self.s.rollback(mark)
        if r == z3.unsat:
            g.proved += 1
        else:
            g.unknown.append("not proved")
        if self.P.verbose:
            print("ok" if r == z3.unsat else "FAIL", g.label)

    def forall(self, n, fn, label, name="q"):
        """Obligation: fn(i) holds for every i in [0, n)."""
        i = T.fresh_index(name)
        mark = len(self.s.trail)
        self.s.assume(z3.And(i >= 0, i < T.integer(n)))
        try:
            self.prove(fn(i), label)
        finally:
            self.s.rollback(mark)

    def each(self, n, fn, name="q"):
        """fn(i) states obligations for an arbitrary i in [0, n), case by case."""
        i = T.fresh_index(name)

        def run():
            self.s.assume(z3.And(i >= 0, i < T.integer(n)))
            if self._live():
                fn(i)
        self.s.explore(run)

    def fail(self, label, info):
        """Reaching this point breaks the contract."""
        g = self.P.goal(self.name + ": " + label)
        r, s, _, _ = self.s.check(list(self.s.pc) or [z3.BoolVal(True)])
        if r == z3.unsat:
            return
        if r == z3.sat and not any(t.decl().name() in T.FOLDS for t in T.consts_of(*self.s.pc)
                                   if z3.is_app(t)):
            g.bad.append(info + " when " + str(s.model())[:900])
        else:
            g.unknown.append(info)
        if self.P.verbose:
            print("FAIL", g.label, info)

    def _live(self):
        r, _, _, _ = self.s.check(list(self.s.pc) or [z3.BoolVal(True)], 2000)
        return r != z3.unsat

    def _model(self):
        r, s, _, _ = self.s.check(list(self.s.pc) or [z3.BoolVal(True)])
        return str(s.model())[:900] if r == z3.sat else None

    @staticmethod
    def plain(node):
        """Only decorators whose effect is known."""
        for d in node.decorator_list:
            if Interp.dec_name(d) not in ("staticmethod", "Property", "property", "Memoized",
                                          "return_deepcopy", "wraps"):
                raise Unsupported("decorator %s" % Interp.dec_name(d))

    def function(self, path, qual):
        """VFunc of a function or method of the repository."""
        if "." in qual:
            c, m = qual.split(".")
            ci = source.get_class(path, c)
            k, node = ci.lookup(m)
            self.plain(node)
            return VFunc(node, k.module, k)
        r = source.Module.get(path).find(qual)
        if r[2].decorator_list:
            raise Unsupported("decorated function " + qual)
        return VFunc(r[2], r[1])

    def method(self, obj, name, args=(), kwargs=None):
        """Runs the source of a method, even when callers use its contract."""
        r = obj.cls.lookup(name)
        if r is None and name.startswith("_") and "__" in name:
            r = obj.cls.lookup("__" + name.split("__", 1)[1])
        if r is None:
            raise Unsupported("no method " + name)
        c, node = r
        self.plain(node)
        f = VFunc(node, c.module, c, bound=obj)
        return self.I.run_function(f, list(args), kwargs or {})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    P = Prover(a.prop, a.tier, a.verbose)
    found = False
    for m in SPECS:
        if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
            continue
        mod = importlib.import_module(m)
        if a.prop in mod.PROPS:
            found = True
            try:
                mod.PROPS[a.prop](P)
            except Exception as e:                            # noqa
                if a.verbose:
                    traceback.print_exc(limit=-60)
                P.goal("contracts of %s" % a.prop).unknown.append("engine: %r" % (e,))
    r = P.report()
    r["has_contracts"] = found
    if a.verbose:
        for k, g in sorted(P.goals.items()):
            print("  %-4s %s  (%d paths)%s" % ("ok" if g.proved and not g.bad and not g.unknown else
                                             "??", k, g.proved, (" " + str(g.bad + g.unknown)[:300])
                                             if g.bad or g.unknown else ""))
    print(json.dumps(r))


if __name__ == "__main__":
    main()
