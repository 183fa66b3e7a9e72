"""Contracts on the total reaction equation (C37)."""
import ast

import z3

import net
from net import *             # noqa
import terms as T
from terms import real, integer, fresh_index, make_fold
from values import *          # noqa
from values import subst
from session import Unsupported
import source
from interp import PyRaise, Env, is_intish
from session import Infeasible
from specs_net import PB

nu_s = z3.Function("nu_sites", I_, I_, R_)
nu = z3.Function("nu", I_, I_, R_)
w_ = z3.Function("combination", I_, R_)
KIND = "ValueError", "", ("Exception", "BaseException")


# ------------------------------------------------------------------ numpy.linalg
def svd(I, a, k):
    """Singular values in falling order; the rows of vh after the rank are a basis of the
    kernel (full_matrices)."""
    names = ["a", "full_matrices", "compute_uv"]
    v = dict(full_matrices=True, compute_uv=True)
    v.update(zip(names, a))
    v.update(k)
    if set(v) != set(names) or not v["compute_uv"] or not v["full_matrices"] or not isinstance(v["a"], SMatrix):
        raise Unsupported("svd")
    m = v["a"]
    r, c = fresh_index("row"), fresh_index("col")
    ok = z3.And(integer(m.rows) == SITES.n + ADS.n, integer(m.cols) == NR, z3.Implies(
        z3.And(c >= 0, c < NR, r >= 0, r < SITES.n + ADS.n), I.mat_read(m, r, c) == nu_s(c, r)))
    if not I.s.valid(ok)[0]:
        raise Unsupported("kernel of another matrix")
    return Opq(Spec("u")), Opq(SINGULAR), Opq(VH)


def s_cmp(I, o, args, kwargs):
    op, a, b = args
    if isinstance(op, ast.Gt) and a is o or isinstance(op, ast.Lt) and b is o:
        e = b if a is o else a
        if isinstance(e, (int, float)) and 0 < e <= 1e-6:
            return Opq(POSITIVE)
    raise Unsupported("comparison of singular values")


SINGULAR = Spec("singular values", methods={"__order__": s_cmp})
POSITIVE = Spec("positive singular values")
RANK = Spec("rank")


def count(I, a, k):
    if len(a) == 1 and not k and isinstance(a[0], Opq) and a[0].spec is POSITIVE:
        return Opq(RANK)
    raise Unsupported("count_nonzero")


def vh_item(I, o, idx):
    if isinstance(idx, slice) and isinstance(idx.start, Opq) and idx.start.spec is RANK and \
            idx.stop is None and idx.step is None:
        return Opq(KERNEL)
    raise Unsupported("rows of vh")


VH = Spec("vh", getitem=vh_item)
STATE = {}


def kernel_rows(I, o, a, k):
    d, first = STATE["dim"], STATE["first"]
    return I.new(SList(GSeq(d, lambda r: I.new(SList(GSeq(NR, lambda i, r=r: first(integer(r), integer(i)), "row",
                                                          open_=False))), "kernel", open_=False)))


def k_any(I, o, a, k):
    return STATE["dim"] > 0               # (the rows are unit vectors)


KERNEL = Spec("kernel rows", methods={"tolist": kernel_rows, "any": k_any})
KERNEL_T = Spec("kernel columns", methods={"any": k_any})
KERNEL.attrs["T"] = lambda I, o: Opq(KERNEL_T)
KERNEL_T.attrs["T"] = lambda I, o: Opq(KERNEL)

EXT = {"numpy.linalg": Namespace("numpy.linalg", {"svd": Builtin(svd, "svd")}),
       "numpy.count_nonzero": Builtin(count, "count_nonzero")}


def helper():
    """The local function that turns numbers into integers: the one with limit_denominator."""
    ci = net.cls(PB, "ParserBase")
    has = lambda n: any(isinstance(x, ast.Attribute) and x.attr == "limit_denominator" for x in ast.walk(n))
    found = [n for n in ast.walk(ci.node) if isinstance(n, ast.FunctionDef) and has(n) and not any(
        isinstance(x, ast.FunctionDef) and x is not n and has(x) for x in ast.walk(n))]
    local = len(found) == 1 and found[0] not in ci.node.body and len(found[0].args.args) == 1
    return ci, (found[0] if local else None)


def c37(P):
    P.assumption("numpy's singular values and vectors are exact: those above 1e-10 are the positive ones")
    P.assumption("the ratios are fractions of whole numbers up to 1000, and no number is between 0 and 1e-10 "
                 "(part of the statement)")
    P.assumption("check_conservation is C03; a combination of balanced reactions that cancels every site and "
                 "adsorbate is balanced")
    ci, node = helper()
    con = net.contracts()
    con["ParserBase.get_stoichiometry_matrices"] = lambda I, self, a, k: (
        I.new(SMatrix(NR, SITES.n + ADS.n, lambda i, c: nu_s(integer(i), integer(c)), (), "np")),
        I.new(SMatrix(NR, GAS.n + LIQ.n, lambda i, c: nu(integer(i), integer(c)), (), "np")))
    checked, calls = [], []

    def c_integers(I, self, a, k):
        """Whole numbers in the same ratios."""
        v = a[0]
        if not STATE["some"] and I.s.choose(2):
            raise PyRaise(*KIND)
        n = I.length(v)
        lam = z3.Real(T.fresh_name("lam"))
        I.s.assume(lam > 0)
        at = general(lambda: real(I.seq_at(v, KV)))
        calls.append((n, at, lam))
        if len(calls) == 1:
            return I.new(SList(GSeq(n, lambda i: lam*subst(at, [(KV, integer(i))]), "whole", open_=False)))
        if STATE["cut"]:
            (n1, at1, lam1), (n2, at2, lam2) = calls
            STATE["cut"](n2, at2, lam1)
            raise Infeasible()
        t = z3.Function(T.fresh_name("whole"), I_, I_)
        STATE["whole"] = (t, lam, at)
        I.s.assume_all(lambda i: z3.Implies(z3.And(i >= 0, i < integer(n)),
                                            real(t(i)) == lam*subst(at, [(KV, i)])))
        return I.new(SList(GSeq(n, lambda i: t(integer(i)), "wholes", open_=False)))
    if node is not None:
        con[PB + ":<local>." + node.name] = c_integers

    def c_check(I, self, a, k):
        checked.append(self.attrs["_RxnEquation__rxn_equation"])
        if I.s.choose(2):
            raise PyRaise(*KIND)
        return True
    con["RxnEquation.check_conservation"] = c_check
    con["RxnEquation"] = lambda I, self, a, k: I.new(VObj(net.cls(net.RXN, "RxnEquation"), {
        "_RxnEquation__rxn_equation": a[0] if a else k["rxn_equation"]}, None))

    if node is not None:
        integers_unit(P, ci, node)

    def run(U, only, side=None, cut=False):
        I, s = U.I, U.s
        net.base_facts(I)
        del checked[:], calls[:]
        dim, c = z3.Int("dim"), z3.Real("c")
        s.assume(dim >= 0)
        v = z3.Function("kernel", I_, I_, R_)
        if only:
            # one combination, every reaction forward
            s.assume(z3.And(dim == 1, NR > 0))
            s.assume_all(lambda i: z3.Implies(z3.And(i >= 0, i < NR), w_(i) > 0))
            s.assume(c != 0)

            def coefficients(n, at, lam):
                U.prove(integer(n) == GAS.n + LIQ.n, "one coefficient per gas and liquid")

                def one(i):
                    k = fresh_index("k")
                    sz = c if I.decide(c > 0) else -c
                    U.prove(subst(at, [(KV, i)]) == lam*sz*make_fold("sum", NR, k, w_(k)*nu(k, i)),
                            "coefficients are those of the combination")
                U.each(GAS.n + LIQ.n, one)
            STATE.update(dim=dim, some=True, cut=coefficients if cut else None, first=lambda r, i: c*w_(i))
        else:
            STATE.update(dim=dim, some=False, cut=None, first=lambda r, i: v(r, i))
        o = net.Owner(I)
        p = I.obj(net.cls(PB, "ParserBase"), {"_owner": o.obj})
        try:
            r = U.method(p, "get_total_rxn_equation")
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "ValueError"), "ValueError or an equation")
            if only:
                U.prove(z3.BoolVal(len(checked) == 1), "an equation is made of a single combination")
            return
        if only:
            return
        U.prove(z3.BoolVal(len(checked) == 1) if len(checked) != 1 else same(I, checked[0], r),
                "the equation returned is balanced")
        t, lam, at = STATE["whole"]
        if side:
            sides(U, r, t, side)
    name = "ParserBase.get_total_rxn_equation"
    P.unit(name + "(one combination)", lambda U: run(U, True), con, EXT, expect=[
        "ValueError or an equation", "an equation is made of a single combination"])
    P.unit(name + "(its coefficients)", lambda U: run(U, True, cut=True), con, EXT, expect=[
        "one coefficient per gas and liquid", "coefficients are those of the combination"])
    for side in ("reactants", "products"):
        P.unit("%s(%s)" % (name, side), lambda U, side=side: run(U, False, side), con, EXT, expect=[
            "ValueError or an equation", "the equation returned is balanced", "no species is left out",
            "joined by plus signs in order", "only species of this side", "every species of this side once",
            "coefficient and name", "nothing else on a side"])


KV = z3.Int("number!at")
den = z3.Function("denominator", R_, I_)
top = z3.Function("numerator", R_, I_)
T.schema("denominator", lambda a: [a >= 1, a.arg(0)*real(a) == real(top(a.arg(0)))])
num_ = z3.Function("number", I_, R_)


def limit(I, o, a, k):
    if len(a) + len(k) != 1 or not isinstance((a + list(k.values()))[0], int) or (a + list(k.values()))[0] < 1000:
        raise Unsupported("limit_denominator")
    t = real(o)
    at = lambda x: [y for y in T.consts_of(x) if z3.is_app(y) and y.decl().name() == "number"]
    if z3.is_div(t) and any(I.s.valid(t.arg(0) == y)[0] for y in at(t.arg(0))) and any(
            I.s.valid(z3.Or(t.arg(1) == y, t.arg(1) == -y))[0] for y in at(t.arg(1))):
        return t
    raise Unsupported("limit_denominator of a number that is no ratio of two of the numbers")


def loop_contract(U, got):
    """for ratio in ratios: multiple *= ...: before iteration i the multiple of every earlier
    ratio is whole."""
    def handler(I, node, seq, env):
        s = I.s
        n = I.length(seq)
        names = {t.id for x in ast.walk(node) for t in ([x.target] if isinstance(x, ast.AugAssign) else
                 x.targets if isinstance(x, ast.Assign) else []) if isinstance(t, ast.Name)}
        for x in list(names):
            try:
                env.lookup(x)
            except KeyError:
                names.discard(x)
        if isinstance(n, int) or len(names) != 1 or got:
            return False
        name = names.pop()
        m0 = env.lookup(name)
        r = lambda j: real(I.seq_at(seq, j))
        if is_intish(general(lambda: I.seq_at(seq, KV))):
            # over positions: of the list of numbers that is read
            reads = {x.value.id for x in ast.walk(node) if isinstance(x, ast.Subscript) and
                     isinstance(x.value, ast.Name)}
            if len(reads) != 1:
                return False
            lst = env.lookup(reads.pop())
            if not I.s.valid(integer(I.length(lst)) == integer(n))[0]:
                return False
            r = lambda j: real(I.seq_at(lst, j))
        M, i = z3.Int(T.fresh_name("multiple")), fresh_index("i")
        w = z3.Function(T.fresh_name("whole"), I_, I_)
        U.prove(integer(m0) >= 1, "multiple is positive before the loop")
        s.assume(M >= 1)
        env.set(name, M)
        last = s.choose(2)
        end = integer(n) if last else i
        s.assume_all(lambda j: z3.Implies(z3.And(j >= 0, j < end), real(M)*r(j) == real(w(j))))
        if last:
            got.update(M=M, r=r, w=w)
            return True
        s.assume(z3.And(i >= 0, i < integer(n)))
        I.assign(node.target, I.seq_at(seq, i), env)
        I.block(node.body, env)
        m1 = integer(env.lookup(name))
        ds = [x for x in T.consts_of(m1) if z3.is_app(x) and x.decl().name() == "denominator"]
        U.prove(m1 >= 1, "multiple stays positive")
        j = fresh_index("j")
        U.s.under([j >= 0, j < i], lambda: U.prove(z3.Or([real(m1)*r(j) == real(d)*real(w(j)) for d in ds]),
                                                   "earlier ratios stay whole"))
        U.prove(z3.Or([real(m1)*r(i) == real(top(d.arg(0))) for d in ds]), "this ratio becomes whole")
        raise Infeasible()
    return handler


def integers_unit(P, ci, node):
    def run(U):
        I, s = U.I, U.s
        n = z3.Int("count")
        s.assume(n >= 0)
        got = {}
        I.invariant = loop_contract(U, got)
        f = VFunc(node, ci.module, None, Env(I, ci.module, None, None))
        try:
            r = I.call(f, [I.new(SList(GSeq(n, lambda i: num_(integer(i)), "numbers", open_=False)))], {})
        except PyRaise as e:
            U.prove(z3.BoolVal(e.name == "ValueError"), "ValueError only without numbers")
            U.forall(n, lambda i: z3.And(num_(i) <= z3.Q(1, 10**10), num_(i) >= -z3.Q(1, 10**10)),
                     "ValueError only without numbers")
            return
        M, ratio = got["M"], got["r"]
        U.prove(integer(I.length(r)) == n, "one whole number each")

        def one(i):
            x = I.seq_at(r, i)
            U.prove(z3.BoolVal(is_intish(x)), "whole numbers")
            v = real(M)*ratio(i)
            U.prove(v == real(got["w"](i)), "the multiple is whole")
            V = z3.Real("V")
            for y in T.consts_of(x):
                if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_TO_INT and not z3.is_app_of(
                        y.arg(0), z3.Z3_OP_UMINUS) and s.valid(y.arg(0) == v)[0]:
                    x = z3.substitute(x, (y.arg(0), V))
            goal = z3.Implies(V == real(z3.Int("W")), real(x) == V)
            if not z3.is_true(z3.simplify(goal)) and T.quick_valid(goal):
                goal = z3.BoolVal(True)
            U.prove(goal, "the multiple of the ratio")
            U.prove(z3.And(z3.Implies(num_(i) > 0, ratio(i) > 0), z3.Implies(num_(i) < 0, ratio(i) < 0),
                           z3.Implies(num_(i) == 0, ratio(i) == 0)), "signs are kept")
            j = fresh_index("j")
            U.s.under([j >= 0, j < n], lambda: U.prove(ratio(i)*num_(j) == ratio(j)*num_(i), "ratios are kept"))
        U.each(n, one)
    P.unit("ParserBase.get_total_rxn_equation.%s" % node.name, run, {}, dict(EXT, **{
        "fractions.Fraction": Builtin(lambda I, a, k: real(a[0]), "Fraction"),
        "number.limit_denominator": limit, "numberattr.denominator": lambda I, o: den(real(o))}), expect=[
            "multiple is positive before the loop", "multiple stays positive", "earlier ratios stay whole",
            "this ratio becomes whole", "ValueError only without numbers", "one whole number each",
            "whole numbers", "the multiple is whole", "the multiple of the ratio", "signs are kept", "ratios are kept"])


def same(I, a, b):
    x = I.text_eq(a, b)
    return z3.BoolVal(x) if isinstance(x, bool) else x


def sides(U, r, t, which):
    """Reactants: gases and liquids with a positive coefficient, in order; products: negative."""
    I = U.I
    ps = [p for p in parts_of(r)]
    cut = [k for k, p in enumerate(ps) if isinstance(p, str) and "->" in p]
    if len(cut) != 1 or ps[cut[0]] != " -> ":
        raise Unsupported("text of the total equation")
    for side, sign, name in ((ps[:cut[0]], 1, "reactants"), (ps[cut[0] + 1:], -1, "products")):
        if name != which:
            continue
        if any(p != " + " for p in side[1::2]) or not all(isinstance(p, FoldPart) for p in side[0::2]) or \
                side and len(side) % 2 == 0:
            raise Unsupported("text of the total equation")
        pieces = side[0::2]
        left = list(pieces)
        # the loop over both lists at once leaves one piece
        total = left[0] if len(left) == 1 and U.I.s.valid(integer(left[0].n) == GAS.n + LIQ.n, timeout=3000)[0] and \
            not U.I.s.valid(GAS.n*LIQ.n == 0, timeout=3000)[0] else None
        for N, off in ((GAS, z3.IntVal(0)), (LIQ, GAS.n)):
            on = lambda i: t(off + i) > 0 if sign > 0 else t(off + i) < 0
            if total is not None:
                left = [FoldPart(N.n, z3.IntVal(0), [], sep=total.sep)]
                cases = lambda i: [(c if c is True else subst(c, [(total.var, off + i)]),
                                    subst(x, [(total.var, off + i)])) for c, x in total.cases]
            else:
                cases = None
            if not left or not z3.simplify(integer(left[0].n)).eq(z3.simplify(N.n)):
                U.forall(N.n, lambda i: z3.Not(on(i)), "no species is left out")
                continue
            f = left.pop(0)
            if total is not None:
                U.prove(z3.BoolVal(True), "no species is left out")
            if cases is None:
                cases = lambda i, f=f: [(c if c is True else subst(c, [(f.var, i)]),
                                         subst(x, [(f.var, i)])) for c, x in f.cases]
            U.prove(z3.BoolVal(f.sep == " + "), "joined by plus signs in order")

            def one(i):
                hit = [x for c, x in cases(i) if c is True or I.decide(c)]
                if not I.decide(on(i)):
                    U.prove(z3.BoolVal(not hit), "only species of this side")
                    return
                U.prove(z3.BoolVal(len(hit) == 1), "every species of this side once")
                if len(hit) != 1:
                    return
                have = parts_of(hit[0])
                nm = N.name(i)
                if I.decide(sign*t(off + i) == 1):
                    want = [nm]
                else:
                    want = [sign*t(off + i), nm]
                ok = len(have) == len(want)
                goal = z3.And([z3.BoolVal(False) if not (z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort())
                               else x == y for x, y in zip(have, want)]) if ok else z3.BoolVal(False)
                U.prove(goal, "coefficient and name")
            U.each(N.n, one)
        U.prove(z3.BoolVal(not left), "nothing else on a side")


PROPS = {"C37": c37}
