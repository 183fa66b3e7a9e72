"""Contracts on the parser: stoichiometry matrices, energies of states."""
import z3

import net
from net import *             # noqa
import terms as T
from terms import real, integer, make_fold, fresh_index
from values import *          # noqa

PB = "scaks/parsers/parser_base.py"


def joined(A, B):
    """Element c of the concatenation of two name lists."""
    return lambda c: z3.If(c < A.n, A.name(c), B.name(c - A.n))


def net_coefficient(i, name):
    """Sum over the first state minus sum over the last state of the coefficients of the
    formulas with that text."""
    k = fresh_index("k")
    first = make_fold("sum", nf(i, 0), k, z3.If(ss(i, 0, k) == name, real(stoich(i, 0, k)), z3.RealVal(0)))
    last = nst(i) - 1
    k2 = fresh_index("k")
    fin = make_fold("sum", nf(i, last), k2, z3.If(ss(i, last, k2) == name,
                                                  real(stoich(i, last, k2)), z3.RealVal(0)))
    return first - fin


def c05(P):
    def run(U):
        I = U.I
        net.base_facts(I)
        o = net.Owner(I)
        p = I.obj(net.cls(PB, "ParserBase"), {"_owner": o.obj})
        r = U.method(p, "get_stoichiometry_matrices")
        site, rea = I.unpack(r, 2)
        for m, A, B, nm in ((site, SITES, ADS, "site matrix"), (rea, GAS, LIQ, "gas matrix")):
            U.prove(z3.And(integer(m.rows) == NR, integer(m.cols) == A.n + B.n), nm + " shape")
            i, c = fresh_index("row"), fresh_index("col")
            mark = len(U.s.trail)
            U.s.assume(z3.And(i >= 0, i < NR, c >= 0, c < A.n + B.n))
            U.prove(I.mat_read(m, i, c) == net_coefficient(i, joined(A, B)(c)), nm + " entries")
            U.s.rollback(mark)
    P.unit("ParserBase.get_stoichiometry_matrices", run, net.contracts(),
           expect=["site matrix shape", "site matrix entries", "gas matrix shape",
                   "gas matrix entries"])


PROPS = {"C05": c05}
