"""exec and eval of generated text.

The text is a rope: literal pieces, printed integers, names, and repeated pieces.  Printed
integers and names become holes, a repeated "*x" becomes one factor (the product of the x),
a repeated " + x" one term (the sum), and a repeated line a loop; the remaining text is
parsed by CPython's own parser and interpreted in the caller's environment.  The rewriting
of a repeated piece is checked on the parse tree: the hole must be an operand of exactly
the operator that was folded.
"""
import ast

import z3

import terms as T
from terms import S, is_z3, real, integer, make_fold, fresh_index, lit_of
from session import Unsupported
from values import *          # noqa
from values import subst

USERFILE = "<user file>"


class Bad(Exception):
    pass


def user_text():
    return Opq(Spec(USERFILE, methods={}))


def run(I, mode, vals, env):
    text = vals[0]
    if isinstance(text, Opq) and text.spec.name == USERFILE:
        if mode != "exec" or len(vals) < 2 or not isinstance(vals[-1], SDict):
            raise Unsupported("exec of a user file in the local scope")
        for k, v in I.user_file.items():
            I.dict_set(vals[-1], k, v)
        return None
    if isinstance(text, Opq) and "eval" in text.spec.methods:
        return text.spec.methods["eval"](I, text, list(vals[1:]) + [env], {})
    if not is_text(text):
        raise Unsupported("%s of %r" % (mode, text))
    if len(vals) > 1:
        from interp import Env
        e2 = Env(I, env.module)
        for d in vals[1:]:
            if isinstance(d, Namespace) and "env" in d.members:
                e2.parent = env
                continue
            if not isinstance(d, SDict) or d.base is not None:
                raise Unsupported("%s in an unknown namespace" % mode)
            for L in d.layers:
                if L.binders or not isinstance(L.key[0], str):
                    raise Unsupported("%s in an unknown namespace" % mode)
                e2.vars[L.key[0]] = L.val
        if mode == "exec" and any(isinstance(d, SDict) for d in vals[1:]):
            raise Unsupported("exec with a namespace")
        env = e2 if mode == "eval" else env
    parts = []
    for p in parts_of(text):
        if is_z3(p) and p.sort() == S and lit_of(p) is not None:
            p = lit_of(p)
        parts.append(p)
    if mode == "eval":
        return evaluate(I, parts, env)
    exec_lines(I, parts, env)
    return None


def exec_lines(I, parts, env):
    """Statements, one per line; a repeated line is a loop."""
    cur = []
    todo = list(parts)

    def flush():
        if cur and not (len(cur) == 1 and isinstance(cur[0], str) and not cur[0].strip()):
            statements(I, list(cur), env)
        del cur[:]
    for k, p in enumerate(todo):
        if isinstance(p, str) and "\n" in p:
            bits = p.split("\n")
            if bits[0]:
                cur.append(bits[0])
            for b in bits[1:]:
                flush()
                if b:
                    cur.append(b)
            continue
        if isinstance(p, FoldPart) and is_lines(p):
            if any(not (isinstance(x, str) and not x.strip()) for x in cur):
                raise Unsupported("repeated lines after other text")
            nxt = todo[k + 1] if k + 1 < len(todo) else "\n"
            ends = p.sep != "\n" or p.sep is None
            if not ends and not (isinstance(nxt, str) and nxt.startswith("\n")):
                raise Unsupported("text after repeated lines")
            del cur[:]

            def body(i, p=p):
                pairs = [(p.var, i)]
                for c, r in p.cases:
                    if c is True or I.decide(subst(c, pairs)):
                        exec_lines(I, parts_of(subst(r, pairs)), env)
                        return
            I.generic(p.n, body)
            continue
        cur.append(p)
    flush()


def is_lines(p):
    if p.sep == "\n" and getattr(p, "joined", False):
        return True
    if p.sep:
        return False
    return all(parts_of(r) and isinstance(parts_of(r)[-1], str) and parts_of(r)[-1].endswith("\n")
               for _, r in p.cases)


def subst_parts(parts):
    return [z_lit(p) for p in parts]


def z_lit(p):
    if is_z3(p) and p.sort() == S and lit_of(p) is not None:
        return lit_of(p)
    return p


class Holes(object):
    def __init__(self, I, env):
        self.I, self.env = I, env
        self.vals, self.checks, self.texts = {}, {}, {}

    def new(self):
        return "__H%d__" % (len(self.vals) + len(self.texts))


def source_of(I, parts, H):
    """Python source with holes."""
    src = ""
    for p in [z_lit(x) for x in parts]:
        if isinstance(p, str):
            src += p
            continue
        quoted = inside_quotes(src)
        name = H.new()
        if isinstance(p, Code):
            if quoted:
                raise Unsupported("expression inside quotes")
            p.check(I, H.env)
            H.vals[name] = p.value
            H.checks[name] = "x" + p.prec
            src += name
            continue
        if quoted:
            if isinstance(p, FoldPart):
                raise Unsupported("repeated text inside quotes")
            if is_z3(p) and p.sort() == z3.RealSort():
                raise Unsupported("printed real inside quotes")
            H.texts[name] = p
            src += name
            continue
        if isinstance(p, FoldPart):
            op, val = fold_value(I, p, H)
            H.vals[name] = val
            H.checks[name] = op
            src += {"mul": "*", "add": "+"}.get(op, "") + name
            continue
        if is_z3(p) and p.sort() == z3.IntSort():
            if not I.s.valid(p >= 0)[0]:
                H.checks[name] = "neg"
            H.vals[name] = p
            src += name
            continue
        if is_z3(p) and p.sort() == S and z3.is_app(p) and p.decl().name() == "istr":
            if not I.s.valid(p.arg(0) >= 0)[0]:
                H.checks[name] = "neg"
            H.vals[name] = p.arg(0)
            src += name
            continue
        if is_z3(p) and p.sort() == z3.RealSort():
            H.vals[name] = p
            H.checks[name] = "neg"
            src += name
            continue
        raise Unsupported("unknown text %s in executed text" % (p,))
    return src


def inside_quotes(src):
    q = None
    line = src.split("\n")[-1]
    for ch in line:
        if q is None and ch in "'\"":
            q = ch
        elif q == ch:
            q = None
        elif ch == "\\":
            raise Unsupported("escape in executed text")
    return q is not None


def fold_value(I, p, H):
    """(kind of operator, value) of a repeated piece."""
    # the generic piece
    kinds = set()
    vals = []
    prev = []
    for c, r in p.cases:
        neg = [I.neg(x) for x in prev if x is not True]

        def value(r=r):
            return piece(I, r, H, p)
        facts = [p.var >= 0, p.var < integer(p.n)] + [x for x in neg if x is not True] + \
            ([c] if c is not True else [])
        if parts_of(r) or getattr(p, "joined", False):
            kind, v = I.s.under(facts, value)
            kinds.add(kind)
        else:
            v = None                # no text
        vals.append((c, v))
        if c is not True:
            prev.append(c)
    if len(kinds) != 1:
        raise Unsupported("repeated text with different operators")
    kind = kinds.pop()
    fk = "prod" if kind.startswith("mul") else "sum"
    unit = z3.RealVal(1) if fk == "prod" else z3.RealVal(0)
    body = unit
    for c, v in reversed(vals):
        v = unit if v is None else real(v)
        body = v if c is True else z3.If(c, v, body)
    if ":join" in kind and not I.s.valid(I.truth(Rope([p])))[0]:
        raise Unsupported("joined text that may be empty")
    if ":join" in kind:
        kind = "x" + kind.replace(":join", "")
    return kind, make_fold(fk, p.n, p.var, body)


def piece(I, r, H, p):
    """Operator and value of one repetition."""
    parts = [z_lit(x) for x in parts_of(r)]
    joined = getattr(p, "joined", False)
    if joined:
        sep = (p.sep or "").strip()
        if sep == "*":
            parts = ["*"] + parts
        elif sep == "+":
            parts = ["+"] + parts
        else:
            raise Unsupported("repeated text joined by %r" % (p.sep,))
    H2 = Holes(I, H.env)
    src = "__L__" + source_of(I, parts, H2)
    tree = parse(src, "eval").body
    check(tree, H2)
    if joined and sep == "+" or not joined and isinstance(tree, ast.BinOp) and \
            isinstance(leftmost(tree, (ast.Add, ast.Sub))[0], ast.Name) and \
            not isinstance(tree.op, (ast.Mult, ast.Div)):
        left, ok = leftmost(tree, (ast.Add, ast.Sub))
        kind, unit = "add", 0
    else:
        left, ok = leftmost(tree, (ast.Mult, ast.Div))
        kind, unit = "mul", 1
    if not (isinstance(left, ast.Name) and left.id == "__L__"):
        raise Unsupported("repeated text is not a factor or term: %s" % src)
    H2.vals["__L__"] = unit
    if joined:
        # without its separator the first piece has to be an operand by itself
        kind += ":join"
        class Drop(ast.NodeTransformer):
            def visit_BinOp(self, n):
                if isinstance(n.left, ast.Name) and n.left.id == "__L__":
                    return n.right
                return self.generic_visit(n)
        alone = src[len("__L__" + sep):]
        if ast.dump(Drop().visit(parse(src, "eval").body)) != ast.dump(parse(alone, "eval").body):
            raise Unsupported("joined text %s" % src)
    n_left = sum(1 for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id == "__L__")
    if n_left != 1:
        raise Unsupported("repeated text")
    v = evaluate_tree(I, tree, H2)
    return kind, v


def leftmost(t, ops):
    while isinstance(t, ast.BinOp) and isinstance(t.op, ops):
        t = t.left
    return t, True


def parse(src, mode):
    try:
        return ast.parse(src.strip() if mode == "eval" else src, mode=mode)
    except SyntaxError as e:
        from interp import pyraise
        pyraise("SyntaxError", "%s in %s" % (e, src[:200]))


def check(tree, H):
    """Every hole stands where its operator allows."""
    parent = {}
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            parent[ch] = n
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id in H.checks:
            kind = H.checks[n.id]
            p = parent.get(n)
            if kind == "mul":
                if not (isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mult) and p.right is n):
                    raise Unsupported("repeated factor in another place")
            elif kind == "add":
                if not (isinstance(p, ast.BinOp) and isinstance(p.op, ast.Add) and p.right is n):
                    raise Unsupported("repeated term in another place")
            elif kind in ("xadd", "xmul"):
                expression_place(n, kind, parent)
            elif kind == "neg":
                if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Pow) and p.left is n:
                    raise Unsupported("power of a printed number that may be negative")
                if isinstance(p, (ast.Attribute, ast.Subscript)) and p.value is n:
                    raise Unsupported("printed number")
        if isinstance(n, (ast.Name, ast.Attribute, ast.Constant)):
            s = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else \
                str(n.value)
            if "__H" in s and isinstance(n, (ast.Name, ast.Attribute)) and s not in H.vals:
                raise Unsupported("hole inside a name")


def expression_place(n, kind, parent):
    """The text of a sum (xadd) or product (xmul) stands where its operators bind last:
    replacing it by its value in parentheses changes nothing but the order of additions
    or multiplications."""
    def up(n, ops, right):
        while True:
            p = parent.get(n)
            if not (isinstance(p, ast.BinOp) and isinstance(p.op, ops)):
                return n
            if p.right is n and not isinstance(p.op, right):
                raise Unsupported("generated expression after %s" % type(p.op).__name__)
            n = p
    if kind == "xmul":
        n = up(n, (ast.Mult, ast.Div), ast.Mult)
        while isinstance(parent.get(n), ast.UnaryOp) and isinstance(parent[n].op, ast.USub):
            # -(a*b) and (-a)*b are the same number
            n = up(parent[n], (ast.Mult, ast.Div), ast.Mult)
        n = up(n, (ast.Add, ast.Sub), (ast.Add, ast.Sub))
    else:
        n = up(n, (ast.Add, ast.Sub), ast.Add)
    p = parent.get(n)
    if not (p is None or isinstance(p, (ast.Assign, ast.AugAssign, ast.Expr, ast.Expression,
                                        ast.Tuple, ast.List))
            or isinstance(p, ast.Call) and n in p.args):
        raise Unsupported("generated expression inside %s" % type(p).__name__)


def evaluate(I, parts, env):
    H = Holes(I, env)
    tree = parse(source_of(I, parts, H), "eval").body
    check(tree, H)
    return evaluate_tree(I, tree, H)


def expression(I, text, env, signed=False):
    """(value, "mul" | "add") of the text of one expression on one line; signed: it may start
    with a minus."""
    parts = []

    def one_line(ps):
        for p in ps:
            if isinstance(p, str) and ("\n" in p or "\r" in p or "#" in p):
                raise Unsupported("expression over several lines")
            if isinstance(p, FoldPart):
                one_line([p.sep or ""])
                for _, r in p.cases:
                    one_line(parts_of(r))
    for p in parts_of(text):
        if is_z3(p) and p.sort() == S and lit_of(p) is not None:
            p = lit_of(p)
        parts.append(p)
    one_line(parts)
    if len(parts) > 1 and isinstance(parts[0], FoldPart) and ends_in_operator(parts[0]):
        return alternating(I, parts, env), "add"
    H = Holes(I, env)
    tree = parse(source_of(I, parts, H), "eval").body
    check(tree, H)
    t = tree
    while isinstance(t, ast.BinOp) and isinstance(t.op, (ast.Add, ast.Sub)):
        t = t.left
    prec = "mul" if t is tree else "add"
    while isinstance(t, ast.BinOp) and isinstance(t.op, (ast.Mult, ast.Div)):
        t = t.left
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.USub) and signed:
        t = t.operand
    if isinstance(t, ast.BinOp) and isinstance(t.op, ast.Pow):
        t = t.left
    if not isinstance(t, (ast.Name, ast.Subscript, ast.Constant, ast.Call)):
        raise Unsupported("expression that starts with %s" % type(t).__name__)
    return evaluate_tree(I, tree, H), prec


def evaluate_tree(I, tree, H):
    tree = fill(tree, H)
    return I.eval(tree, hole_env(I, H))


def statements(I, parts, env):
    H = Holes(I, env)
    tree = parse(source_of(I, parts, H), "exec")
    check(tree, H)
    fill(tree, H)
    # the holes are visible to this text only
    names = list(H.vals) + list(hidden(H))
    e = hole_env(I, H)
    for st in tree.body:
        if isinstance(st, (ast.Assign, ast.AugAssign)):
            targets = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in targets:
                if isinstance(t, ast.Name):
                    raise Unsupported("exec that binds a local name")
        elif not isinstance(st, ast.Expr):
            raise Unsupported("exec of a compound statement")
        I.stmt(st, e)


def hidden(H):
    return ()


def hole_env(I, H):
    from interp import Env
    e = Env(I, H.env.module, H.env.cls, H.env)
    for k, v in H.vals.items():
        e.vars[k] = v
    for k, v in getattr(H, "consts", {}).items():
        e.vars[k] = v
    return e


def fill(tree, H):
    """String constants with holes become names bound to the text."""
    H.consts = {}

    class Fill(ast.NodeTransformer):
        def visit_Constant(self, n):
            if isinstance(n.value, str) and "__H" in n.value:
                parts, s = [], n.value
                while s:
                    k = s.find("__H")
                    if k < 0:
                        parts.append(s)
                        break
                    if k:
                        parts.append(s[:k])
                    e = s.find("__", k + 2)
                    name = s[k:e + 2]
                    parts.append(H.texts[name])
                    s = s[e + 2:]
                r = rope(*parts)
                nm = "__C%d__" % len(H.consts)
                H.consts[nm] = r
                return ast.copy_location(ast.Name(nm, ast.Load()), n)
            return n
    t = Fill().visit(tree)
    ast.fix_missing_locations(t)
    return t


# ------------------------------------------------------------------ x + y - ... + z
def ends_in_operator(f):
    """Repeated pieces "term operator "."""
    if f.sep:
        return False
    for _, r in f.cases:
        ps = parts_of(r)
        if not ps or not isinstance(ps[-1], str):
            return False
        t = ps[-1].rstrip()
        if t == ps[-1] or not (t[-1:] in "+-" if t else len(ps) > 1 and is_z3(ps[-2]) and ps[-2].sort() == S):
            return False
    return True


def alternating(I, parts, env):
    """Value of  x_0 op_0 x_1 op_1 ... x_{n-1} op_{n-1} z, with the pieces "x_q op_q "."""
    f, last = parts[0], parts[1:]

    def split(r):
        ps = [z_lit(x) for x in parts_of(r)]
        t = ps[-1].rstrip()
        if t:
            if not t[:-1].endswith(" "):
                raise Unsupported("operator in executed text")
            return ps[:-1] + [t[:-1]], z3.RealVal(1 if t[-1] == "+" else -1)
        op = ps[-2]
        if not (len(ps) > 2 and isinstance(ps[-3], str) and ps[-3].endswith(" ")):
            raise Unsupported("operator in executed text")
        if not I.s.valid(z3.Or(op == T.lit("+"), op == T.lit("-")))[0]:
            raise Unsupported("operator in executed text")
        return ps[:-2], z3.If(op == T.lit("-"), z3.RealVal(-1), z3.RealVal(1))

    def term(ps):
        """One operand of + and -: a product or something in parentheses."""
        H = Holes(I, env)
        tree = parse(source_of(I, list(ps), H), "eval").body
        check(tree, H)
        if isinstance(tree, ast.BinOp) and not isinstance(tree.op, (ast.Mult, ast.Div, ast.Pow)) and \
                not (str(ps[0]).startswith("(") and str(ps[-1]).rstrip().endswith(")") and
                     wrapped(I, ps, env)):
            raise Unsupported("term of a sum")
        if not isinstance(tree, (ast.BinOp, ast.UnaryOp, ast.Name, ast.Constant, ast.Subscript, ast.Call)):
            raise Unsupported("term of a sum")
        for h, kind in H.checks.items():
            if kind in ("add", "xadd") and not wrapped(I, ps, env):
                raise Unsupported("sum as a term of a sum")
        return real(evaluate_tree(I, tree, H))

    def at(q, what):
        out = None
        for j, (c, r) in reversed(list(enumerate(f.cases))):
            c2, r2 = (c if c is True else subst(c, [(f.var, q)])), subst(r, [(f.var, q)])
            prev = [I.neg(subst(x, [(f.var, q)])) for x, _ in f.cases[:j] if x is not True]
            v = I.s.under([q >= 0, q < integer(f.n)] + prev + ([c2] if c2 is not True else []),
                          lambda: what(split(r2)))
            if out is None:
                covered = c2 is True or I.s.under([q >= 0, q < integer(f.n)] + prev, lambda: I.s.valid(c2)[0])
                if not covered:
                    raise Unsupported("repeated term that may be missing")
                out = v
            else:
                out = z3.If(c2, v, out)
        return out
    q = fresh_index("q")
    sign = lambda k: at(k, lambda x: x[1])
    value = at(q, lambda x: term(x[0]))
    z = term(last)
    body = z3.If(q == 0, z3.RealVal(1), sign_before(I, sign, q))*value
    n = integer(f.n)
    end = z3.RealVal(1)
    if not I.s.valid(n == 0)[0]:
        end = z3.If(n <= 0, z3.RealVal(1), raw_sign(f, split, n - 1, I))
    return make_fold("sum", n, q, body) + end*z


def raw_sign(f, split, q, I):
    return I.s.under([q >= 0, q < integer(f.n)], lambda: sign_of(f, split, q))


def sign_of(f, split, q):
    out = None
    for c, r in reversed(f.cases):
        v = split(subst(r, [(f.var, q)]))[1]
        out = v if out is None else z3.If(subst(c, [(f.var, q)]), v, out)
    return out


def sign_before(I, sign, q):
    return I.s.under([q >= 1], lambda: sign(q - 1))


def wrapped(I, ps, env):
    """Do the first and the last character match as parentheses?"""
    src = source_of(I, list(ps), Holes(I, env)).strip()
    if not (src.startswith("(") and src.endswith(")")):
        return False
    depth = 0
    for j, ch in enumerate(src):
        depth += (ch == "(") - (ch == ")")
        if depth == 0:
            return j == len(src) - 1
    return False
