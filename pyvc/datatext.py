"""Generated Python data files: the text a function returns or writes, executed.

The text is a rope.  A repeated piece inside brackets stands for items of the display around
it: every piece has to consist of whole items, each followed by a comma (or joined by
commas), so that pieces put one after another are the items one after another.  A repeated
piece at the start of a line and outside brackets is a loop over its lines.  The text of a
list by contract (DataText) is an assignment.  Everything else is parsed by CPython's parser
and executed by the interpreter."""
import ast

import z3

import terms as T
from terms import S, is_z3, integer, lit_of
from session import Unsupported
from values import *          # noqa
from values import subst
import dyn


class DataText(object):
    """By contract: the text 'name = <value>' of a list or dict, ending with a blank line."""

    def __init__(self, name, value):
        self.name, self.value = name, value


class Reader(object):
    def __init__(self, I, variables=None):
        from interp import Env
        import source
        self.I = I
        self.env = Env(I, source.Module.get("scaks/__init__.py"))
        for k, v in (variables or {}).items():
            self.env.vars[k] = v
        self.holes, self.texts, self.keep = {}, {}, []

    def var(self, name):
        return self.env.vars[name]

    # ---------------------------------------------------------------- source
    def hole(self, term, value=None):
        """One name per term; in an identifier it stands for the digits."""
        n = "__H%d__" % term.get_id()
        self.keep.append(term)
        if value is not None:
            self.env.vars[n] = value
        return n

    @staticmethod
    def where(src):
        """(bracket depth, inside a text, inside a comment) at the end of the source."""
        depth, q, comment = 0, None, False
        for ch in src:
            if comment:
                comment = ch != "\n"
            elif q:
                if ch == "\\" or ch == "\n":
                    raise Unsupported("escape in generated text")
                if ch == q:
                    q = None
            elif ch in "'\"":
                q = ch
            elif ch == "#":
                comment = True
            elif ch in "[({":
                depth += 1
            elif ch in "])}":
                depth -= 1
        return depth, q, comment

    def execute(self, text):
        src = ""
        for p in parts_of(text):
            if is_z3(p) and p.sort() == S and lit_of(p) is not None:
                p = lit_of(p)
            if isinstance(p, str):
                src += p
                continue
            depth, q, comment = self.where(src)
            if comment:
                if isinstance(p, FoldPart) or not is_z3(p):
                    raise Unsupported("repeated text in a comment")
                src += "x"
                continue
            if isinstance(p, DataText):
                if depth or q or src and not src.endswith("\n"):
                    raise Unsupported("data text inside other text")
                self.flush(src)
                src = ""
                name = self.identifier(p.name)
                self.env.set(name, p.value)
                continue
            if isinstance(p, FoldPart) and not depth and not q:
                if src and not src.endswith("\n") or p.sep:
                    raise Unsupported("repeated text inside a line")
                self.flush(src)
                src = ""
                self.loop(p)
                continue
            src += self.piece(p, depth, q, src)
        self.flush(src)

    def identifier(self, name):
        src = ""
        for p in parts_of(name):
            src += p if isinstance(p, str) else self.hole(p)
        if not src.isidentifier():
            raise Unsupported("name of a variable")
        return src

    def piece(self, p, depth, q, src):
        I = self.I
        if isinstance(p, FoldPart):
            if q:
                raise Unsupported("repeated text inside quotes")
            opening = self.opening(src)
            name = "__F%d__" % len(self.env.vars)
            joined = getattr(p, "joined", False)
            if joined and (p.sep or "").strip() != ",":
                raise Unsupported("repeated text joined by %r" % (p.sep,))
            box = I.new(SDict()) if opening == "{" else I.lst(())

            def body(i, p=p):
                pairs = [(p.var, integer(i))]
                for c, r in p.cases:
                    if c is True or I.decide(subst(c, pairs)):
                        self.items(subst(r, pairs), opening, box, joined)
                        return
            I.generic(p.n, body)
            self.env.vars[name] = box
            return ("**" if opening == "{" else "*") + name + ("" if joined else ",")
        if not is_z3(p):
            raise Unsupported("unknown text %r" % (p,))
        if q:
            if p.sort() == S or p.sort() == z3.IntSort():
                n = self.hole(p)
                self.texts[n] = p
                return n
            raise Unsupported("number inside quotes")
        if p.sort() == S:
            if z3.is_app(p) and p.decl().eq(dyn.text):
                t = p.arg(0)
                # numbers and nested sequences of numbers and plain strings read back
                if not I.decide(dyn.kind(t) != dyn.TAGS["str"]):
                    raise PyRaise("NameError", "a text without quotes")
                return self.hole(p, dyn.val(t))
            if p.get_id() in I.text_of:
                # str of a list (its entries read back as the text of numbers does)
                return self.hole(p, I.lst(I.text_of[p.get_id()][1].seq))
            raise Unsupported("unknown text %s" % p)
        if p.sort() == z3.IntSort() and src and (src[-1].isalnum() or src[-1] == "_"):
            return self.hole(p)
        before = src.rstrip()[-1:]
        if before and before not in "[({,=:" and not I.s.valid(p >= 0)[0]:
            raise Unsupported("printed number after %s" % before)
        return self.hole(p, p)

    def opening(self, src):
        """The innermost open bracket."""
        for k in range(len(src) - 1, -1, -1):
            if src[k] in "[({" and self.where(src[:k])[0] < self.where(src)[0] and \
                    self.where(src[k:])[0] == 1:
                return src[k]
        raise Unsupported("brackets")

    @staticmethod
    def without_comments(src):
        """(the source has no escapes and every comment ends inside it)"""
        out, q, comment = "", None, False
        for ch in src:
            if comment:
                comment = ch != "\n"
            elif q is None and ch == "#":
                comment = True
            elif ch == q:
                q = None
            elif q is None and ch in "'\"":
                q = ch
            if not comment:
                out += ch
        return out

    def items(self, text, opening, box, joined):
        """Whole items of a display, put into the box."""
        I = self.I
        src = ""
        for p in parts_of(text):
            if is_z3(p) and p.sort() == S and lit_of(p) is not None:
                p = lit_of(p)
            if isinstance(p, str):
                src += p
                continue
            d, q, comment = self.where(src)
            if comment or d < 0:
                raise Unsupported("repeated piece")
            src += self.piece(p, d, q, opening + src)
        if self.where(src) != (0, None, False):
            raise Unsupported("repeated piece")
        src = self.without_comments(src)
        if src.strip() and src.rstrip().endswith(",") == joined:
            from interp import pyraise
            pyraise("SyntaxError", "items without a comma between them")
        if not src.strip() and joined:
            raise Unsupported("empty piece")
        tree = self.parse(opening + src + {"[": "]", "(": ",)", "{": "}"}[opening]).body
        if len(tree) != 1 or not isinstance(tree[0], ast.Expr):
            raise Unsupported("repeated piece")
        e = tree[0].value
        if opening == "{":
            if not isinstance(e, ast.Dict):
                raise Unsupported("repeated piece of a set")
            for k, v in zip(e.keys, e.values):
                if k is None:
                    raise Unsupported("nested repetition in a dict")
                I.dict_set(box, I.eval(k, self.env), I.eval(v, self.env))
            return
        if not isinstance(e, (ast.List, ast.Tuple)):
            raise Unsupported("repeated piece")
        for x in e.elts:
            if isinstance(x, ast.Starred):
                raise Unsupported("nested repetition")
            I.append(box, I.eval(x, self.env))

    def parse(self, src):
        from interp import pyraise
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            pyraise("SyntaxError", "%s in %s" % (e, src[:200]))
        me = self

        class Fill(ast.NodeTransformer):
            def visit_Constant(self, n):
                if isinstance(n.value, str) and "__H" in n.value:
                    parts, s = [], n.value
                    while s:
                        k = s.find("__H")
                        if k < 0:
                            parts.append(s)
                            break
                        parts.append(s[:k])
                        e = s.find("__", k + 2)
                        parts.append(me.texts[s[k:e + 2]])
                        s = s[e + 2:]
                    nm = "__C%d__" % len(me.env.vars)
                    me.env.vars[nm] = rope(*parts)
                    return ast.copy_location(ast.Name(nm, ast.Load()), n)
                return n
        tree = Fill().visit(tree)
        ast.fix_missing_locations(tree)
        return tree

    def flush(self, src):
        if not src.strip():
            return
        for st in self.parse(src).body:
            if isinstance(st, ast.Expr) and isinstance(st.value, (ast.Constant, ast.Name)):
                continue
            if not isinstance(st, (ast.Assign, ast.Expr, ast.Pass)):
                raise Unsupported("generated statement %s" % type(st).__name__)
            if self.extended_entry(st):
                continue
            self.I.stmt(st, self.env)

    def extended_entry(self, st):
        """X[i].extend(Y): the entries of X are separate lists (displays in the text make a
        new list each), so it is X[i] = X[i] + list(Y)."""
        c = st.value if isinstance(st, ast.Expr) else None
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and
                c.func.attr == "extend" and isinstance(c.func.value, ast.Subscript) and
                len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred)):
            return False
        I = self.I
        o = I.eval(c.func.value.value, self.env)
        if not isinstance(o, SList):
            return False
        i = I.index_value(c.func.value.slice, self.env)
        if self.extra is not None:
            if id(o) not in self.extra or id(o) in self.extended:
                raise Unsupported("entry extended in a loop")
            self.extended.append(id(o))
            new = I.eval(c.args[0], self.env)
            I.setitem(self.extra[id(o)][1], i, catseq(*I.segments(new)))
            return True
        old = I.getitem(o, i)
        new = I.eval(c.args[0], self.env)
        I.setitem(o, i, I.lst(catseq(*(I.segments(old) + I.segments(new)))))
        return True

    extra = None           # what a loop adds to the entries of lists: {list: (list, additions)}

    def loop(self, p):
        I = self.I
        if self.extra is not None:
            raise Unsupported("nested repetition of lines")
        self.extra = {}
        for o in list(self.env.vars.values()):
            if isinstance(o, SList) and id(o) not in self.extra:
                n = I.length(o)
                self.extra[id(o)] = (o, I.lst(GSeq(integer(n), lambda i: ())), n, o.content)

        def body(i):
            pairs = [(p.var, integer(i))]
            self.extended = []
            for c, r in p.cases:
                if c is True or I.decide(subst(c, pairs)):
                    ps = parts_of(subst(r, pairs))
                    if not (ps and isinstance(ps[-1], str) and ps[-1].endswith("\n")):
                        raise Unsupported("repeated text that does not end its line")
                    self.execute(rope(*ps))
                    return
        I.generic(p.n, body)
        extra, self.extra = self.extra, None
        for o, more, n, before in extra.values():
            if not more.layers:
                continue
            if o.content != before:
                raise Unsupported("list changed and its entries extended in one loop")
            old, new = view(o), view(more)
            I.set_content(o, (GSeq(integer(n), lambda i, old=old, new=new: I.lst(catseq(
                *(I.segments(I.getitem(old, i)) + I.segments(I.getitem(new, i)))))), ()))


def read(I, text, variables=None):
    """The variables after executing the text."""
    if not is_text(text):
        raise Unsupported("executed %r" % (text,))
    r = Reader(I, variables)
    r.execute(text)
    return r
