"""Reads the functions under contract from the working tree, mechanically: the syntax
tree of each file is used as it is; nothing is rewritten and only docstrings and
comments have no effect."""
import ast
import os

from session import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


class Module(object):
    cache = {}

    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(os.path.join(REPO, path)).read(), path)
        self.names = {}           # name -> ast node (function, class, assignment value)
        self.imports = {}         # name -> (module path or external dotted name, member or None)
        self.stars = []
        self.values = {}
        self.effects = []         # statements of the module that are not definitions
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.names[n.name] = n
                self.imports.pop(n.name, None)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(n.value, ast.Name) and n.value.id == t.id:
                            continue                      # x = x: the outer name
                        self.names[t.id] = n.value
                        self.imports.pop(t.id, None)
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple):
                        for a, b in zip(t.elts, n.value.elts):
                            self.names[a.id] = b
                    else:
                        self.effects.append(n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name, None)
                    self.names.pop(a.asname or a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                mod = self._resolve(n.module or "", n.level)
                for a in n.names:
                    if a.name == "*":
                        self.stars.append(mod)
                    else:
                        self.imports[a.asname or a.name] = (mod, a.name)
                        self.names.pop(a.asname or a.name, None)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
                for h in n.handlers:
                    for k in h.body:
                        if isinstance(k, (ast.Assign, ast.Import, ast.ImportFrom)):
                            continue
                self._scan(n.orelse)
            elif isinstance(n, ast.If):
                # the interpreter is Python 3: the version switches are decided, any other
                # module-level condition contributes both branches
                test = ast.unparse(n.test)
                if test == "PY2":
                    self._scan(n.orelse)
                elif test == "sys.version > '3'":
                    self._scan(n.body)
                elif test == "__name__ == '__main__'":
                    pass
                else:
                    self._scan(n.body)
                    self._scan(n.orelse)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) or \
                    isinstance(n, ast.Pass):
                pass
            else:
                self.effects.append(n)

    def effects_on(self, name):
        """Statements of the module that may change the value of the name."""
        return [n for n in self.effects
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)) or
                any(isinstance(x, ast.Constant) and x.value == name for x in ast.walk(n))
                and not isinstance(n, ast.Assign) or
                any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
                    x.func.id in ("globals", "vars", "locals", "exec", "setattr", "__import__")
                    for x in ast.walk(n))]

    def _resolve(self, mod, level):
        if not level:
            return self._as_path(mod.split(".")) or mod
        parts = self.path.split("/")[:-level]
        return self._as_path(parts + (mod.split(".") if mod else [])) or mod

    @staticmethod
    def _as_path(parts):
        p = "/".join(parts)
        for c in (p + ".py", p + "/__init__.py"):
            if os.path.exists(os.path.join(REPO, c)):
                return c
        return None

    @staticmethod
    def get(path):
        if path not in Module.cache:
            Module.cache[path] = Module(path)
        return Module.cache[path]

    def find(self, name, seen=None):
        """('node', module, node) | ('ext', dotted, member) | None"""
        seen = seen or set()
        if self.path in seen:
            return None
        seen.add(self.path)
        if name in self.names:
            return ("node", self, self.names[name])
        if name in self.imports:
            mod, member = self.imports[name]
            if mod.endswith(".py"):
                m = Module.get(mod)
                if member is None:
                    return ("mod", m, None)
                r = m.find(member, seen)
                if r:
                    return r
                # a submodule
                sub = self._as_path(mod[:-len("/__init__.py")].split("/") + [member]) \
                    if mod.endswith("__init__.py") else None
                return ("mod", Module.get(sub), None) if sub else None
            sub = None
            return ("ext", mod, member)
        for mod in reversed(self.stars):
            if name.startswith("_"):
                break
            if mod.endswith(".py"):
                r = Module.get(mod).find(name, seen)
                if r and r[0] != "extstar":
                    return r
        for mod in reversed(self.stars):
            if not mod.endswith(".py"):
                return ("extstar", mod, name)
        return None


class ClassInfo(object):
    """Class of the repository with its bases resolved."""

    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.members = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                # property setters share a name; the first definition with Property wins
                self.members[n.name] = n
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                    len(n.targets) == 1:
                self.members[n.targets[0].id] = n
            elif not isinstance(n, ast.Pass) and not \
                    (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                raise Unsupported("statement %s in class %s" % (type(n).__name__, self.name))
        if node.decorator_list or node.keywords:
            raise Unsupported("decorated class %s" % self.name)
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                r = module.find(b.id)
                if r and r[0] == "node" and isinstance(r[2], ast.ClassDef):
                    self.bases.append(class_info(r[1], r[2]))

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name, after=None):
        seq = self.mro()
        if after is not None:
            seq = seq[seq.index(after) + 1:]
        for c in seq:
            if name in c.members:
                return c, c.members[name]
        return None


_classes = {}


def class_info(module, node):
    k = (module.path, node.name)
    if k not in _classes:
        _classes[k] = ClassInfo(module, node)
    return _classes[k]


def get_class(path, name):
    m = Module.get(path)
    r = m.find(name)
    if not r or r[0] != "node":
        raise KeyError("%s: no class %s" % (path, name))
    return class_info(r[1], r[2])
