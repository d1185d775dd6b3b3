"""Loads the package under analysis into a resolved program model.

Nothing of the analysed package is imported or executed: the sources are read,
parsed with :mod:`ast` and resolved (imports, classes, methods, module globals).
"""

import ast
import os

from . import desugar

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pyclibrary"


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: neither verdict can be given."""


class FuncInfo:
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = node.name
        self.decorators = []
        for d in node.decorator_list:
            if isinstance(d, ast.Name):
                self.decorators.append(d.id)
            elif isinstance(d, ast.Attribute):
                self.decorators.append(d.attr)

    @property
    def is_property(self):
        return "property" in self.decorators

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            out.append(a.vararg.arg)
        out += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def __repr__(self):
        return "<Func %s>" % self.qual


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.name = node.name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}
        self.bases = []  # resolved later: ClassInfo or dotted str
        self.subclasses = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def __repr__(self):
        return "<Class %s>" % self.qual


class Module:
    def __init__(self, name, path, tree, source):
        self.name = name  # dotted, relative to the package ('' for __init__)
        self.path = path
        self.tree = tree
        self.source = source
        self.imports = {}  # local name -> dotted target
        self.functions = {}
        self.classes = {}
        self.globals = {}  # name -> list of value nodes (module level)

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


MUTATING = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault",
            "popitem", "sort", "reverse", "add", "discard"}


class Program:
    def __init__(self, repo=None, overlay=None):
        self.overlay = overlay or {}  # path relative to the repository -> source
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, PKG)
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self._load()

    def mutated_names(self):
        """Names and attributes holding containers which are modified somewhere."""
        got = getattr(self, "_mutated", None)
        if got is None:
            got = self._mutated = set()
            for m in self.modules.values():
                for x in ast.walk(m.tree):
                    t = None
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATING:
                        t = x.func.value
                    elif isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                        t = x.value
                    elif isinstance(x, ast.AugAssign):
                        t = x.target
                    if isinstance(t, ast.Name):
                        got.add(t.id)
                    elif isinstance(t, ast.Attribute):
                        got.add(t.attr)
        return got

    # -- loading -----------------------------------------------------------

    def _load(self):
        if not os.path.isdir(self.root):
            raise AnalysisBroken("package directory %s is missing" % self.root)
        for dirpath, dirnames, filenames in os.walk(self.root):
            dirnames[:] = sorted(d for d in dirnames if d != "__pycache__")
            for fn in sorted(filenames):
                if not fn.endswith(".py") or fn == "version.py":
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
                if rel == "__init__":
                    rel = ""
                elif rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                src = self.overlay.get(os.path.relpath(path, self.repo), src)
                try:
                    tree = desugar.run(ast.parse(src, path))
                except SyntaxError as e:
                    raise AnalysisBroken("cannot parse %s: %s" % (path, e))
                m = Module(rel, path, tree, src)
                m.is_pkg = fn == "__init__.py"
                self.modules[rel] = m
        for m in self.modules.values():
            self._scan_imports(m)
            self._scan_defs(m, m.tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                t = self.resolve_dotted(c.module, b)
                r = self.lookup_dotted(t) if t else None
                c.bases.append(r if isinstance(r, ClassInfo) else (t or "?"))
        for c in self.classes.values():
            for b in c.bases:
                if isinstance(b, ClassInfo):
                    b.subclasses.append(c)
        # calls of extracted or nested helpers are resolved by qualified name

    def _rel_target(self, m, node):
        """Absolute dotted module (inside the package: 'pkg:<rel>')."""
        if node.level == 0:
            name = node.module or ""
            if name == PKG or name.startswith(PKG + "."):
                return "pkg:" + name[len(PKG) + 1 :]
            return name
        parts = m.name.split(".") if m.name else []
        if not m.is_pkg:
            parts = parts[:-1]
        up = node.level - 1
        if up:
            parts = parts[:-up]
        if node.module:
            parts += node.module.split(".")
        return "pkg:" + ".".join(parts)

    def _scan_imports(self, m):
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(node, ast.ImportFrom):
                base = self._rel_target(m, node)
                for a in node.names:
                    sep = "" if base == "pkg:" else "."
                    m.imports[a.asname or a.name] = base + sep + a.name

    def _scan_defs(self, m, body, cls=None, parent=None, prefix=None):
        prefix = prefix if prefix is not None else m.name
        for node in body:
            self._scan_def(m, node, cls, parent, prefix)

    def _scan_def(self, m, node, cls, parent, prefix):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            qual = (prefix + "." if prefix else "") + node.name
            f = FuncInfo(qual, node, m, cls, parent)
            node._finfo = f
            self.functions.setdefault(qual, f)
            if cls is not None:
                cls.methods[node.name] = f
            elif parent is None:
                m.functions[node.name] = f
            for sub in node.body:
                self._scan_def(m, sub, None, f, qual)
        elif isinstance(node, ast.ClassDef):
            qual = (prefix + "." if prefix else "") + node.name
            c = ClassInfo(qual, node, m)
            node._cinfo = c
            self.classes.setdefault(qual, c)
            if parent is None and cls is None:
                m.classes[node.name] = c
            for sub in node.body:
                if isinstance(sub, ast.Assign):
                    for t in sub.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = sub.value
                elif isinstance(sub, ast.AnnAssign) and isinstance(
                    sub.target, ast.Name
                ):
                    c.attrs[sub.target.id] = sub.value
                self._scan_def(m, sub, c, parent, qual)
        else:
            if parent is None and cls is None:
                if isinstance(node, ast.Assign):
                    for t in node.targets:
                        if isinstance(t, ast.Name):
                            m.globals.setdefault(t.id, []).append(node.value)
                elif isinstance(node, ast.AnnAssign) and isinstance(
                    node.target, ast.Name
                ):
                    m.globals.setdefault(node.target.id, []).append(node.value)
                elif isinstance(node, ast.AugAssign) and isinstance(
                    node.target, ast.Name
                ):
                    m.globals.setdefault(node.target.id, []).append(node)
            for field in ("body", "orelse", "finalbody"):
                for sub in getattr(node, field, []) or []:
                    self._scan_def(m, sub, cls, parent, prefix)
            for h in getattr(node, "handlers", []) or []:
                for sub in h.body:
                    self._scan_def(m, sub, cls, parent, prefix)

    # -- resolution --------------------------------------------------------

    def resolve_dotted(self, m, node):
        """Dotted name of an expression made of names and attributes."""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        parts.append(node.id)
        parts.reverse()
        head = parts[0]
        if head in m.imports:
            base = m.imports[head]
        elif head in m.classes or head in m.functions or head in m.globals:
            base = "pkg:" + (m.name + "." if m.name else "") + head
        else:
            base = "builtins." + head
        return ".".join([base] + parts[1:])

    def lookup_dotted(self, dotted, depth=0):
        """FuncInfo, ClassInfo, Module or None for a 'pkg:' dotted name."""
        if not dotted or not dotted.startswith("pkg:") or depth > 8:
            return None
        name = dotted[4:]
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            mod, attr = name.rsplit(".", 1)
        else:
            mod, attr = "", name
        if mod in self.modules:
            m = self.modules[mod]
            if attr in m.classes:
                return m.classes[attr]
            if attr in m.functions:
                return m.functions[attr]
            if attr in m.imports:
                return self.lookup_dotted(m.imports[attr], depth + 1)
            return None
        owner = self.lookup_dotted("pkg:" + mod, depth + 1)
        if isinstance(owner, ClassInfo):
            return owner.find(attr)
        return None

    def func(self, qual):
        f = self.functions.get(qual)
        if f is None:
            raise AnalysisBroken("function %s not found in the package" % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisBroken("class %s not found in the package" % qual)
        return c

    def where(self, module, node):
        return "%s:%d" % (module.rel, getattr(node, "lineno", 0))
