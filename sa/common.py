"""Roles of the package's classes and cached analyses shared by the checks."""

import ast

from .flow import Flow, LimitReached, flow_of
from .program import AnalysisBroken, ClassInfo, Program


class Ctx:
    def __init__(self, program, report):
        self.p = program
        self.r = report
        self.cache = {}
        c = program.classes
        self.CLibrary = self.role("CLibrary")
        self.CParser = self.role("CParser")
        self.CFunction = self.role("CFunction")
        self.CallResult = self.role("CallResult")
        self.Type = self.role("Type")
        subs = [x for x in self.CLibrary.subclasses]
        if not subs:
            raise AnalysisBroken("no backend subclass of CLibrary")
        self.Backend = subs[0]

    def role(self, name):
        hits = [x for x in self.p.classes.values() if x.name == name]
        if not hits:
            raise AnalysisBroken("class %s not found" % name)
        return hits[0]

    # -- types -----------------------------------------------------------------

    def types(self, t):
        """Class of the values held by the well known fields."""
        if t[0] == "attr":
            if t[2] == "lib" and t[1] == ("param", "self"):
                return self.Backend
            if t[2] == "_headers_":
                return self.CParser
        if t[0] == "call" and t[1] == ("ext", "?"):
            return None
        return None

    def self_cls(self, f):
        if f.cls is self.CLibrary:
            return self.Backend
        return f.cls

    def flow(self, f, key="", **kw):
        """Analysis of one function (FuncInfo or qualified name), cached."""
        if isinstance(f, str):
            f = self.p.func(f)
        k = (f.qual, key, tuple(sorted((a, b) for a, b in kw.items()
                                       if isinstance(b, (bool, int, str)))))
        if key is not None and k in self.cache:
            return self.cache[k]
        kw.setdefault("types", self.types)
        kw.setdefault("self_cls", self.self_cls(f))
        kw.setdefault("max_states", 20000)
        try:
            fl = flow_of(self.p, f, **kw)
        except LimitReached as e:
            raise AnalysisBroken(str(e))
        self.r.use(fl)
        if key is not None:
            self.cache[k] = fl
        return fl

    def method(self, cls, name):
        f = cls.find(name)
        if f is None:
            raise AnalysisBroken("%s.%s not found" % (cls.qual, name))
        return f

    def functions(self, *modules):
        """All functions (methods, nested ones) of the given modules."""
        out = []
        for f in self.p.functions.values():
            if not modules or any(
                f.module.name == m or f.module.name.startswith(m + ".") for m in modules
            ):
                out.append(f)
        return out


    def callers(self, f, calls=False):
        """Functions of the package calling (or using) something named as `f`."""
        key = "%callers" + str(calls)
        table = self.cache.get(key)
        if table is None:
            table = self.cache[key] = {}
            for g in self.p.functions.values():
                if g.module.name.startswith("headers"):
                    continue
                for x in own_nodes(g.node):
                    if isinstance(x, ast.Call):
                        n = getattr(x.func, "id", None) or getattr(x.func, "attr", None)
                        if n:
                            table.setdefault(n, set()).add(g.qual)
                    elif not calls and isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                        table.setdefault(x.attr, set()).add(g.qual)
        return [self.p.functions[q] for q in sorted(table.get(f.name, ())) if q != f.qual]

    @staticmethod
    def size(f):
        n = getattr(f, "_size", None)
        if n is None:
            n = f._size = sum(1 for _ in ast.walk(f.node))
        return n


def own_nodes(fn):
    """Nodes of a function, not of the functions defined inside it."""
    stack = list(ast.iter_child_nodes(fn))
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(x))


def where(e):
    return "%s in %s" % (e.where, e.func.qual)


def site_key(e):
    """Stable identity of a program point: function and what is done there."""
    from .flow import show

    return "%s: %s" % (e.func.qual, show(e.target)[:80] if e.target else e.kind)
