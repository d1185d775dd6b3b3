"""Different spellings of the same operation, brought to one before the analysis.

Each rule replaces a construct by one which does the same (same objects, same order
of evaluation as far as the parts have effects), so the rules of the checks need to
know one spelling only:

    x.update(a=1) / x.update({"a": 1})       ->  x["a"] = 1
    dict(x, a=1), {**x, "a": 1}   (assigned) ->  t = dict(x); t["a"] = 1
    {k: v for k, v in x.items()}             ->  dict(x)
    {**x}                                    ->  dict(x)
    filter(f, x)                             ->  (a for a in x if f(a))
    [a for a in x], [*x]                     ->  list(x)
    x += [a] ; x.extend([a])                 ->  x.append(a)
    i = -1 ; for a in x: i += 1 ; ...        ->  for i, a in enumerate(x): ...
    i = 0 ; for a in x: ... ; i += 1         ->  the same, when nothing skips the end
    if c: x = a  else: x = b (adjacent)      is left to the path analysis
"""

import ast


def run(tree):
    T().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


def chain(n):
    """An expression without effects: names, attributes and constant items."""
    while True:
        if isinstance(n, ast.Name):
            return True
        if isinstance(n, ast.Attribute):
            n = n.value
        elif isinstance(n, ast.Subscript) and (isinstance(n.slice, ast.Constant) or chain(n.slice)):
            n = n.value
        else:
            return False


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def load(n):
    n = ast.parse(ast.unparse(n), mode="eval").body
    return n


def at(new, old):
    for x in ast.walk(new):
        if isinstance(x, (ast.expr, ast.stmt)):
            ast.copy_location(x, old)
    return new


def call(name, arg, old):
    return ast.copy_location(
        ast.Call(ast.copy_location(ast.Name(name, ast.Load()), old), [arg], []), old)


def set_item(base, key, value, old):
    t = ast.copy_location(ast.Subscript(at(load(base), old), key, ast.Store()), old)
    return ast.copy_location(ast.Assign([t], value), old)


def const_keys(d):
    return isinstance(d, ast.Dict) and d.keys and all(
        isinstance(k, ast.Constant) for k in d.keys)


class T(ast.NodeTransformer):
    def visit(self, n):
        n = super().visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return n

    # -- expressions

    def visit_DictComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1:
            g = n.generators[0]
            if not g.ifs and not g.is_async and isinstance(g.target, ast.Tuple) \
                    and [ast.dump(x) for x in map(load, g.target.elts)] == [ast.dump(load(n.key)), ast.dump(load(n.value))] \
                    and isinstance(n.key, ast.Name) and isinstance(n.value, ast.Name) \
                    and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) \
                    and g.iter.func.attr == "items" and not g.iter.args and not g.iter.keywords:
                return call("dict", g.iter.func.value, n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys == [None]:
            return call("dict", n.values[0], n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "filter" and len(n.args) == 2 and not n.keywords \
                and not any(isinstance(x, ast.Starred) for x in n.args):
            f, x = n.args
            if chain(f) or isinstance(f, ast.Constant) and f.value is None:
                v = "item_%d_%d" % (n.lineno, n.col_offset)
                a = ast.copy_location(ast.Name(v, ast.Load()), n)
                test = a if isinstance(f, ast.Constant) else ast.copy_location(ast.Call(f, [a], []), n)
                g = ast.comprehension(ast.copy_location(ast.Name(v, ast.Store()), n), x, [test], 0)
                return ast.copy_location(
                    ast.GeneratorExp(ast.copy_location(ast.Name(v, ast.Load()), n), [g]), n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1:
            g = n.generators[0]
            if not g.ifs and not g.is_async and isinstance(g.target, ast.Name) \
                    and isinstance(n.elt, ast.Name) and n.elt.id == g.target.id:
                return call("list", g.iter, n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
            return call("list", n.elts[0].value, n)
        return n

    # -- statements

    def block(self, body):
        out = []
        for s in body:
            out.extend(self.stmt(s))
        return self.counters(out)

    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            c = s.value
            if isinstance(c.func, ast.Attribute) and chain(c.func.value):
                got = None
                if c.func.attr == "update":
                    if not c.args and c.keywords and all(k.arg for k in c.keywords):
                        got = [(at(ast.Constant(k.arg), k), k.value) for k in c.keywords]
                    elif len(c.args) == 1 and not c.keywords and const_keys(c.args[0]):
                        got = list(zip(c.args[0].keys, c.args[0].values))
                    if got:
                        return [set_item(c.func.value, k, v, s) for k, v in got]
                if c.func.attr == "extend" and len(c.args) == 1 and not c.keywords \
                        and isinstance(c.args[0], (ast.List, ast.Tuple)) and len(c.args[0].elts) == 1 \
                        and not isinstance(c.args[0].elts[0], ast.Starred):
                    c.func.attr = "append"
                    c.args = [c.args[0].elts[0]]
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and chain(s.target) \
                and isinstance(s.value, ast.List) and len(s.value.elts) == 1 \
                and not isinstance(s.value.elts[0], ast.Starred):
            f = ast.copy_location(ast.Attribute(at(load(s.target), s), "append", ast.Load()), s)
            return [ast.copy_location(ast.Expr(ast.copy_location(ast.Call(f, [s.value.elts[0]], []), s)), s)]
        if isinstance(s, ast.Assign):
            if len(s.targets) == 1 and chain(s.targets[0]):
                t, v = s.targets[0], s.value
                rest = None
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" \
                        and len(v.args) == 1 and v.keywords and all(k.arg for k in v.keywords):
                    rest = [(at(ast.Constant(k.arg), k), k.value) for k in v.keywords]
                    src = v.args[0]
                elif isinstance(v, ast.Dict) and len(v.keys) > 1 and v.keys[0] is None \
                        and all(isinstance(k, ast.Constant) for k in v.keys[1:]):
                    rest = list(zip(v.keys[1:], v.values[1:]))
                    src = v.values[0]
                if rest:
                    text = ast.unparse(t)
                    if not any(text in ast.unparse(x) for _, x in rest):
                        one = ast.copy_location(ast.Assign([t], call("dict", src, s)), s)
                        return [one] + [set_item(t, k, x, s) for k, x in rest]
        return [s]

    # -- counting by hand

    def counters(self, body):
        i = 0
        while i < len(body):
            s = body[i]
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, (ast.Name, ast.Tuple)) \
                    and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name)
                             and s.iter.func.id == "enumerate"):
                j = self.counter(body, i)
                if j is not None:
                    del body[j]
                    i -= 1
            i += 1
        return body

    def counter(self, body, i):
        loop = body[i]
        for which, start in ((0, -1), (-1, 0)):
            inc = loop.body[which]
            if not (isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add)
                    and isinstance(inc.target, ast.Name) and isinstance(inc.value, ast.Constant)
                    and inc.value.value == 1) or len(loop.body) < 2:
                continue
            var = inc.target.id
            j = i - 1
            while j >= 0 and var not in names(body[j]):
                j -= 1
            if j < 0:
                continue
            d = body[j]
            if not (isinstance(d, ast.Assign) and len(d.targets) == 1
                    and isinstance(d.targets[0], ast.Name) and d.targets[0].id == var):
                continue
            try:
                v = ast.literal_eval(d.value)
            except ValueError:
                continue
            if type(v) is not int:
                continue
            rest = [x for x in loop.body if x is not inc]
            if any(isinstance(x, ast.Name) and x.id == var and not isinstance(x.ctx, ast.Load)
                   for b in rest for x in ast.walk(b)):
                continue
            if var in names(loop.iter) | names(loop.target):
                continue
            if which == -1 and (skips(rest) or any(var in names(x) for x in body[i + 1:])):
                continue
            if which == 0 and any(var in names(x) for x in body[i + 1:]):
                continue
            first = v + 1 if which == 0 else v
            args = [loop.iter] + ([at(ast.Constant(first), loop)] if first else [])
            loop.iter = ast.copy_location(
                ast.Call(ast.copy_location(ast.Name("enumerate", ast.Load()), loop), args, []), loop)
            loop.target = ast.copy_location(ast.Tuple(
                [ast.copy_location(ast.Name(var, ast.Store()), loop), loop.target], ast.Store()), loop)
            loop.body = rest
            return j
        return None


def skips(body):
    """A `continue` of this loop."""
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if skips(s.orelse) if hasattr(s, "orelse") else False:
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if skips(getattr(s, f, None) or []):
                return True
        for h in getattr(s, "handlers", []) or getattr(s, "cases", []):
            if skips(h.body):
                return True
    return False
