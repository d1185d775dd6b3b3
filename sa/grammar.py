"""Extraction of the pyparsing grammar written in a module, and its language.

The statements building the grammar are folded from the syntax tree: constants,
combinators and the helpers making them. The result is a graph of nodes on which
membership of a text is decided with the meaning the combinators document (ordered
choice, greedy repetition). Nothing of the package is imported or run; whatever is
not understood becomes unknown, and a text whose recognition depends on it is left
undecided.
"""

import ast
import re
import string


class Undecided(Exception):
    pass


class LeftRecursion(Undecided):
    pass


class _U:
    def __repr__(self):
        return "UNKNOWN"


U = _U()

ALNUM = string.ascii_letters + string.digits
CONSTS = {"alphas": string.ascii_letters, "nums": string.digits, "alphanums": ALNUM,
          "hexnums": string.digits + "ABCDEFabcdef", "printables": "".join(
              c for c in string.printable if c not in string.whitespace)}
QUOTED = r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*"|' \
         r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*'"
COMBINE = {
    "Forward": "fwd", "Group": "group", "Suppress": "sup", "Optional": "opt", "Opt": "opt",
    "ZeroOrMore": "star", "OneOrMore": "plus", "Literal": "lit", "Keyword": "kw",
    "CaselessLiteral": None, "Regex": "re", "Word": "word", "WordStart": "ws", "WordEnd": "we",
    "delimitedList": "dl", "DelimitedList": "dl", "delimited_list": "dl", "oneOf": "oneof",
    "one_of": "oneof", "nestedExpr": "nested", "nested_expr": "nested", "And": "and",
    "MatchFirst": "alt", "Or": "or", "NotAny": "not", "FollowedBy": "look", "Empty": "eps",
    "Combine": None, "SkipTo": "skipto",
}


class Node:
    def __init__(self, kind, *args):
        self.kind = kind
        self.args = list(args)
        self.names = []
        self.actions = []

    def copy(self):
        # a copied Forward with no content yet stands for the Forward itself
        n = Node("fwd", self) if self.kind == "fwd" and not self.args else Node(
            self.kind, *self.args)
        n.names = list(self.names)
        n.actions = list(self.actions)
        return n


class Fn:
    def __init__(self, node, env, bound=None, name=None):
        self.node, self.env, self.bound = node, env, bound
        self.name = name or getattr(node, "name", "<lambda>")


class Ext:
    def __init__(self, name):
        self.name = name


class Obj:
    """The instance whose method is folded."""

    def __init__(self, methods, env):
        self.methods, self.env, self.attrs = methods, env, {}


class Env:
    def __init__(self, parent=None):
        self.v, self.parent, self.globals_ = {}, parent, set()

    def get(self, k):
        e = self
        while e is not None:
            if k in e.v:
                return e.v[k]
            e = e.parent
        return {"None": None, "True": True, "False": False}.get(k, Ext("builtin." + k))

    def root(self):
        e = self
        while e.parent is not None:
            e = e.parent
        return e

    def set(self, k, v):
        (self.root() if k in self.globals_ else self).v[k] = v


class Return(Exception):
    def __init__(self, value):
        self.value = value


def as_node(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, str):
        return Node("lit", x)
    return Node("unknown", repr(x))


class Folder:
    def __init__(self, tree, methods):
        self.env = Env()
        self.depth = 0
        self.steps = 0
        self.methods = methods
        self.block(tree.body, self.env, top=True)

    # -- statements --------------------------------------------------------------

    def block(self, body, env, top=False):
        for st in body:
            self.steps += 1
            if self.steps > 200000:
                raise Undecided("too long")
            self.stmt(st, env, top)

    def stmt(self, st, env, top):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            a, b = self.ev(ast.copy_location(_load(st.target), st), env), self.ev(st.value, env)
            if isinstance(a, list) and isinstance(b, (list, tuple)) and isinstance(st.op, ast.Add):
                a.extend(b)
                v = a
            elif isinstance(st.op, ast.LShift) and isinstance(a, Node):
                v = self.binop(st.op, a, b)
            else:
                v = self.binop(st.op, a, b)
            self.assign(st.target, v, env)
        elif isinstance(st, ast.Expr):
            self.ev(st.value, env)
        elif isinstance(st, (ast.FunctionDef,)):
            env.set(st.name, Fn(st, env))
        elif isinstance(st, ast.ClassDef):
            env.set(st.name, U)
        elif isinstance(st, ast.Import):
            for a in st.names:
                env.set(a.asname or a.name.split(".")[0], Ext(a.name if a.asname else
                                                              a.name.split(".")[0]))
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                n = a.name
                env.set(a.asname or n, self.imported(st.module or "", n))
        elif isinstance(st, ast.Global):
            env.globals_.update(st.names)
        elif isinstance(st, ast.Return):
            raise Return(self.ev(st.value, env) if st.value is not None else None)
        elif isinstance(st, ast.If):
            t = self.ev(st.test, env)
            if not known(t):
                if any(isinstance(x, (ast.Return, ast.Raise)) for y in st.body + st.orelse
                       for x in ast.walk(y)):
                    raise Undecided("condition line %d" % st.lineno)
                self.block(st.body, env, top)
            else:
                self.block(st.body if t else st.orelse, env, top)
        elif isinstance(st, ast.For):
            it = self.ev(st.iter, env)
            if not isinstance(it, (list, tuple)):
                raise Undecided("loop line %d" % st.lineno)
            for x in list(it):
                self.assign(st.target, x, env)
                self.block(st.body, env, top)
        elif isinstance(st, (ast.Pass, ast.Assert)):
            pass
        elif isinstance(st, ast.With):
            for i in st.items:
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, U, env)
            self.block(st.body, env, top)
        elif top:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    env.set(x.id, U)
        else:
            raise Undecided("statement line %d" % st.lineno)

    def imported(self, mod, n):
        if mod.split(".")[0] == "pyparsing":
            if n in CONSTS:
                return CONSTS[n]
            if n in ("quotedString", "quoted_string"):
                return Node("re", QUOTED)
            return Ext("pyparsing." + n)
        return Ext(mod + "." + n)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (list, tuple)) and len(v) == len(t.elts) and not any(
                    isinstance(x, ast.Starred) for x in t.elts):
                for a, b in zip(t.elts, v):
                    self.assign(a, b, env)
            else:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        env.set(x.id, U)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, dict) and isinstance(k, str):
                o[k] = v

    # -- expressions -------------------------------------------------------------

    def ev(self, x, env):
        self.steps += 1
        if self.steps > 200000:
            raise Undecided("too long")
        if isinstance(x, ast.Constant):
            return x.value
        if isinstance(x, ast.Name):
            return env.get(x.id)
        if isinstance(x, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for e in x.elts:
                if isinstance(e, ast.Starred):
                    v = self.ev(e.value, env)
                    if not isinstance(v, (list, tuple)):
                        return U
                    out.extend(v)
                else:
                    out.append(self.ev(e, env))
            return tuple(out) if isinstance(x, ast.Tuple) else out
        if isinstance(x, ast.Dict):
            out = {}
            for k, v in zip(x.keys, x.values):
                kk = self.ev(k, env) if k is not None else U
                if not isinstance(kk, (str, int)):
                    return U
                out[kk] = self.ev(v, env)
            return out
        if isinstance(x, ast.BinOp):
            return self.binop(x.op, self.ev(x.left, env), self.ev(x.right, env))
        if isinstance(x, ast.UnaryOp):
            v = self.ev(x.operand, env)
            if isinstance(x.op, ast.Invert) and isinstance(v, (Node, str)):
                return Node("not", as_node(v))
            if isinstance(x.op, ast.Not):
                return not v if known(v) else U
            if isinstance(x.op, ast.USub) and isinstance(v, (int, float)):
                return -v
            return U
        if isinstance(x, ast.BoolOp):
            v = U
            for e in x.values:
                v = self.ev(e, env)
                if not known(v):
                    return U
                if bool(v) == isinstance(x.op, ast.Or):
                    return v
            return v
        if isinstance(x, ast.IfExp):
            t = self.ev(x.test, env)
            if not known(t):
                return U
            return self.ev(x.body if t else x.orelse, env)
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            return self.compare(x.ops[0], self.ev(x.left, env), self.ev(x.comparators[0], env))
        if isinstance(x, ast.JoinedStr):
            out = ""
            for p in x.values:
                v = p.value if isinstance(p, ast.Constant) else self.ev(p.value, env)
                if not isinstance(v, (str, int)) or (
                        isinstance(p, ast.FormattedValue) and p.format_spec is not None):
                    return U
                out += str(v)
            return out
        if isinstance(x, ast.Lambda):
            return Fn(x, env)
        if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
            return self.comp(x, x.generators, env)
        if isinstance(x, ast.Attribute):
            return self.attr(self.ev(x.value, env), x.attr)
        if isinstance(x, ast.Subscript):
            o = self.ev(x.value, env)
            if isinstance(x.slice, ast.Slice):
                return U
            k = self.ev(x.slice, env)
            try:
                if isinstance(o, (list, tuple, str, dict)) and isinstance(k, (int, str)):
                    return o[k]
            except (KeyError, IndexError, TypeError):
                pass
            return U
        if isinstance(x, ast.NamedExpr):
            v = self.ev(x.value, env)
            self.assign(x.target, v, env)
            return v
        if isinstance(x, ast.Call):
            return self.call(x, env)
        return U

    def comp(self, x, gens, env):
        if len(gens) != 1:
            return U
        it = self.ev(gens[0].iter, env)
        if not isinstance(it, (list, tuple)):
            return U
        e2, out = Env(env), []
        for v in it:
            self.assign(gens[0].target, v, e2)
            keep = [self.ev(c, e2) for c in gens[0].ifs]
            if not all(known(k) for k in keep):
                return U
            if all(keep):
                out.append(self.ev(x.elt, e2))
        return out

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None):
            if a is U or b is U or isinstance(a, Ext) or isinstance(b, Ext):
                return U
            return (a is b) == isinstance(op, ast.Is)
        if isinstance(a, (str, int)) and isinstance(b, (str, int)):
            if isinstance(op, ast.Eq):
                return a == b
            if isinstance(op, ast.NotEq):
                return a != b
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, str) and isinstance(
                b, (list, tuple, dict, str)):
            return (a in b) == isinstance(op, ast.In)
        return U

    def binop(self, op, a, b):
        if isinstance(a, Node) or isinstance(b, Node):
            if isinstance(op, ast.LShift) and isinstance(a, Node):
                if a.kind == "fwd":
                    a.args[:] = [as_node(b)]
                    return a
                return Node("unknown", "<<")
            kinds = {ast.Add: "and", ast.Sub: "and", ast.BitOr: "alt", ast.BitXor: "or"}
            k = kinds.get(type(op))
            if isinstance(op, ast.Mult) and isinstance(b, int) and b > 0:
                return Node("and", *[a] * b)
            return Node(k, as_node(a), as_node(b)) if k else Node("unknown", "operator")
        try:
            if isinstance(op, ast.Add) and isinstance(a, (str, list, tuple)) and type(a) is type(b):
                return a + b
            if isinstance(op, ast.Mod) and isinstance(a, str) and all_known(b):
                return a % b
        except (TypeError, ValueError):
            pass
        return U

    def attr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            if name in o.methods:
                if any(getattr(d, "id", getattr(d, "attr", "")) in ("property", "cached_property")
                       for d in o.methods[name].decorator_list):
                    return self.inline(Fn(o.methods[name], self.env, bound=o, name=name), [], {})
                return Fn(o.methods[name], self.env, bound=o, name=name)
            return U
        if isinstance(o, Ext):
            if o.name == "pyparsing":
                return self.imported("pyparsing", name)
            return Ext(o.name + "." + name)
        if isinstance(o, (Node, str, list, dict)):
            return ("method", o, name)
        return U

    def call(self, x, env):
        f = self.ev(x.func, env)
        args, bad = [], False
        for a in x.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, (list, tuple)):
                    args.extend(v)
                else:
                    bad = True
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in x.keywords:
            if k.arg is None:
                bad = True
            else:
                kw[k.arg] = self.ev(k.value, env)
        if bad:
            return U
        return self.apply(f, args, kw)

    def apply(self, f, args, kw):
        if isinstance(f, Fn):
            return self.inline(f, args, kw)
        if isinstance(f, Node):
            return self.named(f, args, kw)
        if isinstance(f, tuple) and len(f) == 3 and f[0] == "method":
            return self.method(f[1], f[2], args, kw)
        if isinstance(f, Ext):
            if f.name.startswith("pyparsing."):
                return self.combinator(f.name.split(".")[-1], args, kw)
            b = f.name.split("builtin.")[-1] if f.name.startswith("builtin.") else None
            if b in ("list", "tuple", "set", "sorted", "frozenset") and len(args) == 1 and not kw:
                v = args[0]
                if isinstance(v, (list, tuple, dict)):
                    return tuple(v) if b == "tuple" else sorted(v) if b == "sorted" and all(
                        isinstance(y, str) for y in v) else list(v)
                return U
            if b in ("list", "tuple", "dict", "set") and not args and not kw:
                return {"list": [], "tuple": (), "dict": {}, "set": []}[b]
            if b == "hasattr" and len(args) == 2 and isinstance(args[0], Obj):
                return args[1] in args[0].attrs or args[1] in args[0].methods
            if b == "getattr" and len(args) >= 2 and isinstance(args[0], Obj) and isinstance(
                    args[1], str):
                v = self.attr(args[0], args[1])
                return args[2] if v is U and len(args) == 3 else v
            if b == "setattr" and len(args) == 3 and isinstance(args[0], Obj) and isinstance(
                    args[1], str):
                args[0].attrs[args[1]] = args[2]
                return None
            if b == "sum" and args and isinstance(args[0], list):
                out = args[1] if len(args) > 1 else 0
                for v in args[0]:
                    out = v if out == 0 and not isinstance(out, list) else self.binop(
                        ast.Add(), out, v)
                return out
            if f.name.split(".")[-1] == "reduce" and len(args) >= 2 and isinstance(
                    args[1], (list, tuple)):
                xs = list(args[2:3]) + list(args[1])
                out = xs[0] if xs else U
                for v in xs[1:]:
                    out = self.apply(args[0], [out, v], {})
                return out
            ops = {"operator.or_": ast.BitOr(), "operator.add": ast.Add()}
            if f.name in ops and len(args) == 2:
                return self.binop(ops[f.name], *args)
            if f.name == "re.escape" and len(args) == 1 and isinstance(args[0], str):
                return re.escape(args[0])
            if b == "map" and len(args) == 2 and isinstance(args[1], (list, tuple)):
                return [self.apply(args[0], [v], {}) for v in args[1]]
            if b == "str" and len(args) == 1 and isinstance(args[0], str):
                return args[0]
        return U

    def inline(self, f, args, kw):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = Env(f.env)
        if f.bound is not None and not any(
                isinstance(d, ast.Name) and d.id == "staticmethod"
                for d in getattr(f.node, "decorator_list", [])):
            args = [f.bound] + args
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dflt[k.arg] = d
        allnames = names + [k.arg for k in a.kwonlyargs]
        for k in allnames:
            if k in dflt:
                env.v[k] = self.ev(dflt[k], f.env)
            else:
                env.v[k] = U
        for k, v in zip(names, args):
            env.v[k] = v
        if a.vararg is not None:
            env.v[a.vararg.arg] = list(args[len(names):])
        elif len(args) > len(names):
            return U
        for k, v in kw.items():
            if k not in allnames:
                return U
            env.v[k] = v
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        self.depth += 1
        if self.depth > 12:
            self.depth -= 1
            return U
        try:
            self.block(f.node.body, env)
        except Return as r:
            return r.value
        finally:
            self.depth -= 1
        return None

    def named(self, n, args, kw):
        if not args and not kw:
            return n.copy()
        v = args[0] if args else kw.get("name")
        if not isinstance(v, str):
            return Node("unknown", "name")
        c = n.copy()
        c.names = [v.rstrip("*")]
        return c

    def method(self, o, name, args, kw):
        if isinstance(o, Node):
            if name in ("setParseAction", "set_parse_action", "addParseAction",
                        "add_parse_action"):
                if name.startswith("set"):
                    o.actions = []
                for a in args:
                    o.actions.append(a.name if isinstance(a, Fn) else "?")
                return o
            if name in ("setResultsName", "set_results_name"):
                return self.named(o, args, {"name": kw.get("name")} if kw else {})
            if name in ("suppress",):
                return Node("sup", o)
            if name == "copy":
                return o.copy()
            if name in ("ignore", "setName", "set_name", "setDebug", "set_debug", "streamline",
                        "parseWithTabs", "setBreak", "set_whitespace_chars_"):
                return o
            return U
        if isinstance(o, str):
            try:
                if name == "format" and all_known(args) and all_known(list(kw.values())):
                    return o.format(*args, **kw)
                if name == "join" and isinstance(args[0], (list, tuple)) and all(
                        isinstance(v, str) for v in args[0]):
                    return o.join(args[0])
                if name in ("split", "strip", "lower", "upper", "replace") and all(
                        isinstance(v, str) for v in args):
                    return getattr(o, name)(*args)
            except (IndexError, KeyError, TypeError, ValueError):
                pass
            return U
        if isinstance(o, list):
            if name == "append":
                o.append(args[0])
                return None
            if name == "extend" and isinstance(args[0], (list, tuple)):
                o.extend(args[0])
                return None
            if name == "copy":
                return list(o)
        if isinstance(o, dict):
            if name == "keys":
                return list(o)
            if name == "values":
                return list(o.values())
            if name == "items":
                return list(o.items())
            if name == "get" and isinstance(args[0], str):
                return o.get(args[0], args[1] if len(args) > 1 else None)
        return U

    def combinator(self, name, args, kw):
        kind = COMBINE.get(name)
        if name == "And" or name in ("MatchFirst", "Or"):
            xs = args[0] if args else []
            if not isinstance(xs, (list, tuple)):
                return Node("unknown", name)
            return Node(kind, *[as_node(v) for v in xs])
        if kind is None:
            return Node("unknown", name) if name[:1].isupper() or name in (
                "infixNotation",) else U
        if kind in ("fwd",):
            return Node("fwd", *[as_node(v) for v in args[:1]])
        if kind in ("group", "sup", "opt", "star", "plus", "not", "look"):
            e = args[0] if args else kw.get("expr", U)
            if kw.get("stopOn") or kw.get("stop_on"):
                return Node("unknown", name)
            return Node(kind, as_node(e))
        if kind == "eps":
            return Node("and")
        if kind == "skipto":
            return Node(kind, as_node(args[0])) if len(args) == 1 and not kw else Node(
                "unknown", name)
        if kind in ("lit", "kw"):
            if len(args) < 1 or not isinstance(args[0], str):
                return Node("unknown", name)
            return Node(kind, args[0])
        if kind == "re":
            v = args[0] if args else kw.get("pattern", U)
            if not isinstance(v, str) or len(args) > 1:
                return Node("unknown", name)
            return Node("re", v)
        if kind == "word":
            if not args or not all(isinstance(v, str) for v in args[:2]) or len(args) > 2 or [
                    k for k in kw if k not in ("bodyChars", "body_chars", "initChars")]:
                return Node("unknown", name)
            return Node("word", args[0], args[1] if len(args) > 1 else
                        kw.get("bodyChars", kw.get("body_chars", args[0])))
        if kind in ("ws", "we"):
            v = args[0] if args else CONSTS["printables"]
            return Node(kind, v) if isinstance(v, str) else Node("unknown", name)
        if kind == "dl":
            d = args[1] if len(args) > 1 else kw.get("delim", ",")
            e = as_node(args[0] if args else kw.get("expr", U))
            rest = Node("and", Node("sup", as_node(d)), e)
            out = [e, Node("star", rest)]
            if kw.get("allow_trailing_delim"):
                out.append(Node("opt", Node("sup", as_node(d))))
            return Node("and", *out)
        if kind == "oneof":
            v = args[0] if args else U
            if isinstance(v, str):
                v = v.split()
            if not isinstance(v, (list, tuple)) or not all(isinstance(y, str) for y in v) or [
                    k for k, y in kw.items() if y]:
                return Node("unknown", name)
            return Node("oneof", *v)
        if kind == "nested":
            v = list(args)
            o = v[0] if v else kw.get("opener", "(")
            c = v[1] if len(v) > 1 else kw.get("closer", ")")
            if not isinstance(o, str) or not isinstance(c, str) or len(o) != 1 or len(c) != 1 or \
                    len(v) > 2 or "content" in kw:
                return Node("unknown", name)
            return Node("nested", o, c)
        return Node("unknown", name)


def known(v):
    return v is not U and not isinstance(v, Ext) and not (
        isinstance(v, tuple) and len(v) == 3 and v[0] == "method")


def all_known(v):
    if isinstance(v, (list, tuple)):
        return all(all_known(x) for x in v)
    return isinstance(v, (str, int, float))


def _load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    return t2


# -- language -----------------------------------------------------------------------


def nodes_of(n, seen=None):
    seen = {} if seen is None else seen
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, Node) and id(x) not in seen:
            seen[id(x)] = x
            stack.extend(x.args)
    return list(seen.values())


class Matcher:
    """Longest prefix of a text a node recognises, with what is named in it."""

    def __init__(self, text):
        self.s = text
        self.memo = {}
        self.stack = set()
        self.rx = {}

    def ws(self, i):
        s = self.s
        while i < len(s) and s[i] in " \t\r\n":
            i += 1
        return i

    def match(self, n, i):
        """(end, ((name, text)...), ((action, text)...), kept text) or None"""
        k = (id(n), i)
        if k in self.memo:
            return self.memo[k]
        if k in self.stack:
            raise LeftRecursion("left recursion")
        self.stack.add(k)
        try:
            r = self.raw(n, i)
        finally:
            self.stack.discard(k)
        if r is not None:
            j, names, acts, kept = r
            text = self.s[self.ws(i):j].strip()
            if n.names and j > i:
                names = names + tuple((x, text) for x in n.names)
            if n.actions:
                acts = acts + tuple((x, text) for x in n.actions)
            r = (j, names, acts, kept)
        self.memo[k] = r
        return r

    def raw(self, n, i):
        s, k = self.s, n.kind
        if k == "unknown":
            raise Undecided("unknown element %s" % (n.args[0] if n.args else ""))
        if k in ("and",):
            names, acts, kept = (), (), ()
            for x in n.args:
                r = self.match(x, i)
                if r is None:
                    return None
                i = r[0]
                names, acts, kept = names + r[1], acts + r[2], kept + r[3]
            return i, names, acts, kept
        if k == "alt":
            for x in n.args:
                r = self.match(x, i)
                if r is not None:
                    return r
            return None
        if k == "or":
            rs = [r for r in (self.match(x, i) for x in n.args) if r is not None]
            return max(rs, key=lambda r: r[0]) if rs else None
        if k in ("group", "fwd"):
            if not n.args:
                raise Undecided("empty Forward")
            return self.match(n.args[0], i)
        if k == "sup":
            r = self.match(n.args[0], i)
            return r and (r[0], (), r[2], ())
        if k == "opt":
            r = self.match(n.args[0], i)
            return r if r is not None else (i, (), (), ())
        if k in ("star", "plus"):
            names, acts, kept, c = (), (), (), 0
            while True:
                r = self.match(n.args[0], i)
                if r is None or (r[0] == i and c):
                    break
                c += 1
                names, acts, kept = names + r[1], acts + r[2], kept + r[3]
                if r[0] == i:
                    break
                i = r[0]
            return (i, names, acts, kept) if c or k == "star" else None
        if k == "not":
            return None if self.match(n.args[0], i) is not None else (i, (), (), ())
        if k == "look":
            return (i, (), (), ()) if self.match(n.args[0], i) is not None else None
        if k == "we":
            if i < len(s) and s[i] in n.args[0]:
                return None
            if i == 0 or s[i - 1] not in n.args[0]:
                return None
            return i, (), (), ()
        i = self.ws(i)
        if k == "ws":
            if i and s[i - 1] in n.args[0] or i >= len(s) or s[i] not in n.args[0]:
                return None
            return i, (), (), ()
        if k == "lit":
            if not n.args[0]:
                return i, (), (), ()
            j = i + len(n.args[0])
            return (j, (), (), (n.args[0],)) if s.startswith(n.args[0], i) else None
        if k == "kw":
            j = i + len(n.args[0])
            w = ALNUM + "_$"
            if not s.startswith(n.args[0], i) or j < len(s) and s[j] in w or i and s[i - 1] in w:
                return None
            return j, (), (), (n.args[0],)
        if k == "oneof":
            hits = [x for x in n.args if s.startswith(x, i)]
            if not hits:
                return None
            x = max(hits, key=len)
            return i + len(x), (), (), (x,)
        if k == "re":
            rx = self.rx.get(n.args[0])
            if rx is None:
                try:
                    rx = self.rx[n.args[0]] = re.compile(n.args[0])
                except re.error:
                    raise Undecided("pattern %r" % n.args[0])
            m = rx.match(s, i)
            return (m.end(), (), (), (m.group(),)) if m else None
        if k == "word":
            if i >= len(s) or s[i] not in n.args[0]:
                return None
            j = i + 1
            while j < len(s) and s[j] in n.args[1]:
                j += 1
            return j, (), (), (s[i:j],)
        if k == "skipto":
            for j in range(i, len(s) + 1):
                if self.match(n.args[0], j) is not None:
                    return j, (), (), (s[i:j],)
            return None
        if k == "nested":
            if i >= len(s) or s[i] != n.args[0]:
                return None
            d, j = 0, i
            q = re.compile(QUOTED)
            while j < len(s):
                m = q.match(s, j)
                if m:
                    j = m.end()
                    continue
                d += (s[j] == n.args[0]) - (s[j] == n.args[1])
                j += 1
                if not d:
                    return j, (), (), (s[i:j],)
            return None
        raise Undecided("element " + k)
