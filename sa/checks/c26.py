"""Names which exist on some platforms or versions of Python only."""

import ast
import builtins

TITLE = "nothing the platform or the version of Python lacks is ever needed"
RULES = (
    "for each supported platform (linux, darwin, win32) and version of Python (3.10, 3.12) the "
    "conditions on them are evaluated (flags kept in variables, early exits and helpers "
    "reached under such conditions only included): in the code left, every name read is a builtin "
    "or bound by code left, and nothing is imported or read from the standard library "
    "which is not there on that platform or version."
)
ASSUMPTIONS = (
    "the standard library has what its documentation says on each platform",
    "conditions not about sys.platform, os.name or sys.version_info may go both ways",
)

CONFIGS = [(pl, v) for pl in ("linux", "darwin", "win32") for v in ((3, 10), (3, 12))]
#: dotted name -> platforms having it
ONLY = {}
for _n in ("windll", "oledll", "WINFUNCTYPE", "HRESULT", "WinDLL", "OleDLL", "WinError", "FormatError",
           "GetLastError", "get_last_error", "set_last_error", "DllCanUnloadNow", "DllGetClassObject"):
    ONLY["ctypes." + _n] = ("win32",)
for _n in ("winreg", "msvcrt", "_winapi", "winsound", "nt"):
    ONLY[_n] = ("win32",)
for _n in ("fcntl", "pwd", "grp", "posix", "resource", "termios", "pty"):
    ONLY[_n] = ("linux", "darwin")
for _n in ("os.startfile", "os.add_dll_directory", "sys.getwindowsversion", "sys.winver", "sys.dllhandle"):
    ONLY[_n] = ("win32",)
for _n in ("os.fork", "os.uname", "os.getuid", "os.geteuid", "os.chown", "sys.getdlopenflags",
           "sys.setdlopenflags"):
    ONLY[_n] = ("linux", "darwin")
#: dotted name -> first version having it
SINCE = {"ctypes.c_time_t": (3, 12), "tomllib": (3, 11), "itertools.batched": (3, 12), "enum.StrEnum": (3, 11),
         "datetime.UTC": (3, 11), "typing.Self": (3, 11), "typing.override": (3, 12), "ctypes.SIZEOF_TIME_T": (3, 12)}


class Never(Exception):
    pass


def literal(n):
    try:
        return ast.literal_eval(n)
    except ValueError:
        raise Never


class Eval:
    """Three-valued conditions under one configuration."""

    def __init__(self, config, p=None, m=None, depth=0):
        self.platform, self.version = config
        self.p, self.m, self.depth = p, m, depth
        self.flags = [{}]

    def target(self, name):
        t = self.m.imports.get(name, "") if self.m else ""
        if t.startswith("pkg:"):
            mod, _, nm = t[4:].rpartition(".")
            return self.p.modules.get(mod), nm
        return self.m, name

    def elsewhere(self, name):
        """Value of a flag of a module."""
        m, nm = self.target(name)
        vs = m.globals.get(nm, ()) if m else ()
        if len(vs) != 1 or self.depth > 5 or not isinstance(vs[0], ast.expr):
            raise Never
        return Eval((self.platform, self.version), self.p, m, self.depth + 1).value(vs[0])

    def helper(self, name):
        """Value given by a function which is a single expression."""
        m, nm = self.target(name)
        f = m.functions.get(nm) if m else None
        if f is None or self.depth > 5:
            raise Never
        body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            raise Never
        return Eval((self.platform, self.version), self.p, m, self.depth + 1).value(body[0].value)

    def value(self, n):
        """Python value of an expression about the platform."""
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            d = n.value.id + "." + n.attr
            if d == "sys.platform":
                return self.platform
            if d == "os.name":
                return "nt" if self.platform == "win32" else "posix"
            if d == "sys.version_info":
                return self.version
            if d == "os.sep":
                return "\\" if self.platform == "win32" else "/"
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            v = self.value(n.value)
            lo, hi = (None if x is None else literal(x) for x in (n.slice.lower, n.slice.upper))
            return v[lo:hi]
        if isinstance(n, ast.Subscript):
            try:
                return self.value(n.value)[literal(n.slice)]
            except (IndexError, KeyError, TypeError):
                raise Never
        if isinstance(n, ast.Name):
            for f in reversed(self.flags):
                if n.id in f:
                    if f[n.id] is None:
                        raise Never
                    return f[n.id][0]
            return self.elsewhere(n.id)
        if isinstance(n, ast.Call) and not n.keywords:
            if isinstance(n.func, ast.Name) and not n.args:
                return self.helper(n.func.id)
            if isinstance(n.func, ast.Attribute):
                d = ast.unparse(n.func)
                if d == "platform.system" and not n.args:
                    return {"linux": "Linux", "darwin": "Darwin", "win32": "Windows"}[self.platform]
                if n.func.attr in ("startswith", "endswith", "lower", "upper"):
                    v = self.value(n.func.value)
                    return getattr(v, n.func.attr)(*[literal(a) for a in n.args])
            raise Never
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            return tuple(self.value(x) for x in n.elts)
        if isinstance(n, (ast.Compare, ast.BoolOp)) or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            v = self.truth(n)
            if v is None:
                raise Never
            return v
        return literal(n)

    def truth(self, n):
        if isinstance(n, ast.BoolOp):
            vs = [self.truth(x) for x in n.values]
            if isinstance(n.op, ast.And):
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            v = self.truth(n.operand)
            return None if v is None else not v
        try:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = self.value(n.left), self.value(n.comparators[0])
                op = type(n.ops[0]).__name__
                return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b,
                        "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b,
                        "In": lambda: a in b, "NotIn": lambda: a not in b}[op]()
            if isinstance(n, ast.Compare):
                return None
            return bool(self.value(n))
        except (Never, KeyError, TypeError):
            return None


def counts(ctx, m):
    """How many times each name is bound in each function of a module."""
    key = "%c26counts" + m.name
    if key not in ctx.cache:
        out = ctx.cache[key] = {}

        def go(n, q):
            f = getattr(n, "_finfo", None)
            if f is not None:
                q = f.qual
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out[q, n.id] = out.get((q, n.id), 0) + 1
            if isinstance(n, ast.Global):
                for x in n.names:
                    out["", x] = 2
            for c in ast.iter_child_nodes(n):
                go(c, q)

        go(m.tree, "")
    return ctx.cache[key]


def caught(node, *names):
    """Handlers meant for the absence of a name take care of it."""
    small = len(node.body) == 1 and not isinstance(node.body[0], (ast.If, ast.For, ast.While, ast.With, ast.Try))
    for h in node.handlers:
        if h.body and isinstance(h.body[-1], ast.Raise):
            continue
        ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        ids = {getattr(t, "id", getattr(t, "attr", "")) for t in ts}
        if ids & set(names) or small and (not ts or ids & {"Exception", "BaseException"}):
            return True
    return False


class Live:
    """The code of a module which can run under a configuration."""

    def __init__(self, ctx, m, config, dead_funcs):
        self.ev = Eval(config, ctx.p, m)
        self.ctx = ctx
        self.m = m
        self.internal = []  # (module, name, node, protected)
        self.dead = dead_funcs
        self.reads = []  # (name, node, scopes, protected)
        self.refs = set()  # names and attributes used
        self.imports = []  # (dotted, node, protected)
        self.attrs = []  # (dotted, node, protected)
        self.scopes = [{"names": set(), "kind": "module", "known": {}}]
        self.modules = {}
        self.protect = []
        self.func = None
        self.count = counts(ctx, m)
        self.block(m.tree.body)
        self.flush = None

    # scopes
    def bind(self, name, kind=None):
        s = self.scopes[-1]
        if s["kind"] == "function" and name in s["globals"]:
            s = self.scopes[0]
        s["names"].add(name)

    def flag(self, name, v):
        if self.count.get((self.func.qual if self.func else "", name), 0) != 1:
            v = None
        self.ev.flags[-1][name] = None if name in self.ev.flags[-1] and self.ev.flags[-1][name] != v else v

    def block(self, body):
        """Runs through statements; True when the end is never reached."""
        for s in body:
            if self.stmt(s):
                return True
        return False

    def stmt(self, s):
        if isinstance(s, ast.If):
            v = self.cond(s.test)
            out = []
            if v is not False:
                out.append(self.block(s.body))
            if v is not True:
                out.append(self.block(s.orelse))
            return all(out)
        if isinstance(s, ast.Try):
            self.protect.append(s)
            self.block(s.body)
            self.protect.pop()
            for h in s.handlers:
                if h.type is not None:
                    self.expr(h.type)
                if h.name:
                    self.bind(h.name)
                self.block(h.body)
            self.block(s.orelse)
            return self.block(s.finalbody)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter)
            self.target(s.target)
            self.block(s.body)
            self.block(s.orelse)
            return False
        if isinstance(s, ast.While):
            if self.cond(s.test) is not False:
                self.block(s.body)
            self.block(s.orelse)
            return False
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.target(i.optional_vars)
            return self.block(s.body)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.expr(d)
            a = s.args
            for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
                self.expr(d)
            self.bind(s.name)
            self.later(s)
            return False
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.expr(d)
            self.scopes.append({"names": set(), "kind": "class", "known": {}})
            self.ev.flags.append({})
            self.block(s.body)
            self.ev.flags.pop()
            self.scopes.pop()
            self.bind(s.name)
            return False
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if isinstance(s, ast.Import):
                    self.imports.append((a.name, s, tuple(self.protect)))
                    self.bind(a.asname or a.name.split(".")[0])
                    self.modules[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                else:
                    t = self.ctx.p._rel_target(self.m, s)
                    if t.startswith("pkg:"):
                        self.internal.append((t[4:], a.name, s, tuple(self.protect)))
                    else:
                        self.imports.append((s.module + "." + a.name, s, tuple(self.protect)))
                        self.imports.append((s.module, s, tuple(self.protect)))
                    if a.name == "*":
                        self.scopes[0]["star"] = True
                    self.bind(a.asname or a.name)
            return False
        if isinstance(s, ast.Global):
            if self.scopes[-1]["kind"] == "function":
                self.scopes[-1]["globals"] |= set(s.names)
            return False
        if isinstance(s, ast.Assign):
            self.expr(s.value)
            if not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                for t in s.targets:
                    self.target(t)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.bind(s.targets[0].id)
                try:
                    self.flag(s.targets[0].id, (self.ev.value(s.value),))
                except (Never, TypeError, AttributeError):
                    self.ev.flags[-1][s.targets[0].id] = None
            return False
        if isinstance(s, ast.AugAssign):
            self.expr(s.value)
            self.target(s.target)
            if isinstance(s.target, ast.Name):
                self.ev.flags[-1][s.target.id] = None
            return False
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value)
                self.target(s.target)
            return False
        if isinstance(s, ast.Match):
            self.expr(s.subject)
            for c in s.cases:
                for x in ast.walk(c.pattern):
                    for f in ("name", "rest"):
                        if isinstance(getattr(x, f, None), str):
                            self.bind(getattr(x, f))
                if c.guard is not None:
                    self.expr(c.guard)
                self.block(c.body)
            return False
        if isinstance(s, ast.Assert):
            if self.cond(s.test) is False:
                return True
            return False
        if isinstance(s, ast.Delete):
            return False
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.expr(x)
        return isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def cond(self, n):
        """Reads what a condition reads, as far as it is evaluated."""
        self.expr(n)
        return self.ev.truth(n)

    def target(self, t):
        if isinstance(t, ast.Name):
            self.bind(t.id)
            self.ev.flags[-1].setdefault(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x)
        elif isinstance(t, ast.Starred):
            self.target(t.value)
        else:
            for x in ast.iter_child_nodes(t):
                if isinstance(x, ast.expr):
                    self.expr(x)

    def expr(self, n):
        if isinstance(n, ast.BoolOp):
            stop = isinstance(n.op, ast.Or)
            for x in n.values:
                self.expr(x)
                if self.ev.truth(x) is stop:
                    return
            return
        if isinstance(n, ast.IfExp):
            v = self.cond(n.test)
            if v is not False:
                self.expr(n.body)
            if v is not True:
                self.expr(n.orelse)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self.expr(d)
            self.inner(n, n.args, lambda: self.expr(n.body))
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.expr(n.generators[0].iter)
            self.scopes.append({"names": set(), "kind": "comp", "globals": set()})
            self.ev.flags.append({})
            for i, g in enumerate(n.generators):
                if i:
                    self.expr(g.iter)
                self.target(g.target)
                for c in g.ifs:
                    self.expr(c)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.expr(x)
            self.ev.flags.pop()
            self.scopes.pop()
            return
        if isinstance(n, ast.NamedExpr):
            self.expr(n.value)
            for sc in reversed(self.scopes):
                if sc["kind"] != "comp":
                    sc["names"].add(n.target.id)
                    break
            self.ev.flags[-1][n.target.id] = None
            return
        if isinstance(n, ast.Name):
            self.reads.append((n.id, n, tuple(self.scopes), tuple(self.protect), self.func))
            self.refs.add(n.id)
            return
        if isinstance(n, ast.Attribute):
            self.refs.add(n.attr)
            if isinstance(n.value, ast.Name):
                mod = self.modules.get(n.value.id)
                if mod and not any(n.value.id in s["names"] for s in self.scopes[1:]):
                    self.attrs.append((mod + "." + n.attr, n, tuple(self.protect), self.func))
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.expr(x)
            elif isinstance(x, ast.keyword):
                self.expr(x.value)

    def inner(self, n, args, run):
        self.scopes.append({"names": {x.arg for x in args.posonlyargs + args.args + args.kwonlyargs} | {
            x.arg for x in (args.vararg, args.kwarg) if x}, "kind": "function", "globals": set()})
        self.ev.flags.append({x: None for x in self.scopes[-1]["names"]})
        saved, self.protect = self.protect, []
        run()
        self.protect = saved
        self.ev.flags.pop()
        self.scopes.pop()

    def later(self, s):
        """The body of a function."""
        f = getattr(s, "_finfo", None)
        if f is not None and f.qual in self.dead:
            return
        before, self.func = self.func, f or self.func
        self.inner(s, s.args, lambda: self.block(s.body))
        self.func = before


def run(ctx):
    p, r = ctx.p, ctx.r
    mods = [m for m in p.modules.values() if not m.name.startswith("headers")]
    for f in p.functions.values():
        f.node._finfo = getattr(f.node, "_finfo", None) or f
    for config in CONFIGS:
        name = "%s, Python %d.%d" % (config[0], *config[1])
        # helpers used by dead code only are dead
        dead = set()
        while True:
            lives = [Live(ctx, m, config, dead) for m in mods]
            refs = set().union(*(x.refs for x in lives))
            more = {f.qual for f in p.functions.values()
                    if f.name.startswith("_") and not f.name.startswith("__") and f.name not in refs
                    and f.qual not in dead and called(ctx, f)}
            if not more:
                break
            dead |= more
        for lv in lives:
            judge(ctx, lv, config, name, {x.m.name: x for x in lives})
    r.floor("bound", 10)
    r.floor("available", 5)
    r.functions |= {f.qual for m in mods for f in p.functions.values() if f.module is m}


def called(ctx, f):
    """Something in the package uses it (under another configuration)."""
    table = ctx.cache.get("%c26refs")
    if table is None:
        table = ctx.cache["%c26refs"] = set()
        for m in ctx.p.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Name):
                    table.add(x.id)
                elif isinstance(x, ast.Attribute):
                    table.add(x.attr)
    return f.name in table


def judge(ctx, lv, config, name, lives):
    r = ctx.r
    rel = lv.m.rel

    def missing(dotted):
        if dotted in ONLY and config[0] not in ONLY[dotted]:
            return "not available on %s" % config[0]
        if dotted in SINCE and config[1] < SINCE[dotted]:
            return "not available before Python %d.%d" % SINCE[dotted]
        return None

    for d, n, prot in lv.imports:
        why = missing(d)
        ok = why is None or any(caught(t, "ImportError", "ModuleNotFoundError") for t in prot)
        r.check(ok, "available", "%s imported by %s (%s)" % (d, rel, name), why or "", "%s:%d" % (rel, n.lineno))
    for d, n, prot, f in lv.attrs:
        if d in ONLY or d in SINCE:
            why = missing(d)
            ok = why is None or any(caught(t, "AttributeError") for t in prot)
            r.check(ok, "available", "%s used by %s (%s)" % (d, f.qual if f else rel, name), why or "",
                    "%s:%d" % (rel, n.lineno))
    for mod, nm, n, prot in lv.internal:
        t = lives.get(mod)
        sub = (mod + "." if mod else "") + nm
        if t is None or sub in ctx.p.modules or t.scopes[0].get("star"):
            continue
        ok = nm in t.scopes[0]["names"] or any(caught(x, "ImportError") for x in prot)
        r.check(ok, "available", "%s imported from %s by %s (%s)" % (nm, mod or "the package", rel, name),
                "nothing binds it there", "%s:%d" % (rel, n.lineno))
    top = lv.scopes[0]
    if top.get("star"):
        return
    known = {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__class__", "__builtins__"}
    for nm, n, scopes, prot, f in lv.reads:
        inside = [s for s in scopes if s["kind"] != "class" or s is scopes[-1]]
        ok = any(nm in s["names"] for s in inside) or hasattr(builtins, nm) or nm in known
        ok = ok or nm == "WindowsError" and config[0] == "win32"
        ok = ok or any(caught(t, "NameError") for t in prot)
        where = "%s:%d" % (rel, n.lineno)
        r.check(ok, "bound", "%s in %s (%s)" % (nm, f.qual if f else rel, name),
                "nothing binds the name there", where)
