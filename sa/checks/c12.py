"""Arithmetic types of C are bound to the ctypes type of the same C type."""

import ast
from itertools import permutations

from ..common import where
from ..flow import C, NONE, is_const, mentions, show, subterms
from ..program import AnalysisBroken

TITLE = "each arithmetic C type is bound to the ctypes type of that C type"
RULES = (
    "constant propagation over the construction of the table of types, on every path: each "
    "valid spelling of an arithmetic C type (specifiers in any order) is present with the "
    "ctypes type of that C type and no other; every keyword the parser accepts as a type, "
    "under the same condition, has an entry (void apart); the types given by the user end "
    "up in the table; pointers to char, wide char and void use the ctypes types made for "
    "them; enumerations are int, void is None; 'signed' is dropped as a word."
)
ASSUMPTIONS = ("ctypes.c_X has the size and sign of the C type X on the platform",
               "plain and signed char are both c_char (the tests pin it)")


def oracle():
    """{spelling: allowed ctypes names}."""
    out = {}

    def put(words, *ct):
        for perm in permutations(words.split()):
            out.setdefault(" ".join(perm), set()).update(ct)
    put("char", "c_char")
    put("unsigned char", "c_ubyte", "c_uint8")
    for u in ("", "unsigned "):
        for i in ("", " int"):
            put((u + "short" + i).strip(), "c_ushort" if u else "c_short")
            put((u + "long" + i).strip(), "c_ulong" if u else "c_long")
            put((u + "long long" + i).strip(), "c_ulonglong" if u else "c_longlong")
    put("int", "c_int")
    put("unsigned", "c_uint")
    put("unsigned int", "c_uint")
    put("float", "c_float")
    put("double", "c_double")
    put("long double", "c_longdouble")
    put("bool", "c_bool")
    for n in (8, 16, 32, 64):
        put("int%d_t" % n, "c_int%d" % n)
        put("uint%d_t" % n, "c_uint%d" % n)
    put("int8_t", "c_byte")
    put("uint8_t", "c_ubyte")
    put("size_t", "c_size_t")
    put("ssize_t", "c_ssize_t")
    put("wchar", "c_wchar")
    put("wchar_t", "c_wchar")
    return out


EXTRA = {"time_t": {"c_time_t"}, "__int64": {"c_longlong", "c_int64"}, "unsigned __int64": {"c_ulonglong", "c_uint64"},
         "__int64 unsigned": {"c_ulonglong", "c_uint64"}, "HRESULT": {"HRESULT", "c_long"}, "_Bool": {"c_bool"},
         "intptr_t": {"c_ssize_t", "c_void_p", "c_long", "c_int64"}, "uintptr_t": {"c_size_t", "c_ulong"},
         "void": {"None"}, "signed char": {"c_byte", "c_char"}, "signed": {"c_int"}, "signed int": {"c_int"},
         "__int32": {"c_int", "c_int32"}, "__int16": {"c_short", "c_int16"}, "__int8": {"c_byte", "c_char"}}
PTR = {"char": {"c_char_p"}, "wchar": {"c_wchar_p"}, "wchar_t": {"c_wchar_p"}, "void": {"c_void_p"},
       "signed char": {"c_char_p"}}


class Table:
    def __init__(self):
        self.items = {}
        self.params = set()
        self.any_order = False
        self.ordered = set()
        self.opaque = []

    def merge(self, o, keeps=False):
        if keeps:
            # the entries already there win
            for k, v in o.items.items():
                self.items.setdefault(k, v)
            if not self.items:
                self.params |= o.params
            return
        if "int" in o.items and not o.params:
            self.params = set()     # what was given before is overridden
        self.items.update(o.items)
        self.params |= o.params
        self.any_order = self.any_order or o.any_order
        self.ordered |= o.ordered
        self.opaque += o.opaque


class Eval:
    def __init__(self, ctx, fl, trace, module):
        self.ctx, self.fl, self.trace, self.module = ctx, fl, trace, module
        self.busy = set()

    def table(self, t, upto=None):
        fl = self.fl
        t = fl.strip(t)
        out = Table()
        if t in self.busy:
            return out
        if t[0] == "param":
            out.params.add(t[1])
            base = t
        elif t[0] == "obj" and t[1] == "dict":
            base = t
        elif t[0] == "call" and t[1] == ("builtin", "dict") or (
                t[0] == "call" and t[1][0] == "method" and t[1][2] == "copy") or (
                t[0] == "call" and t[1][0] == "ext" and t[1][1] == "copy.copy"):
            src = t[1][1] if t[1][0] == "method" else (t[2][0] if t[2] else None)
            if src is not None:
                if src[0] == "comp":
                    out.merge(self.comp(src))
                else:
                    out.merge(self.table(src))
            for k, v in t[3]:
                if k == "**":
                    out.merge(self.table(v))
                else:
                    out.items[k] = v
            base = t
        elif t[0] == "global":
            return self.glob(t[1], t[2])
        elif t[0] == "attr" and t[1][0] in ("module", "func"):
            return self.glob(None, t[2])
        elif t[0] == "comp":
            return self.comp(t)
        elif t[0] == "bin" and t[1] == "BitOr":
            out.merge(self.table(t[2]))
            out.merge(self.table(t[3]))
            return out
        else:
            out.opaque.append(t)
            return out
        self.busy.add(t)
        started = t[0] != "obj"
        for e in self.trace if upto is None else upto:
            if not started:
                it = (e.state or {}).get((t, "#items"))
                if it is not None:
                    self.load(out, it)
                    started = True
            if e.kind == "mutate" and fl.strip(e.target) == base:
                self.apply(out, e)
        if not started and t[0] == "obj":
            for e in fl.events:
                it = (e.state or {}).get((t, "#items"))
                if it is not None:
                    self.load(out, it)
                    break
        self.busy.discard(t)
        return out

    def load(self, out, items):
        for row in items:
            if isinstance(row, tuple) and len(row) == 2 and is_const(row[0]):
                out.items[row[0][2]] = row[1]
            elif isinstance(row, tuple) and len(row) == 2 and row[0] in (NONE, ("star",), None, "**"):
                out.merge(self.table(row[1]))
            elif isinstance(row, tuple) and row and row[0] in ("star", "dstar"):
                out.merge(self.table(row[1]))
            else:
                out.opaque.append(row)

    def apply(self, out, e):
        fl = self.fl
        if e.how in ("update", "augassign", "__ior__"):
            for a in e.args or ():
                out.merge(self.table(a))
            for k, v in e.kwargs or ():
                out.items[k] = v
        elif e.how in ("setitem", "setdefault") and len(e.args) == 2:
            k, v = fl.strip(e.args[0]), e.args[1]
            if is_const(k):
                if e.how == "setitem" or k[2] not in out.items:
                    out.items[k[2]] = v
            elif e.loops and perm_key(k):
                v = fl.strip(v)
                # the value is the one of the name permuted
                nm = perm_key(k)
                keeps = e.how == "setdefault" or any(
                    a[0] == "in" and fl.strip(a[1]) == k and not pol for a, pol in e.conds.items())
                if keeps and (v[0] == "item" and v[2] == nm or v[0] in ("val", "elem") and mentions(
                        v, nm[1] if len(nm) > 1 else nm)):
                    out.any_order = True
                    out.ordered |= set(out.items)
                else:
                    out.opaque.append(v)
            elif e.loops:
                # copied item by item
                src = e.loops[-1][2]
                keeps = e.how == "setdefault" or any(
                    a[0] == "in" and fl.strip(a[1]) == k and fl.strip(a[2]) == fl.strip(e.target) and not pol
                    for a, pol in e.conds.items())
                out.merge(self.table(items_source(src)) if src else Table(), keeps)
        elif e.how in ("pop", "delitem") and e.args and is_const(e.args[0]):
            out.items.pop(e.args[0][2], None)
        elif e.how == "clear":
            out.items.clear()
            out.params.clear()

    def comp(self, t):
        out = Table()
        src = t[3] if len(t) > 3 else None
        if src is not None:
            out.merge(self.table(items_source(src)))
        return out

    def glob(self, mod, name):
        out = Table()
        ms = [m for m in self.ctx.p.modules.values() if mod is None and m is self.module or m.name == mod]
        for m in ms:
            for v in m.globals.get(name, ()):
                out.merge(self.node(v, m))
        return out

    def node(self, v, m):
        out = Table()
        if isinstance(v, ast.Dict):
            for k, x in zip(v.keys, v.values):
                if k is None:
                    out.merge(self.node(x, m))
                elif isinstance(k, ast.Constant):
                    out.items[k.value] = self.term(x, m)
        elif isinstance(v, ast.Name):
            out.merge(self.glob(m.name, v.id))
        elif isinstance(v, ast.Call) and getattr(v.func, "id", "") == "dict":
            for a in v.args:
                out.merge(self.node(a, m))
            for k in v.keywords:
                if k.arg:
                    out.items[k.arg] = self.term(k.value, m)
                else:
                    out.merge(self.node(k.value, m))
        return out

    def term(self, x, m):
        if isinstance(x, ast.Name) and x.id in m.imports:
            return ("ext", m.imports[x.id])
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in m.imports:
            return ("ext", m.imports[x.value.id] + "." + x.attr)
        if isinstance(x, ast.Constant) and x.value is None:
            return NONE
        return ("ext", ast.unparse(x))


def merged(fl, s):
    """Events of the path, those made inside of loops included, in order."""
    at = {}
    seen = set()
    for e in fl.events:
        if not e.loops or e.kind not in ("mutate", "setattr"):
            continue
        if any(s.conds.get(a, pol) != pol for a, pol in e.conds.items()):
            continue
        n = 0
        outer = [x for x in e.trace or () if not x.loops]
        mine = [x for x in s.trace]
        for x, y in zip(outer, mine):
            if x is not y and (x.node is not y.node or x.kind != y.kind):
                break
            n += 1
        key = (n, id(e.node), e.target, tuple(map(repr, e.args or ())))
        if key in seen or n < len(outer):
            continue
        seen.add(key)
        at.setdefault(n, []).append(e)
    out = []
    for i, e in enumerate(s.trace):
        out += at.get(i, ())
        out.append(e)
    return out + at.get(len(s.trace), [])


def items_source(t):
    while t[0] == "call" and (t[1][0] == "method" and t[1][2] in ("items", "copy") or
                              t[1][0] == "builtin" and t[1][1] in ("list", "tuple", "sorted")):
        t = t[1][1] if t[1][0] == "method" else t[2][0]
    return t


def perm_key(k):
    """Name whose words are put in another order: ' '.join(item of permutations(name.split()))."""
    joins = any(x[0] in ("method", "attr", "bound") and x[1] == C(" ") and x[2] == "join" for x in subterms(k))
    for x in subterms(k):
        if joins and x[0] == "call" and x[1] == ("ext", "itertools.permutations") and len(x[2]) == 1:
            y = x[2][0]
            if y[0] == "call" and y[1][0] == "method" and y[1][2] == "split":
                return y[1][1]
    return None


def ctname(v, fl, ev=None):
    v = fl.strip(v)
    if v[0] == "item" and is_const(v[2]) and ev is not None:
        v = ev.table(v[1]).items.get(v[2][2], v)
    if v == NONE:
        return "None"
    if v[0] == "ext" and v[1].startswith("ctypes."):
        return v[1].split(".", 1)[1].replace("wintypes.", "")
    return None


def env_of(conds):
    """(windows, recent) as decided on the path; None when not tested."""
    win = new = None
    for a, pol in conds.items():
        if a[0] == "eq" and C("win32") in a[1:] and ("ext", "sys.platform") in a[1:]:
            win = pol
        if a[0] == "call" and a[1][0] == "method" and a[1][2] == "startswith" and a[1][1] == ("ext", "sys.platform"):
            win = pol
        if a[0] == "eq" and C("nt") in a[1:]:
            win = pol
        if a[0] == "lt" and any(mentions(x, ("ext", "sys.version_info")) for x in a[1:]):
            new = (not pol) if mentions(a[1], ("ext", "sys.version_info")) else pol
        if a[0] == "call" and a[1] == ("builtin", "hasattr") and len(a[2]) > 1 and a[2][1] == C("c_time_t"):
            new = pol
    return win, new


def keywords(ctx):
    """[(keyword, condition)] accepted as types by the parser."""
    m = ctx.CParser.module if hasattr(ctx.CParser, "module") else None
    out = []
    names = ("num_types", "nonnum_types")

    def strings(node, seen=()):
        got = []
        if isinstance(node, (ast.List, ast.Tuple, ast.Set)):
            for x in node.elts:
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    got.append(x.value)
                elif isinstance(x, ast.Starred):
                    got += strings(x.value, seen)
        elif isinstance(node, ast.Name) and node.id not in seen:
            for v in m.globals.get(node.id, ()):
                got += strings(v, seen + (node.id,))
        elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            got = strings(node.left, seen) + strings(node.right, seen)
        elif isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute) and node.func.attr == "split" and isinstance(
                    node.func.value, ast.Constant):
                got = node.func.value.value.split()
            for a in node.args:
                got += strings(a, seen)
        return got

    def cond(test):
        src = ast.unparse(test)
        if "platform" in src and "win32" in src and "!=" not in src and "not " not in src:
            return "win"
        if "version_info" in src and "12" in src and ">" in src:
            return "new"
        return "?"

    def visit(body, c):
        for st in body:
            if isinstance(st, ast.Assign) and any(getattr(t, "id", "") in names for t in st.targets):
                out.extend((x, c) for x in strings(st.value))
            elif isinstance(st, ast.AugAssign) and getattr(st.target, "id", "") in names:
                out.extend((x, c) for x in strings(st.value))
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(
                    st.value.func, ast.Attribute) and getattr(st.value.func.value, "id", "") in names:
                for a in st.value.args:
                    if isinstance(a, ast.Constant):
                        out.append((a.value, c))
                    else:
                        out.extend((x, c) for x in strings(a))
            elif isinstance(st, ast.If):
                visit(st.body, cond(st.test))
                visit(st.orelse, "?")
    visit(m.tree.body, "")
    return out


def run(ctx):
    p, r = ctx.p, ctx.r
    f = [x for x in p.functions.values() if x.name == "init_clibrary" and x.cls is None]
    if not f:
        raise AnalysisBroken("init_clibrary not found")
    f = f[0]
    fl = ctx.flow(f, key="c12", implicit=False)
    want = oracle()
    kws = keywords(ctx)
    if len(kws) < 10:
        raise AnalysisBroken("type keywords of the parser not found")
    n = 0
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        trace = merged(fl, s)
        sets = [e for e in trace if e.kind == "setattr" and e.args[0] == "_types_"]
        ev = Eval(ctx, fl, trace, f.module)
        attr = ("attr", ("cls", ctx.Backend.qual), "_types_")
        if sets:
            t = ev.table(sets[-1].value)
        else:
            t = Table()
            for b in ctx.Backend.node.body:
                tg = getattr(b, "target", None) or (b.targets[0] if isinstance(b, ast.Assign) else None)
                if getattr(tg, "id", "") == "_types_":
                    t = ev.node(b.value, f.module)
        for e in trace[trace.index(sets[-1]) if sets else 0:]:
            if e.kind == "mutate" and fl.strip(e.target) == attr:
                ev.apply(t, e)
        win, new = env_of(s.conds)
        n += 1
        for name, v in sorted(t.items.items()):
            allowed = want.get(name) or EXTRA.get(name)
            got = ctname(v, fl, ev)
            if allowed is None:
                continue
            r.check(got in allowed, "right-type", "%r" % name,
                    "bound to %s instead of %s" % (got or show(v), " or ".join(sorted(allowed))), f.qual)
        for name in sorted(want):
            ok = name in t.items or any(
                sorted(name.split()) == sorted(k.split()) for k in t.ordered if isinstance(k, str))
            r.check(ok, "every-spelling", "%r" % name, "has no binding", f.qual)
        for kw, c in kws:
            if kw == "void" or kw in want:
                continue
            applies = {"": True, "win": win, "new": new, "?": None}[c]
            if applies is False:
                continue
            r.check(kw in t.items or applies is None and c == "?", "every-keyword", "%r" % kw,
                    "accepted by the parser%s but has no binding" % (" on that platform" if c else ""), f.qual)
        for prm in f.params:
            r.check(prm in t.params, "given-types", "%s: %s" % (f.qual, prm), "the types given are not bound", f.qual)
    if not n:
        raise AnalysisBroken("no path building the table of types")
    for kw, c in kws:
        if kw != "void" and kw not in want and kw not in EXTRA:
            r.ok("every-keyword", "%r (unknown type)" % kw)

    # pointers
    ptr = None
    for b in ctx.Backend.node.body:
        tg = getattr(b, "target", None) or (b.targets[0] if isinstance(b, ast.Assign) else None)
        if getattr(tg, "id", "") == "_ptr_types_":
            ptr = Eval(ctx, fl, (), f.module).node(b.value, f.module)
    if ptr is None or not ptr.items:
        raise AnalysisBroken("table of the special pointers not found")
    for name in ("char", "wchar_t", "void"):
        r.check(name in ptr.items, "pointers", "%r *" % name, "has no special type", ctx.Backend.qual)
    for name, v in ptr.items.items():
        got = ctname(v, fl)
        r.check(got in PTR.get(name, ()), "pointers", "%r *: %s" % (name, "type"), "is %s" % got, ctx.Backend.qual)

    base_types(ctx)
    signed(ctx)
    for k in ("right-type", "every-spelling", "pointers", "base-type"):
        r.floor(k, 3)


def base_types(ctx):
    """_get_type: what the base type is, by kind."""
    r = ctx.r
    h = ctx.method(ctx.Backend, "_get_type")
    hl = ctx.flow(h, key="c12b", implicit=False, max_states=60000, args={h.params[2]: C(False)},
                  opaque=lambda x: x.name in ("_get_struct", "eval_type") or x is h)
    kinds = set()
    for s, o in hl.outcomes:
        if o[0] != "return":
            continue
        v = hl.strip(o[1])
        kind = None
        for a, pol in s.conds.items():
            if not pol:
                continue
            if a[0] == "in":
                b = hl.strip(a[2])
                if b[0] == "attr" and b[2] == "_types_":
                    kind = kind or "table"
                    key = a[1]
            if a[0] == "eq":
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x == C("void"):
                        kind = kind or "void"
                    if is_const(x) and x[2] in ("enum ", "enum"):
                        kind = kind or "enum"
            if a[0] == "call" and a[1][0] == "method" and a[1][2] == "startswith" and a[2] and a[2][0] in (
                    C("enum "), C("enum")):
                kind = kind or "enum"
        what = "%s: %s" % (h.qual, kind or show(v)[:40])
        if kind == "enum":
            kinds.add(kind)
            r.check(v == ("ext", "ctypes.c_int") or (
                v[0] == "item" and v[2] == C("int")), "base-type", what, "an enumeration is %s" % show(v), h.qual)
        elif kind == "void":
            kinds.add(kind)
            r.check(v == NONE, "base-type", what, "void is %s" % show(v), h.qual)
        elif kind == "table":
            kinds.add(kind)
            r.check(v[0] == "item" and v[2] == key or v[0] == "call" and v[1][0] == "method" and v[1][2] == "get" and
                    v[2][0] == key, "base-type", what, "is %s" % show(v)[:60], h.qual)
        elif v[0] == "item" or v[0] == "ext":
            b = hl.strip(v[1]) if v[0] == "item" else v
            if b[0] == "attr" and b[2] == "_types_":
                kinds.add("table")
                r.ok("base-type", what)
    for k in ("enum", "void"):
        r.check(k in kinds, "base-type", "%s handles %s" % (h.qual, k), "no path for it", h.qual)
    r.ok("base-type", "%s: %s" % (h.qual, ", ".join(sorted(kinds))))


def signed(ctx):
    """'signed' disappears as a word of the evaluated types."""
    r = ctx.r
    g = ctx.method(ctx.Type, "eval")
    gl = ctx.flow(g, key="c12", implicit=False, inline_init=False, opaque=lambda x: x.name == "is_fund_type")
    for e in gl.events:
        if e.kind == "call" and e.target[0] == "method" and e.target[2] in ("replace", "strip", "lstrip", "rstrip") and (
                any(is_const(a) and isinstance(a[2], str) and "signed" in a[2] for a in e.args)):
            r.bad("signed", g.qual, "the word is removed inside other words (unsigned)", where(e))
    src = [x for x in ast.walk(g.node) if isinstance(x, ast.Constant) and isinstance(x.value, str) and "signed" in x.value
           and x.value != "unsigned"]
    seen = any(x.value.strip() == "signed" for x in src)
    if not seen:
        # in a helper called from here
        names = {getattr(c.func, "attr", getattr(c.func, "id", "")) for c in ast.walk(g.node) if isinstance(c, ast.Call)}
        for fn in ctx.p.functions.values():
            if fn.name in names and fn.module is g.module:
                seen = seen or any(isinstance(x, ast.Constant) and x.value == "signed" for x in ast.walk(fn.node))
        for nm, vs in g.module.globals.items():
            if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(g.node)) and nm != "sign_modifiers":
                seen = seen or any(isinstance(x, ast.Constant) and x.value == "signed" for v in vs for x in ast.walk(v))
    r.check(seen, "signed", g.qual + ": signed is dropped", "'signed int' is not int any more", g.qual)
    # nothing left means int
    ok = any(isinstance(x, ast.Constant) and x.value == "int" for x in ast.walk(g.node)) or not seen
    if not ok:
        for fn in ctx.p.functions.values():
            if fn.module is g.module and any(
                    isinstance(c, ast.Call) and getattr(c.func, "attr", getattr(c.func, "id", "")) == fn.name
                    for c in ast.walk(g.node)):
                ok = ok or any(isinstance(x, ast.Constant) and x.value == "int" for x in ast.walk(fn.node))
    r.check(ok, "signed", g.qual + ": signed alone is int", "'signed' alone has no type", g.qual)
