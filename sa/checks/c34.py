"""Every form of C declaration is recognised, and its parts under their names."""

import ast

from ..grammar import ALNUM, Fn, Folder, LeftRecursion, Matcher, Node, Obj, Undecided, nodes_of

TITLE = "every form of C declaration is recognised with all its parts"
RULES = (
    "the grammar is extracted from the statements building it (constants, combinators and "
    "helpers folded, for both settings of the extra types and modifiers). With the documented "
    "meaning of the combinators, every sentence of a reference grammar of C declarations "
    "(types, declarators nested to depth two, initialisers, bit fields, structures, unions, "
    "enumerations, prototypes, definitions) must be recognised to its last token, by the "
    "production of its kind, with each part the parser reads recognised as that part; texts "
    "which are not declarations must be refused; casts and the operand of `defined` are "
    "recognised to their closing parenthesis."
)
ASSUMPTIONS = (
    "pyparsing's combinators do what they document",
    "sentences are those of the reference grammar, with declarators nested to depth two",
)

TYPES = ["int", "unsigned int", "long long", "foo_t", "const char",
         "volatile unsigned long", "struct s_a", "union u_a", "enum e_a", "__declspec(x) double",
         "const __ext(1) void", "size_t",
         "__extension__ int", "unsigned char", "__a_b signed short"]
INNER = ["struct { int a; }", "union u_b { int a; char *b[2]; }", "enum { A, B = 3 }",
         "struct s_c { struct { int a : 3; } b; }"]
DECLS = ["x", "*x", "**x", "* const x", "& x", "x[3]", "x[2][N + 1]", "x[]", "(*x)",
         "(*x)(int)", "*(*x)(int, char *)", "x(void)", "x()", "x(int a, const char *b)",
         "x(int, char *)", "x(int a = 3, int)", "__stdcall x(int)", "(__cdecl *x)(int)",
         "(*x[3])(int a, void (*cb)(int))", "(*x)[4]", "*(*(*x)(int))[2]",
         "x(int (*)(char), foo_t [])", "x(const foo_t a[4])", "x(struct s_a *, enum e_a)",
         "x(int (*)[3])", "x(int (), char)", "x(int (*(*)(char))[2])", "* __restrict x", "_x", "x_y$2",
         "x(int const *, char * const)", "x(int (*)(char, int *), short [2][3])"]
FUNCS = [d for d in DECLS if d.startswith("x(")] + ["*x(int a)", "__stdcall x(int)"]
EXPRS = ["3", "0x1F", "1.5", "N", "-N", "A + B", "A << 2", "(A | B)", "f(1, N)", "f()", "arr[2]",
         "arr[1][N]", '"text"', "(foo_t) 3", "((A) + 1) * B", "A ? B : C", "-(A + 1)",
         "(foo_t) (A + B)", "x_1++", "++x_1", "1 + f(g(2), (3))", "A + (B)", "(foo_t) A - 2UL",
         "10uL", "'c'", "12.5", "123.", "10.25e3", "1e10", "1.5f", "~1", "A & ~B", "!A", "&x_1", "!!A", "- -N",
         "-(A)", "x_1++ + 1", "_a2"]
STORAGE = ["", "static ", "extern ", "inline "]
REFUSED = [
    "typedef int x", "int x = ;", "int x[3;", "int x[2]];",
    "int f(int a;", "int f(int a,);", "enum e_a { A B };", "struct s_a { int a };",
    "struct s_a { int a; ", "int x = { 1, };", "int x : 3;", "int x = { 1, 2;",
    "struct { int a : ; };", "int 3x;", "int struct;", "int x, ;", "int (x;", "enum { };",
    "int f(int a) { return 1;", "typedef int x, *;", "enum ;", "struct ;", "struct { };",
    "int x y;", "int x = 1 2;", "typedef int const;",
]


def squeeze(t):
    return "".join(t.split())


def sentences():
    """(text, action or None, [(name, text)...])"""
    out = []
    every = [(t, d) for t in TYPES for d in DECLS]
    short = ["x", "*x", "x[3]"]
    for t, d in every + [(t, d) for t in INNER for d in short]:
        out.append(("typedef %s %s;" % (t, d), "process_typedef", [("type", t), ("decl_list", d)]))
        out.append(("%s %s;" % (t, d), "process_variable", [("type", t), ("decl_list", d)]))
    for d in DECLS:
        for e in ("y", "**y", "y[4]", "(*y)(int)"):
            ds = "%s, %s" % (d, e)
            out.append(("typedef int %s;" % ds, "process_typedef", [("decl_list", ds)]))
            out.append(("char %s;" % ds, "process_variable", [("decl_list", ds)]))
    for s in STORAGE:
        for t in ("int", "const foo_t", "struct s_a"):
            for d in ("x", "*x", "(*x)(int)", "x(void)"):
                out.append(("%s%s %s;" % (s, t, d), "process_variable",
                            [("type", t), ("decl_list", d)]))
            for d in FUNCS:
                for b in ("{}", "{ if (a) { b = \"}\"; } return c; }"):
                    out.append(("%s%s %s %s" % (s, t, d, b), "process_function",
                                [("type", t), ("decl", d)]))
    for e in EXPRS:
        out.append(("int x = %s;" % e, "process_variable", [("decl_list", "x"), ("value", e)]))
        out.append(("static const char *x = %s;" % e, "process_variable", [("value", e)]))
        out.append(("int x[%s];" % e, "process_variable", [("arrays", "[%s]" % e)]))
        out.append(("int x[%s], y = %s;" % (e, e), "process_variable", [("value", e)]))
        for f in EXPRS[:6]:
            out.append(("int x[2] = { %s, %s };" % (e, f), "process_variable",
                        [("array_values", "%s, %s" % (e, f))]))
        out.append(("int x[1] = { %s };" % e, "process_variable", [("array_values", e)]))
        out.append(("void x(int a = %s, char b);" % e, "process_variable", [("val", "= " + e)]))
        out.append(("void (*x)(int = %s);" % e, "process_variable", [("val", "= " + e)]))
        out.append(("enum e_b { A = %s, B };" % e, "process_enum",
                    [("name", "e_b"), ("members", "A = %s, B" % e), ("value", e)]))
    for kw in ("struct", "union"):
        for n in ("", "s_b "):
            named = [("name", n.strip())] if n else []
            for t, d in every:
                m = "%s %s;" % (t, d)
                if d == "& x" or t in ("struct s_a",) and d == "x()":
                    continue
                out.append(("%s %s{ %s };" % (kw, n, m), "process_struct",
                            [("struct_type", kw), ("members", m), ("type", t), ("decl_list", d)]
                            + named))
            for m, parts in (
                    ("int a : 3;", [("type", "int"), ("decl_list", "a"), ("bit", "3")]),
                    ("unsigned int : 0x2;", [("type", "unsigned int"), ("bit", "0x2")]),
                    ("int a, *b;", [("decl_list", "a, *b")]),
                    ("int a : 1; int b : 2; char c;", [("bit", "1"), ("bit", "2")]),
                    ("union { int a; char b; };", [("members", "int a; char b;")]),
                    ("struct s_d { int a; } b, *c;", [("decl_list", "b, *c")]),
                    ("enum { A, B } e;", [("decl_list", "e")]),
                    ("int f(int a) { return a; } int b;", [("decl_list", "b")]),
                    ("s_b(int a) { c = a; } int b;", [("decl_list", "b")]),
                    ("int a; struct s_b *next; int (*fn)(struct s_b *, int);",
                     [("decl_list", "*next"), ("decl_list", "(*fn)(struct s_b *, int)")])):
                out.append(("%s %s{ %s };" % (kw, n, m), "process_struct",
                            [("members", m)] + parts + named))
        out.append(("%s s_b;" % kw, "process_struct", [("struct_type", kw), ("name", "s_b")]))
        out.append(("typedef %s s_b { int a; } s_b_t, *s_b_p;" % kw, "process_typedef",
                    [("decl_list", "s_b_t, *s_b_p")]))
    for n in ("", "e_b "):
        for m in ("A", "A, B", "A = 1, B, C = A + 2", "A = (1 << 3), B = -1"):
            for tail in ("", ","):
                for d in ("", " x", " x, *y"):
                    out.append(("enum %s{ %s%s }%s;" % (n, m, tail, d), "process_enum",
                                [("members", m), ("name", "A")]
                                + ([("name", "e_b")] if n else [])
                                + ([("decl_list", d.strip())] if d else [])))
    out.append(("enum e_b x;", "process_enum", [("name", "e_b"), ("decl_list", "x")]))
    # the parts of declarators
    for d, parts in (
            ("x", [("name", "x")]), ("* x", [("ptrs", "*"), ("name", "x")]),
            ("** const x", [("ptrs", "** const"), ("name", "x")]),
            ("&x", [("ref", "&"), ("name", "x")]),
            ("x[2][3]", [("arrays", "[2][3]")]), ("x[]", [("arrays", "[]")]),
            ("(*x)[3]", [("center", "(*x)"), ("arrays", "[3]"), ("ptrs", "*")]),
            ("(*x)(int a)", [("center", "(*x)"), ("args", "(int a)"), ("decl", "a")]),
            ("x(int a, foo_t *b)", [("args", "(int a, foo_t *b)"), ("type", "foo_t"),
                                    ("decl", "*b")]),
            ("x(int, char *)", [("args", "(int, char *)"), ("type", "char"), ("decl", "*")]),
            ("x(int (*)(char))", [("decl", "(*)(char)"), ("center", "(*)"),
                                  ("args", "(char)")]),
            ("x(int (*)(char *, long))", [
                ("type", "char"), ("decl", "*"), ("type", "long"), ("args", "(char *, long)")]),
            ("x(short const *)", [("first_typequal", "const"), ("ptrs", "*")]),
            ("x(short * const)", [("ptrs", "* const")]), ("x(short [2][3])", [("arrays", "[2][3]")]),
            ("x(char *[4])", [("decl", "*[4]"), ("arrays", "[4]"), ("ptrs", "*")]),
            ("x(int ())", [("args", "()")]), ("x(int (*)(char = 3))", [("val", "= 3")]),
            ("x(int &)", [("ref", "&")]), ("x()", [("args", "()")]),
            ("__stdcall x(int)", [("call_conv", "__stdcall")]),
            ("(__cdecl *x)(int)", [("call_conv", "__cdecl"), ("ptrs", "*")]),
            ("const * x", [("first_typequal", "const")]),
            ("x(int const * a)", [("pre_qual", ""), ("first_typequal", "const")])):
        parts = [p for p in parts if p[1]]
        if d == "x(int const * a)":
            parts = [("first_typequal", "const"), ("ptrs", "*")]
        out.append(("int %s;" % d, "process_variable", parts))
    for t, parts in (("const volatile int", [("pre_qual", "const volatile"), ("name", "int")]),
                     ("unsigned long long", [("name", "unsigned long long")]),
                     ("foo_t", [("name", "foo_t")]),
                     ("struct s_a", [("name", "struct s_a")]),
                     ("__declspec(x) char", [("name", "char")])):
        out.append(("%s x;" % t, "process_variable", parts))
    seen = set()
    uniq = []
    for s in out:
        k = (s[0], s[1], tuple(s[2]))
        if k not in seen:
            seen.add(k)
            uniq.append(s)
    return uniq


def grammar(tree, methods, types, mods, r):
    """(folder, instance, grammar of the declarations)"""
    f = Folder(tree, methods)
    inits = [n for n in tree.body if isinstance(n, ast.FunctionDef) and any(
        isinstance(x, ast.Global) for x in ast.walk(n))
        and not [d for d in n.decorator_list]]
    for n in inits:
        # the initialisation of the language is the one given lists of types and modifiers
        if len(n.args.args) >= 2:
            f.inline(Fn(n, f.env), [list(types), list(mods)], {})
    o = Obj(methods, f.env)
    if "build_parser" not in methods:
        raise Undecided("the method building the grammar is not known")
    g = f.inline(Fn(methods["build_parser"], f.env, bound=o), [], {})
    if not isinstance(g, Node):
        raise Undecided("the grammar is not known")
    return f, o, g


def consumed(tree):
    """Names read from results, and methods, mentioned outside the grammar."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant):
            out.add(n.slice.value)
        elif isinstance(n, ast.Compare) and isinstance(n.left, ast.Constant):
            out.add(n.left.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                "get", "pop", "getName") and n.args and isinstance(n.args[0], ast.Constant):
            out.add(n.args[0].value)
    return out


def run(ctx):
    p, r = ctx.p, ctx.r
    mod = ctx.CParser.module
    tree = ast.parse(mod.source, mod.path)
    cls = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == ctx.CParser.name]
    if not cls:
        r.skip("declarations", mod.name, "the class is not in the module of the grammar")
        return
    methods = {n.name: n for n in cls[0].body if isinstance(n, ast.FunctionDef)}
    r.functions.update(ctx.CParser.qual + "." + m for m in methods if m == "build_parser")
    read = consumed(tree)
    sents = sentences()
    for types, mods in (((), ()), (("xt_t",), ("__extmod",))):
        label = "plain" if not types else "extra types and modifiers"
        try:
            f, o, g = grammar(tree, methods, types, mods, r)
        except Exception as e:  # a form of statement the folding does not know
            for rule in ("declarations", "refused"):
                r.skip(rule, label, "not extracted: %r" % (e,))
            continue
        used = {a for n in nodes_of(g) for a in n.names}
        extra = []
        if types:
            extra = [("xt_t x;", "process_variable", [("type", "xt_t")]),
                     ("unsigned xt_t *x;", "process_variable", [("type", "unsigned xt_t")]),
                     ("int __extmod x;", "process_variable", [("decl_list", "x")]),
                     ("int __extmod(3) *x;", "process_variable", [("decl_list", "*x")]),
                     ("int __extmod(3) __extmod * x;", "process_variable", [("decl_list", "*x")]),
                     ("typedef struct { int a; } __extmod(4) x;", "process_typedef",
                      [("decl_list", "x")])]
        todo = (sents if not types else sents[::7]) + extra
        acts = {a for n in nodes_of(g) for a in n.actions}
        for text, act, parts in todo:
            decide(r, label, g, text, act if act in methods else None,
                   [(a, b) for a, b in parts if a in read or a in used])
        for text in REFUSED:
            m = Matcher(text)
            try:
                res = m.match(g, 0)
            except (Undecided, RecursionError) as e:
                r.skip("refused", text, str(e))
                continue
            r.check(res is None or squeeze(text[res[0]:]) != "", "refused", "%s: %s" % (label, text),
                    "this text, which is not a declaration, is taken for one", mod.path)
        if not types:
            expressions(r, f, o, tree, methods)
    r.floor("declarations", 500)
    r.floor("refused", 10)


def decide(r, label, g, text, act, parts):
    m = Matcher(text)
    key = "%s: %s" % (label, text)
    try:
        res = m.match(g, 0)
    except LeftRecursion:
        r.bad("declarations", key, "the grammar is left recursive there: it never ends",
              "build_parser")
        return
    except (Undecided, RecursionError) as e:
        r.skip("declarations", key, str(e))
        return
    if res is None or squeeze(text[res[0]:]):
        r.bad("declarations", key, "not recognised beyond %r" % text[:res[0] if res else 0],
              "build_parser")
        return
    got = {(n, squeeze(t)) for n, t in res[1]}
    for n, t in parts:
        if (n, squeeze(t)) not in got:
            r.bad("declarations", key, "%r is not recognised as its %s" % (t, n), "build_parser")
            return
    if act is not None and act not in {a for a, _ in res[2]}:
        r.bad("declarations", key, "not handed to %s" % act, "build_parser")
        return
    r.ok("declarations", key)


def expressions(r, f, o, tree, methods):
    """Casts removed before evaluating, operands of `defined`."""
    found = []
    for m in methods.values():
        for c in ast.walk(m):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in (
                    "transformString", "transform_string"):
                n = value(f, o, m, c.func.value)
                if isinstance(n, Node):
                    found.append((m.name, n))
    for rule, want, forms in (
            ("defined", lambda ns: any(n.kind == "kw" and n.args == ["defined"] for n in ns),
             [("defined X_1", "X_1"), ("defined(X_1)", "X_1"), ("defined ( _a2 )", "_a2")]),
            ("casts", lambda ns: any(n.kind == "re" and n.args[0].startswith('"') for n in ns)
             and any(n.kind == "star" for n in ns)
             and not any(n.kind == "kw" and n.args == ["typedef"] for n in ns),
             [("(int)", None), ("(unsigned int *)", None), ("(foo_t)", None),
              ("(const struct s_a **)", None), ("(void (*)(int))", None), ("(char [3])", None)])):
        cands = [(m, n) for m, n in found if want(nodes_of(n))]
        if not cands:
            r.skip(rule, "CParser", "no such transformation is known")
            continue
        for text, name in forms:
            good = False
            try:
                for m, n in cands:
                    rs = [Matcher(text + after).match(n, 0) for after in (" + 1", ") + 1")]
                    if all(res is not None and res[0] == len(text) and (
                            ("name", name) in res[1] if name else not res[3]) for res in rs):
                        good = True
            except (Undecided, RecursionError) as e:
                r.skip(rule, text, str(e))
                continue
            r.check(good, rule, text, "not recognised as a whole, to its end and no further (%s)" % ", ".join(
                m for m, _ in cands), "transformString")
        if rule == "casts":
            for text in ('"(int) a"', "12UL", "0x1Fu", "1.5", "12.5", "10.25e3", "123.",
                         "1e10", "1.5f", ".5", "12e-10"):
                try:
                    ok = any((Matcher(text).match(n, 0) or (0,))[0] == len(text)
                             and (Matcher(text).match(n, 0)[3]) for m, n in cands)
                except (Undecided, RecursionError) as e:
                    r.skip(rule, text, str(e))
                    continue
                r.check(ok, rule, text, "not taken as one constant", "transformString")
            for text in ("utf8Lower", "crc16l", "x10L", "_1u"):
                try:
                    cut = [text[i:] for m, n in cands for i in range(len(text))
                           if inside(Matcher(text), n, i)]
                except (Undecided, RecursionError) as e:
                    r.skip(rule, text, str(e))
                    continue
                r.check(not cut, rule, text, "a part of the name, %r, is taken for a number" % (
                    cut[:1],), "transformString")


def inside(m, n, i):
    """Whether scanning the text comes to the position and takes what is there."""
    at = 0
    while at <= i:
        res = m.match(n, at)
        if res is not None and res[0] > at:
            if at == i:
                return at > 0 or res[0] != len(m.s)
            at = res[0]
        else:
            at += 1
    return False


def value(f, o, m, x):
    """Combinator expression of a method, from the variables it assigns once."""
    from ..grammar import Env, U

    env = Env(f.env)
    if m.args.args:
        env.v[m.args.args[0].arg] = o
    for a in m.args.args[1:]:
        env.v[a.arg] = U
    for n in ast.walk(m):
        if isinstance(n, ast.FunctionDef) and n is not m:
            env.v[n.name] = Fn(n, env)
    assigns = {}
    for n in ast.walk(m):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            assigns.setdefault(n.targets[0].id, []).append(n.value)
    names = [y.id for y in ast.walk(x) if isinstance(y, ast.Name)]
    for _ in range(3):
        for k in list(names):
            for v in assigns.get(k, ()):
                names += [y.id for y in ast.walk(v) if isinstance(y, ast.Name) and y.id not in names]
    try:
        for k in reversed(names):
            vs = assigns.get(k)
            if vs:
                env.v[k] = f.ev(vs[0], env) if len(vs) == 1 else U
        return f.ev(x, env)
    except Exception:
        return None
