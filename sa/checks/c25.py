"""Where headers and libraries are looked for."""

from ..common import where
from ..flow import C, NONE, State, is_const, mentions, show, subterms
from ..norm import Norm
from ..program import AnalysisBroken

TITLE = "files are looked for in the directories given, those configured, then those of the system"
RULES = (
    "the search functions are followed, path by path, for two directories given and two "
    "configured, on each platform: a path giving a file has tested that very path to be a "
    "file, all the directories of the earlier groups (given in order, configured latest "
    "first, system ones last) being excluded by the conditions of the path; every path "
    "failing has all of them excluded, system directories included, and raises OSError; "
    "the functions adding locations add, in order, exactly the directories which exist; "
    "the parser takes a header which exists as it is given and searches for the others."
)
ASSUMPTIONS = ("sys.platform is linux, darwin or win32",)
PLATFORMS = ("linux", "darwin", "win32")
SYSTEM = ("/usr/local/include", "/usr/include")
D = (("param", "d1"), ("param", "d2"))
H = (("param", "h1"), ("param", "h2"))
PLAT = ("ext", "sys.platform")


def last(t):
    return str(t[-1]).split(".")[-1]


def on(conds, plat):
    """Can the path be taken on that platform?"""
    for a, v in conds.items():
        got = None
        if a[0] == "eq" and PLAT in a[1:]:
            c = a[1] if a[2] == PLAT else a[2]
            if is_const(c):
                got = c[2] == plat
        elif a[0] == "in" and a[1] == PLAT and a[2][0] in ("consts", "tuple"):
            got = C(plat) in a[2][1]
        elif a[0] == "in" and a[2] == PLAT and is_const(a[1]):
            got = a[1][2] in plat
        elif a[0] == "call" and a[2] and (a[1] == ("ext", "sys.platform.startswith") or a[1] == ("method", PLAT, "startswith")):
            x = a[2][0]
            opts = [x] if is_const(x) else list(x[1]) if x[0] in ("tuple", "consts") else []
            if opts and all(is_const(y) for y in opts):
                got = any(plat.startswith(y[2]) for y in opts)
        elif a[0] == "eq" and any(x[0] in ("slice", "item") and x[1] == PLAT for x in a[1:]):
            c = a[1] if is_const(a[1]) else a[2]
            x = a[2] if is_const(a[1]) else a[1]
            if is_const(c) and x[0] == "slice" and is_const(x[3]) and x[2] in (NONE, C(0)):
                got = plat[:x[3][2]] == c[2]
        elif a[0] == "eq" and ("ext", "os.name") in a[1:]:
            c = a[1] if is_const(a[1]) else a[2]
            if is_const(c):
                got = c[2] == ("nt" if plat == "win32" else "posix")
        if got is not None and got != v:
            return False
    return True


def joined(t, n, fl):
    """Directory of join(directory, name)."""
    t = fl.strip(t)
    while t[0] == "call" and t[1] == ("builtin", "str") and len(t[2]) == 1:
        t = fl.strip(t[2][0])
    if t[0] == "call" and t[1] == ("ext", "os.path.join") and len(t[2]) == 2 and t[2][1] == n:
        return fl.strip(t[2][0])
    if t[0] == "bin" and t[1] == "Div" and t[3] == n:
        b = fl.strip(t[2])
        if b[0] == "call" and b[1] == ("ext", "pathlib.Path"):
            return fl.strip(b[2][0])
    return None


def tested(conds, n, fl):
    """{directory: is there such a file} decided by the path."""
    out = {}
    for a, v in conds.items():
        p = None
        if a[0] == "call" and a[1] == ("ext", "os.path.isfile"):
            p = a[2][0]
        elif a[0] == "call" and a[1][0] == "method" and last(a[1]) == "is_file":
            p = a[1][1]
        if p is None:
            continue
        d = joined(p, n, fl)
        if d is not None:
            out[d] = v
    return out


def given(conds):
    p = ("param", "dirs")
    for a, v in conds.items():
        if a == p:
            return v
        if a[0] == "is" and set(a[1:]) == {p, NONE}:
            return not v
    return None


def path_of(v, fl):
    """Path held by the value returned."""
    v = fl.strip(v)
    if v[0] in ("new", "call") and (v[0] == "new" or v[1][0] == "cls") and last(v[1] if v[0] == "call" else v[:2]).endswith(
            "LibraryPath") and v[2]:
        return v[2][0]
    return v


def run(ctx):
    r = ctx.r
    search(ctx, "find_header", "HEADER_DIRS", True)
    search(ctx, "find_library", "LIBRARY_DIRS", False)
    adding(ctx, "add_header_locations")
    adding(ctx, "add_library_locations")
    resolving(ctx)
    for k in ("order", "exists", "fails", "added", "as-given"):
        r.floor(k, 1)


def configured(ctx, f):
    """Global list of directories the function uses."""
    adder = "add_header_locations" if "header" in f.name else "add_library_locations"
    g = ctx.p.func("utils." + adder)
    fl = ctx.flow(g, key="c25a", implicit=False)
    got = {e.target for e in fl.events if e.kind == "mutate" and e.target[0] == "global"}
    for e in fl.events:
        if e.kind == "setglobal":
            got.add(e.target)
        if e.kind == "mutate" and fl.strip(e.target)[0] == "global":
            got.add(fl.strip(e.target))
    if not got:
        ctx.r.bad("added", g.qual, "the directories are not kept", g.qual)
        return None
    return sorted(got)[0]


def search(ctx, name, var, header):
    r = ctx.r
    f = ctx.p.func("utils." + name)
    g = configured(ctx, f)
    if g is None:
        return
    st = State()
    st.heap[(g, "#items")] = H
    st.heap[(("param", "dirs"), "#items")] = D
    n = ("param", f.params[0])
    fl = ctx.flow(f, key=None, implicit=False, state=st, max_states=200000, unroll="all",
                  opaque=lambda x: x.module.name.startswith("thirdparty"))
    for e in fl.events:
        if e.kind == "mutate":
            t = fl.strip(e.target)
            r.check(t != ("param", "dirs") and t[0] != "global", "order", "%s: %s" % (f.qual, e.how),
                    "the search changes %s: the following ones look elsewhere" % show(t), where(e))
    reached = {}
    for plat in PLATFORMS:
        for s, o in fl.outcomes:
            if not on(s.conds, plat):
                continue
            gv = given(s.conds)
            first = list(D) if gv is not False else []
            t = tested(s.conds, n, fl)
            groups = first + list(H[::-1])
            if o[0] == "raise":
                what = "%s fails%s" % (f.qual, " (directories given)" if gv else "")
                left = [x for x in groups if t.get(x) is not False]
                r.check(not left, "fails", what, "%s was not looked into" % (left and show(left[0])), f.qual)
                if header and plat != "win32":
                    left = [x for x in SYSTEM if t.get(C(x)) is not False]
                    r.check(not left, "fails", what + " on " + plat, "%s was not looked into" % (left and left[0]), f.qual)
                if not header:
                    r.check(any(not v and elsewhere(a, n) or v and a[0] == "is" and NONE in a[1:] and any(
                        elsewhere(x, n) for x in a[1:]) for a, v in s.conds.items()), "fails", what + ": system",
                            "the system was not asked for it", f.qual)
                r.check(str(o[1][1]) in ("OSError", "IOError", "FileNotFoundError"), "fails", what + ": error",
                        "%s instead of OSError" % o[1][1], f.qual)
                continue
            if o[0] != "return":
                continue
            v = path_of(o[1], fl)
            if v == NONE:
                r.bad("fails", "%s fails" % f.qual, "None is returned instead of raising OSError", f.qual)
                continue
            if not header and elsewhere(fl.strip(v), n):
                what = "%s: found by the system" % f.qual
                left = [x for x in groups if t.get(x) is not False]
                r.check(not left, "order", what, "%s was not looked into before" % (left and show(left[0])), f.qual)
                known = any(x and elsewhere(a, n) or not x and a[0] == "is" and NONE in a[1:] and any(
                    elsewhere(y, n) for y in a[1:]) for a, x in s.conds.items())
                r.check(known, "exists", what, "nothing may have been found", f.qual)
                reached.setdefault((plat, gv), set()).add("system")
                continue
            d = joined(v, n, fl)
            if d is None:
                r.bad("exists", "%s gives %s" % (f.qual, show(v)[:60]), "not a file of that name", f.qual)
                continue
            what = "%s: %s" % (f.qual, show(d)[:50])
            if d not in groups and not is_const(d):
                r.bad("order", what, "this directory is not to be searched", f.qual)
                continue
            r.check(t.get(d) is True, "exists", what, "the file may not exist", f.qual)
            before = groups[:groups.index(d)] if d in groups else groups
            left = [x for x in before if t.get(x) is not False]
            r.check(not left, "order", what, "%s was not looked into before" % (left and show(left[0])), f.qual)
            if is_const(d) and not header:
                r.bad("order", what, "this directory is not to be searched", f.qual)
            reached.setdefault((plat, gv), set()).add(d)
    for plat in PLATFORMS:
        got = set()
        for (p, gv), x in reached.items():
            if p == plat:
                got |= x
        want = set(D) | set(H) | ({C(x) for x in SYSTEM} if header and plat != "win32" else set())
        want |= set() if header else {"system"}
        miss = want - got
        r.check(not miss, "order", "%s on %s reaches all the directories" % (f.qual, plat),
                "%s is never looked into" % (miss and sorted(str(x[-1]) for x in miss)[0]), f.qual)


def elsewhere(t, n):
    return t[0] == "call" and t[2][:1] == (n,) and last(t[1]) in ("find_library", "_find_library", "find_lib")


def adding(ctx, name):
    r = ctx.r
    f = ctx.p.func("utils." + name)
    fl = ctx.flow(f, key="c25a", implicit=False)
    p = ("param", f.params[0])
    nm = Norm(fl)
    for s, o in fl.outcomes:
        if o[0] == "raise":
            r.bad("added", "%s raises" % f.qual, "directories are refused with an error", f.qual)
    seen = 0
    for e in fl.events:
        if e.kind == "mutate" and fl.strip(e.target)[0] == "global":
            what = "%s: %s" % (f.qual, e.how)
            seen += 1
            if e.how in ("extend", "iadd") and len(e.args) == 1:
                r.check(existing(e.args[0], p, fl, nm), "added", what,
                        "not the directories given which exist, in order", where(e))
            elif e.how == "append" and len(e.args) == 1:
                x = nm(e.args[0])
                ok = x[0] == "elem" and fl.strip(x[1]) == p and any(
                    v and isdir(a, x) for c in nm.conds(e) for a, v in c.items())
                r.check(ok, "added", what, "not a directory given which exists", where(e))
            else:
                r.bad("added", what, "the locations are changed in another way", where(e))
        elif e.kind == "setglobal":
            seen += 1
            v = e.value
            ok = v[0] == "bin" and v[1] == "Add" and fl.strip(v[2]) == e.target and existing(v[3], p, fl, nm)
            r.check(ok, "added", "%s: assigned" % f.qual, "not the directories given which exist, in order", where(e))
    for s, o in fl.outcomes:
        if o[0] == "return":
            k = [e for e in s.trace if e.kind in ("mutate", "setglobal") and fl.strip(e.target)[0] == "global"]
            empty = any(not v and existing(a, p, fl, nm) for a, v in s.conds.items()) or (
                s.conds.get(p) is False)
            loops = [e for e in fl.events if e.loops and e.kind == "mutate" and fl.strip(e.target)[0] == "global"]
            r.check(len(k) == 1 or not k and (empty or loops), "added", "%s returns" % f.qual,
                    "the directories are added %d times" % len(k), f.qual)
    if not seen:
        r.bad("added", f.qual, "nothing is added", f.qual)


def isdir(a, x):
    return a[0] == "call" and a[1] == ("ext", "os.path.isdir") and a[2] == (x,) or (
        a[0] == "call" and a[1][0] == "method" and last(a[1]) == "is_dir" and mentions(a[1][1], x))


def existing(v, p, fl, nm):
    v = fl.strip(v)
    while v[0] == "call" and v[1] in (("builtin", "list"), ("builtin", "tuple")) and len(v[2]) == 1:
        v = fl.strip(v[2][0])
    if v[0] == "obj" and v[1] == "list":
        # built by a loop: only by appending, the existing ones and all of them
        own = [e for e in fl.events if e.kind == "mutate" and fl.strip(e.target) == v]
        loops = {e.loops[-1][0] for e in own if e.loops}
        if not own or len(loops) != 1 or any(
                e.how != "append" or not e.loops or len(e.args) != 1 or fl.strip(e.loops[-1][2] or ("x",)) != p
                for e in own):
            return False
        for e in own:
            x = nm(e.args[0])
            if not (x[0] == "elem" and fl.strip(x[1]) == p and any(y and isdir(a, x) for a, y in e.conds.items())):
                return False
        for it in fl.iterends:
            if it.loops[-1][0] in loops:
                k = [e for e in it.trace if e.kind == "mutate" and fl.strip(e.target) == v]
                no = any(not y and a[0] == "call" and (a[1] == ("ext", "os.path.isdir") or last(a[1]) == "is_dir")
                         for a, y in it.conds.items())
                if len(k) != 1 and not (no and not k):
                    return False
        return True
    if v[0] != "comp":
        return False
    if fl.strip(v[3]) != p or v[2][0] != "elem" or fl.strip(v[2][1]) != p:
        return False
    cs = v[4]
    if not isinstance(cs, frozenset):
        return False
    return len(cs) == 1 and all(x and isdir(a, v[2]) for a, x in cs)


def resolving(ctx):
    """Headers given to the parser."""
    r = ctx.r
    f = ctx.method(ctx.CParser, "find_headers")
    fl = ctx.flow(f, key="c25r", implicit=False, opaque=lambda x: x.name == "find_header")
    p = ("param", f.params[1])
    rows = []  # (value, conds, where)
    for e in fl.events:
        if e.kind == "mutate" and e.how == "append" and len(e.args) == 1:
            rows.append((e.args[0], e.conds, where(e)))
        elif e.kind == "mutate" and e.how in ("insert",):
            r.bad("as-given", "%s: %s" % (f.qual, e.how), "the order of the headers changes", where(e))
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        v = fl.strip(o[1])
        while v[0] == "call" and v[1] in (("builtin", "list"), ("builtin", "tuple")) and len(v[2]) == 1:
            v = fl.strip(v[2][0])
        if v[0] == "comp":
            if v[2][0] == "alts":
                for x, cs in zip(v[2][1], v[6] if len(v) > 6 else v[4][1]):
                    for one in (cs if len(v) > 6 else [cs]):
                        rows.append((x, dict(one), f.qual))
            else:
                rows.append((v[2], {}, f.qual))
            r.check(fl.strip(v[3]) == p, "as-given", "%s: the headers given" % f.qual, "another sequence", f.qual)
            filt = v[4] if isinstance(v[4], frozenset) else frozenset()
            r.check(not filt, "as-given", "%s: all the headers" % f.qual, "headers are left out", f.qual)
        else:
            r.check(v[0] == "obj", "as-given", "%s returns" % f.qual, "%s is returned" % show(v)[:40], f.qual)
    if not rows:
        raise AnalysisBroken("%s does not build its result in a way understood" % f.qual)
    direct = found = 0
    for v, cs, loc in rows:
        v = fl.strip(v)
        if v[0] == "elem" and fl.strip(v[1]) == p:
            direct += 1
            ok = any(x and a == ("call", ("ext", "os.path.isfile"), (v,), ()) for a, x in cs.items())
            r.check(ok, "as-given", "%s: taken as given" % f.qual, "although it may not exist", loc)
        elif v[0] == "call" and v[1][0] == "func" and last(v[1]) == "find_header":
            found += 1
            x = v[2][0]
            ok = x[0] == "elem" and fl.strip(x[1]) == p
            r.check(ok, "as-given", "%s: searched" % f.qual, "%s is searched instead" % show(x)[:40], loc)
            exists = [y for a, y in cs.items() if a == ("call", ("ext", "os.path.isfile"), (x,), ())]
            r.check(exists == [False], "as-given", "%s: searched when missing" % f.qual,
                    "a header which exists is replaced by another one of that name", loc)
        else:
            r.bad("as-given", "%s: %s" % (f.qual, show(v)[:50]), "not a header given nor one found", loc)
    r.check(direct and found, "as-given", "%s: both ways" % f.qual, "headers are only %s" % (
        "searched" if found else "taken as given"), f.qual)
