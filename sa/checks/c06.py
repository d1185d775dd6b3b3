"""The only file written is the requested cache."""

import ast

from ..common import where
from ..flow import NONE, is_const, show, subterms
from . import c07
from .c05 import SHELL, SPAWN, own_nodes, parts

TITLE = "only the requested cache file is written, only own temporary files are removed"
RULES = (
    "every operation of the package which can create, change, move or remove a file is "
    "enumerated on every path (open modes, os, shutil, pathlib and tempfile functions, "
    "redirections in shell commands); its path is followed through helpers and callers "
    "and must be the cache path given by the user (or a sibling moved onto it), or a "
    "temporary file the function itself created; removals only apply to the latter, which "
    "are removed (or moved onto the cache) on every path, those of failures included; no "
    "log is written to a file."
)
ASSUMPTIONS = ("the external programs run (gcc, ldconfig, ldd, file) only write where they are told to",)

OPENERS = {"io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "os.fdopen",
           "tokenize.open"}
REMOVE = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree"}
MOVE = {"os.rename", "os.replace", "os.renames", "shutil.move"}
CHANGE = {"os.truncate", "os.chmod", "os.chown", "os.utime", "os.mkdir", "os.makedirs",
          "os.symlink", "os.link", "os.mkfifo", "os.mknod", "shutil.chown", "os.setxattr"}
COPY = {"shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.copytree", "shutil.copymode",
        "os.symlink", "os.link"}
TEMP = ("tempfile.",)
PATHM = {"write_text", "write_bytes", "unlink", "touch", "rmdir", "symlink_to", "hardlink_to",
         "mkdir", "rename"}
NAMES = OPENERS | REMOVE | MOVE | CHANGE | COPY | {"os.open", "shelve.open", "sqlite3.connect"}


def is_temp(t, fl):
    t = fl.strip(t)
    if t[0] in ("item", "attr", "elem", "unpack"):
        return is_temp(t[1], fl)
    if t[0] == "call" and t[1][0] == "ext" and t[1][1].startswith(TEMP):
        return True
    if t[0] == "call" and t[1] in (("ext", "os.path.join"), ("ext", "pathlib.Path")) and t[2]:
        return is_temp(t[2][0], fl)
    return False


def unwrap(t, fl):
    """Path given to pathlib.Path, os.fspath, str, abspath..."""
    t = fl.strip(t)
    while t[0] == "call" and t[2] and t[1] in (
            ("ext", "pathlib.Path"), ("builtin", "str"), ("ext", "os.fspath"),
            ("ext", "os.path.abspath"), ("ext", "os.path.realpath"),
            ("ext", "os.path.expanduser"), ("ext", "os.path.normpath")):
        t = fl.strip(t[2][0])
    return t


def mode_writes(mode):
    if mode is None:
        return False
    if is_const(mode):
        return bool(set(str(mode[2])) & set("wax+"))
    return True


def sinks(e, fl):
    """[(operation, path term)] of a call; operation in write, remove, move."""
    kw = dict(e.kwargs or ())
    args = list(e.args or ())
    t = e.target
    if t == ("builtin", "open") or t[0] == "ext" and t[1] in OPENERS:
        if t[0] == "ext" and t[1] == "os.fdopen":
            path = args[0] if args else NONE
        else:
            path = args[0] if args else kw.get("file", kw.get("filename", NONE))
        mode = args[1] if len(args) > 1 else kw.get("mode")
        if mode_writes(mode):
            return [("write", path)]
        return []
    if t[0] == "ext":
        d = t[1]
        if d == "os.open":
            fl_ = args[1] if len(args) > 1 else kw.get("flags", NONE)
            if fl_ == ("ext", "os.O_RDONLY"):
                return []
            return [("write", args[0] if args else kw.get("path", NONE))]
        if d in ("shelve.open", "sqlite3.connect"):
            return [("write", args[0] if args else NONE)]
        if d in REMOVE:
            return [("remove", args[0] if args else kw.get("path", NONE))]
        if d in MOVE:
            a = args[0] if args else kw.get("src", NONE)
            b = args[1] if len(args) > 1 else kw.get("dst", NONE)
            return [("remove", a), ("write", b)]
        if d in COPY:
            return [("write", args[1] if len(args) > 1 else kw.get("dst", NONE))]
        if d in CHANGE:
            return [("write", args[0] if args else kw.get("path", NONE))]
    if t[0] == "method":
        base = unwrap(t[1], fl)
        pathlike = fl.strip(t[1])[0] == "call" and fl.strip(t[1])[1] == ("ext", "pathlib.Path")
        if t[2] in ("unlink", "rmdir") and (pathlike or not args):
            return [("remove", base)]
        if t[2] in PATHM:
            return [("write", base)]
        if t[2] == "open" and pathlike:
            mode = args[0] if args else kw.get("mode")
            return [("write", base)] if mode_writes(mode) else []
        if t[2] == "replace" and pathlike:
            return [("remove", base), ("write", args[0] if args else NONE)]
    return []


def run(ctx):
    p, r = ctx.p, ctx.r

    def wanted(f):
        for x in own_nodes(f.node):
            if isinstance(x, ast.Call):
                d = p.resolve_dotted(f.module, x.func)
                if d in NAMES or d in SHELL or d in SPAWN or d in ("open", "builtins.open"):
                    return True
                if isinstance(x.func, ast.Name) and x.func.id == "open":
                    return True
                if isinstance(x.func, ast.Attribute) and x.func.attr in PATHM | {"open"}:
                    return True
        return False

    calls = {}
    for g in ctx.functions():
        for x in own_nodes(g.node):
            if isinstance(x, ast.Call):
                n = getattr(x.func, "id", None) or getattr(x.func, "attr", None)
                if n:
                    calls.setdefault(n, set()).add(g.qual)
    todo = [f for f in p.functions.values()
            if not f.module.name.startswith("headers") and wanted(f)]
    todo = [(f, frozenset()) for f in todo]
    done = set()
    while todo:
        f, chain = todo.pop(0)
        if (f.qual, chain) in done:
            continue
        done.add((f.qual, chain))
        callers = sorted(q for q in calls.get(f.name, ()) if q != f.qual)
        fl = ctx.flow(f, key=None, opaque=lambda x: x.qual not in chain and
                      len(list(ast.walk(x.node))) > 60)
        fwd = False
        for e in fl.events:
            if e.kind != "call":
                continue
            if e.target[0] == "ext" and (e.target[1] in SHELL or e.target[1] in SPAWN):
                redirections(r, e, fl)
                continue
            if e.target == ("builtin", "open") or e.target[0] == "ext" and e.target[1] in OPENERS:
                r.ok("opened", "%s opens %s" % (e.func.qual, show(e.args[0])[:50] if e.args else ""))
            for op, path in sinks(e, fl):
                t = unwrap(path, fl)
                what = "%s: %s of %s" % (e.func.qual, op, show(t)[:60])
                verdict = allowed(op, t, fl, ctx, f)
                if verdict and t[0] == "param":
                    fwd = True
                if verdict is None and callers:
                    fwd = True
                    r.ok("file-" + op, what + " (argument of %s)" % f.qual)
                    continue
                r.check(verdict, "file-" + op, what,
                        "%s is %s, which is neither the requested cache nor a temporary "
                        "file created here" % (show(t), {"write": "written", "remove": "removed or moved"}[op]),
                        where(e))
        if fwd:
            for q in callers:
                if q not in chain:
                    todo.append((p.functions[q], chain | {f.qual}))
    c07.analyse(ctx, "temporary-removed")
    siblings(ctx)
    logs(ctx)
    r.floor("opened", 2)
    r.floor("file-write", 1)


LOGS = {"logging.basicConfig": "filename", "logging.FileHandler": None}


def logs(ctx):
    """Handlers writing files; files opened when a module is imported."""
    p, r = ctx.p, ctx.r
    n = 0
    for name, m in sorted(p.modules.items()):
        if name.startswith("headers"):
            continue
        inside = {x for f in ast.walk(m.tree) if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
                  for x in ast.walk(f) if x is not f}
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            d = p.resolve_dotted(m, x.func) or ""
            loc = "pyclibrary/%s.py:%d" % (name.replace(".", "/"), x.lineno)
            if d in LOGS or d.startswith("logging.handlers.") and d.endswith("FileHandler"):
                k = LOGS.get(d)
                r.check(k is not None and not any(w.arg in (k, None) for w in x.keywords) and not x.args,
                        "file-write", "%s: %s" % (name, d), "the log is written to a file", loc)
            elif x not in inside and (d in NAMES or d in ("open", "builtins.open") or isinstance(
                    x.func, ast.Name) and x.func.id == "open"):
                n += 1
                mode = x.args[1] if len(x.args) > 1 else next((w.value for w in x.keywords if w.arg == "mode"), None)
                ok = (d in OPENERS or d not in NAMES) and (mode is None or isinstance(mode, ast.Constant) and not (
                    set(str(mode.value)) & set("wax+")))
                r.check(ok, "file-write", "%s: %s" % (name, d or "open"), "done when the module is imported", loc)
    r.ok("opened", "statements of the modules (%d operations)" % n)


def siblings(ctx):
    """A file written beside the cache is moved onto it, or removed, on every path."""
    r = ctx.r
    for f in ctx.CParser.methods.values():
        if not any(isinstance(x, ast.Call) and ctx.p.resolve_dotted(f.module, x.func) in MOVE or isinstance(
                x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("replace", "rename")
                for x in own_nodes(f.node)):
            continue
        fl = ctx.flow(f, key=None, implicit="all", opaque=lambda x: len(list(ast.walk(x.node))) > 60)
        for s, o in fl.outcomes:
            tr = s.trace
            for i, e in enumerate(tr):
                if e.kind != "call" or not (e.target == ("builtin", "open") or e.target[0] == "ext" and e.target[1] in OPENERS):
                    continue
                if i + 1 < len(tr) and tr[i + 1].kind == "fail" and tr[i + 1].node is e.node:
                    continue
                for op, path in sinks(e, fl):
                    t = unwrap(path, fl)
                    if op != "write" or t[0] not in ("bin", "fmt"):
                        continue
                    gone = any(not pol and a[0] == "call" and a[1][0] == "ext" and a[1][1] in (
                        "os.path.exists", "os.path.isfile", "os.path.lexists") and fl.strip(a[2][0]) == t
                        for a, pol in s.conds.items())
                    later = [x for x in tr[i + 1:] if x.kind == "call" and any(
                        q == "remove" and unwrap(y, fl) == t for q, y in sinks(x, fl))]
                    # the removal itself may fail, the move must not be the only attempt
                    last_failed = o[0] == "raise" and later and tr[-1].kind == "fail" and tr[-1].node is later[-1].node
                    ok = gone or later and not (last_failed and later[-1].target[0] == "ext" and later[-1].target[1] in MOVE)
                    r.check(ok, "temporary-removed", "%s: %s" % (f.qual, show(t)[:50]),
                            "left behind when %s" % ("the function returns" if o[0] == "return" else "an operation fails"),
                            where(e))


def cache_param(t, f, ctx):
    # the cache shipped with the package
    if t[0] == "call" and t[1] == ("ext", "os.path.join") and any(
            x == ("global", f.module.name, "__file__") for x in subterms(t)) and any(
            is_const(x) and "cache" in str(x[2]).lower() for x in t[2]):
        return True
    return t[0] == "param" and "cache" in t[1] and "check" not in t[1] and f.cls is ctx.CParser


def allowed(op, t, fl, ctx, f):
    """True, False, or None when the path is an argument of the function."""
    if is_temp(t, fl):
        return True
    if op == "write" and cache_param(t, f, ctx):
        return True
    # a sibling of the cache, moved onto it
    if t[0] in ("bin", "fmt"):
        ps = [fl.strip(x) for x in parts(t)]
        dyn = [x for x in ps if not is_const(x) and x != ("call", ("ext", "os.getpid"), (), ())]
        if dyn and all(cache_param(x, f, ctx) for x in dyn):
            for e in fl.events:
                if e.kind == "call" and e.target[0] == "ext" and e.target[1] in MOVE and (
                        len(e.args) > 1 and fl.strip(e.args[0]) == t
                        and cache_param(fl.strip(e.args[1]), f, ctx)):
                    return True
            return False
    if f.cls is not ctx.CParser and t[0] == "param":
        return None
    if t[0] == "param" and t[1] != "self":
        return None
    return False


def redirections(r, e, fl):
    cmd = e.args[0] if e.args else dict(e.kwargs or ()).get("args", NONE)
    prev = ""
    for x in parts(fl.strip(cmd), e.state):
        x = fl.strip(x)
        if is_const(x) and isinstance(x[2], str):
            s = x[2]
            toks = s.replace(">", " > ").split()
            for i, w in enumerate(toks):
                if w == ">" and i + 1 < len(toks) and not (
                        toks[i + 1].startswith(("/dev/null", "&")) or toks[i + 1] == ">"):
                    r.bad("redirect", "%s: %s" % (e.func.qual, s[:60]),
                          "the output of a command is written to %s" % toks[i + 1], where(e))
                if w == "-o" and i + 1 < len(toks):
                    r.bad("redirect", "%s: %s" % (e.func.qual, s[:60]),
                          "the command writes to %s" % toks[i + 1], where(e))
                if w in ("rm", "mv", "cp", "tee", "touch", "dd"):
                    r.bad("redirect", "%s: %s" % (e.func.qual, s[:60]),
                          "the command %s changes files" % w, where(e))
            prev = s
        else:
            if prev.rstrip().endswith((">", "-o")) and not is_temp(x, fl) and not (
                    x[0] == "call" and x[1] == ("ext", "shlex.quote") and is_temp(x[2][0], fl)):
                r.bad("redirect", "%s: output of a command" % e.func.qual,
                      "a command writes to %s" % show(x), where(e))
            prev = ""
    r.ok("redirect", "%s: %s" % (e.func.qual, e.target[1]))
