"""Files, pipes and processes are released however the operation ends."""

import ast

from ..common import where
from ..flow import is_const, mentions, show
from .c05 import own_nodes

TITLE = "files, pipes, processes and temporary files are released on every path"
RULES = (
    "typestate analysis: for every call opening a file or a pipe, starting a process or "
    "creating a temporary file, every path to the end of the function, including the "
    "ones taken when any later call fails, goes through the matching release (with "
    "statement, close, communicate or wait; unlink for temporary files); a resource "
    "handed to the caller is followed there."
)
ASSUMPTIONS = ("close, communicate and string methods do not fail",)

FILES = {"io.open", "codecs.open", "gzip.open", "os.popen", "os.fdopen", "subprocess.Popen",
         "socket.socket", "mmap.mmap", "zipfile.ZipFile", "tarfile.open", "shelve.open"}
TEMPFILES = {"tempfile.mkstemp"}
TEMPDIRS = {"tempfile.mkdtemp"}
FDS = {"os.open", "os.dup"}
ALL = FILES | TEMPFILES | TEMPDIRS | FDS
RELEASE = {"close", "communicate", "wait", "__exit__", "cleanup"}


def acquires(t):
    if t == ("builtin", "open"):
        return "file"
    if t[0] == "ext":
        if t[1] in FILES:
            return "file"
        if t[1] in TEMPFILES:
            return "temp"
        if t[1] in TEMPDIRS:
            return "tempdir"
        if t[1] in FDS:
            return "fd"
    if t[0] == "method" and t[2] == "open" and t[1][0] == "call" and t[1][1] == ("ext", "pathlib.Path"):
        return "file"
    return None


def run(ctx):
    analyse(ctx)
    ctx.r.floor("released", 4)


def analyse(ctx, only=None):
    """only: the rule to check."""
    p, r = ctx.p, ctx.r

    def wanted(f):
        for x in own_nodes(f.node):
            if isinstance(x, ast.Call):
                d = p.resolve_dotted(f.module, x.func)
                if d in ALL or isinstance(x.func, ast.Name) and x.func.id == "open":
                    return True
                if isinstance(x.func, ast.Attribute) and x.func.attr == "open":
                    return True
        return False

    calls = {}
    for g in ctx.functions():
        for x in own_nodes(g.node):
            if isinstance(x, ast.Call):
                n = getattr(x.func, "id", None) or getattr(x.func, "attr", None)
                if n:
                    calls.setdefault(n, set()).add(g.qual)
    todo = [(f, frozenset()) for f in p.functions.values()
            if not f.module.name.startswith("headers") and wanted(f)]
    done = set()
    while todo:
        f, chain = todo.pop(0)
        if (f.qual, chain) in done:
            continue
        done.add((f.qual, chain))
        fl = ctx.flow(f, key=None, implicit="all",
                      opaque=lambda x: x.qual not in chain and (
                          len(list(ast.walk(x.node))) > 60 or x.name in ("import_dict",)))
        fwd = False
        for s, o in fl.outcomes:
            tr = s.trace
            for i, e in enumerate(tr):
                kind = e.kind == "call" and acquires(e.target)
                if not kind:
                    continue
                what = "%s: %s" % (e.func.qual, show(e.target))
                if i + 1 < len(tr) and tr[i + 1].kind == "fail" and tr[i + 1].node is e.node:
                    continue  # the acquisition itself failed
                later = tr[i + 1:]
                if kind == "file":
                    obs = [("released", lambda x: released(x, e.value, fl))]
                elif kind == "fd":
                    obs = [("released", lambda x: fd_closed(x, e.value, fl))]
                elif kind == "temp":
                    fd = ("item", e.value, ("const", "int", 0))
                    nm = ("item", e.value, ("const", "int", 1))
                    obs = [("released", lambda x: fd_closed(x, fd, fl)),
                           ("temporary-removed", lambda x: unlinked(x, nm, fl))]
                else:
                    obs = [("temporary-removed", lambda x: unlinked(x, e.value, fl))]
                for rule, pred in obs:
                    if only and rule != only:
                        continue
                    gone = rule == "temporary-removed" and any(
                        a[0] == "call" and a[1][0] == "ext" and a[1][1] in (
                            "os.path.exists", "os.path.isfile", "os.path.lexists")
                        and not pol and mentions(a, e.value) for a, pol in s.conds.items())
                    if gone or any(pred(x) for x in later):
                        r.ok(rule, what)
                        continue
                    # failure of the release itself
                    if o[0] == "return" and carries(o[1], e.value, fl):
                        cs = [q for q in sorted(calls.get(f.name, ())) if q != f.qual]
                        if cs:
                            fwd = True
                            r.ok(rule, what + " (handed to the caller)")
                            continue
                    r.bad(rule, what, "not released when %s" % (
                        "the function returns" if o[0] == "return" else
                        "%s fails" % blame(o[1], f)), where(e))
        if fwd:
            for q in sorted(calls.get(f.name, ())):
                if q not in chain and q != f.qual:
                    todo.append((p.functions[q], chain | {f.qual}))


def blame(exc, f):
    if exc[0] == "exc" and exc[1] == "?":
        return "the call at line %s" % exc[2][0]
    return "an operation"


def carries(t, v, fl):
    return fl.strip(t) == v or t[0] in ("tuple", "list") and any(carries(x, v, fl) for x in t[1])


def released(x, v, fl):
    if x.kind == "with":
        t = fl.strip(x.target)
        return t == v or t[0] == "call" and t[1] == ("ext", "contextlib.closing") and t[2] and (
            fl.strip(t[2][0]) == v)
    if x.kind == "call" and x.target[0] == "method":
        if x.target[2] in RELEASE and fl.strip(x.target[1]) == v:
            return True
        if x.target[2] in ("enter_context", "push", "callback") and any(
                mentions(a, v) for a in x.args):
            return True
    return False


def fd_closed(x, fd, fl):
    if x.kind == "call" and x.target in (("ext", "os.close"), ("ext", "os.fdopen")):
        return bool(x.args) and fl.strip(x.args[0]) == fd
    return x.kind == "call" and x.target == ("builtin", "open") and x.args and fl.strip(x.args[0]) == fd


def unlinked(x, nm, fl):
    if x.kind != "call":
        return False
    if x.target[0] == "ext" and x.target[1] in ("os.unlink", "os.remove", "shutil.rmtree",
                                               "os.replace", "os.rename"):
        return bool(x.args) and fl.strip(x.args[0]) == nm
    if x.target[0] == "method" and x.target[2] in ("unlink",):
        return mentions(x.target[1], nm)
    if x.target[0] == "method" and x.target[2] == "callback":
        return any(mentions(a, nm) for a in x.args)
    return False
