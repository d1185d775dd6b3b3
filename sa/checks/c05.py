"""Names given by users reach external programs as data only."""

import ast

from ..common import where
from ..flow import NONE, TRUE, is_const, show

TITLE = "library names are never interpreted by a shell or as a pattern"
RULES = (
    "every call starting a program is enumerated on every path (helpers inlined): a "
    "command line given to a shell must be made of constants, quoted values and names "
    "of temporary files created there; an argument vector must not be run by a shell "
    "and must start with a constant program; every regular expression built from a "
    "non constant value in the library lookup escapes it."
)
ASSUMPTIONS = (
    "shlex.quote and re.escape are right",
    "tempfile.mkstemp returns names without characters special to the shell",
)

SHELL = {"os.popen", "os.system", "subprocess.getoutput", "subprocess.getstatusoutput"}
SPAWN = {"subprocess.Popen", "subprocess.run", "subprocess.call", "subprocess.check_call",
         "subprocess.check_output"}
EXEC = {"os.execv", "os.execvp", "os.execl", "os.execlp", "os.spawnv", "os.spawnl",
        "os.startfile", "os.posix_spawn", "pty.spawn"}
REGEX = {"re.compile", "re.search", "re.match", "re.fullmatch", "re.findall",
         "re.finditer", "re.sub", "re.split"}

GLOB = {"glob.glob", "glob.iglob", "fnmatch.fnmatch", "fnmatch.fnmatchcase", "fnmatch.filter",
        "fnmatch.translate", "os.path.expandvars"}


def parts(t, state=None):
    if t[0] == "obj" and state is not None and state.get((t, "#items")) is not None:
        for x in state[(t, "#items")]:
            yield from parts(x, state)
    elif t[0] == "fmt":
        for x in t[1]:
            yield from parts(x, state)
    elif t[0] == "bin" and t[1] in ("Add", "Mod"):
        yield from parts(t[2], state)
        yield from parts(t[3], state)
    elif t[0] in ("tuple", "list"):
        for x in t[1]:
            yield from parts(x, state)
    elif t[0] == "call" and t[1][0] == "method" and t[1][2] == "join" and t[2]:
        yield from parts(t[1][1], state)
        yield from parts(t[2][0], state)
    elif t[0] == "call" and t[1] == ("builtin", "str") and t[2]:
        yield from parts(t[2][0], state)
    else:
        yield t


def run(ctx):
    p, r = ctx.p, ctx.r
    names = SHELL | SPAWN | EXEC | GLOB

    def wanted(f):
        if f.module.name.startswith("headers"):
            return False
        ds = {p.resolve_dotted(f.module, x.func) for x in ast.walk(f.node)
              if isinstance(x, ast.Call)}
        return bool(ds & names) or (
            f.module.name.startswith("thirdparty") and bool(ds & REGEX))

    calls = {}
    for g in ctx.functions():
        for x in own_nodes(g.node):
            if isinstance(x, ast.Call):
                n = getattr(x.func, "id", None) or getattr(x.func, "attr", None)
                if n:
                    calls.setdefault(n, set()).add(g.qual)
    # a command made of the parameters of a function is judged in its callers
    todo = [f for f in p.functions.values() if wanted(f)]
    chain = {f.qual for f in todo}
    done = set()
    while todo:
        f = todo.pop(0)
        if f.qual in done:
            continue
        done.add(f.qual)
        callers = sorted(q for q in calls.get(f.name, ()) if q != f.qual and
                         p.functions[q].module.name.split(".")[0] != "headers")
        fl = ctx.flow(f, key=None, opaque=lambda x: x.qual not in chain and
                      len(list(ast.walk(x.node))) > 150)
        fwd = False
        for e in fl.events:
            if e.kind != "call" or e.target[0] != "ext":
                continue
            bad = judge(e, fl)
            if bad is None:
                continue
            rule, culprits, msg = bad
            what = "%s: %s" % (e.func.qual, e.target[1])
            if culprits and (callers or rule == "argv") and all(from_param(x, fl) for x in culprits):
                fwd = True
                r.ok(rule, what + " (argument of %s)" % f.qual)
                continue
            r.check(not culprits, rule, what,
                    msg % ", ".join(show(x)[:60] for x in culprits), where(e))
        if fwd:
            chain.add(f.qual)
            for q in callers:
                chain.add(q)
                todo.append(p.functions[q])
    r.floor("shell", 1)
    r.floor("argv", 1)
    r.floor("pattern", 1)


def own_nodes(fn):
    """Nodes of a function, not of the functions defined inside it."""
    stack = list(ast.iter_child_nodes(fn))
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(x))


def from_param(t, fl):
    t = fl.strip(t)
    while t[0] in ("item", "slice", "star", "elem", "ver"):
        t = fl.strip(t[1])
    return t[0] == "param"


def fresh(t):
    """Name of a temporary file created by the function."""
    return t[0] == "item" and t[1][0] == "call" and t[1][1] == ("ext", "tempfile.mkstemp") or (
        t[0] == "attr" and t[2] == "name" and t[1][0] == "call"
        and t[1][1][0] == "ext" and t[1][1][1].startswith("tempfile."))


def judge(e, fl):
    """(rule, offending terms, message) for a call which starts a program."""
    d = e.target[1]
    kw = dict(e.kwargs or ())
    if d in SHELL:
        cmd = e.args[0] if e.args else kw.get("cmd", NONE)
        return shell_cmd(cmd, fl, e.state)
    if d in SPAWN:
        sh = kw.get("shell")
        star = kw.get("**")
        if star is not None and star[0] == "call" and star[1] == ("builtin", "dict") and star[2]:
            star = star[2][0]
        if star is not None and star[0] == "kwdict":
            sh = dict(star[1]).get("shell", sh)
        cmd = e.args[0] if e.args else kw.get("args", NONE)
        if cmd[0] == "star":
            cmd = fl.mk_item(cmd[1], ("const", "int", 0), _H)
        if sh is not None and not (is_const(sh) and not sh[2]):
            return shell_cmd(cmd, fl, e.state)
        items = None
        b = fl.strip(cmd)
        if b[0] == "tuple":
            items = b[1]
        elif b[0] == "obj":
            items = e.state.get((b, "#items"))
        elif is_const(b) or b[0] == "fmt" and all(is_const(x) for x in parts(b)):
            items = (b,)
        ok = bool(items) and is_const(items[0])
        return "argv", [] if ok else [cmd], "the program run is not a constant: %s"
    if d in EXEC:
        return "argv", [e.target], "unexpected way to start a program: %s"
    if d in GLOB:
        i = 1 if d in ("fnmatch.fnmatch", "fnmatch.fnmatchcase", "fnmatch.filter") else 0
        pat = e.args[i] if len(e.args) > i else kw.get("pathname", kw.get("pat", NONE))
        bad = [x for x in path_parts(fl.strip(pat), e.state) if not (
            is_const(x) or x[0] == "call" and x[1] == ("ext", "glob.escape"))]
        return "pattern", bad, "%s is used as a pattern"
    if d in REGEX and e.func.module.name.startswith("thirdparty"):
        pat = e.args[0] if e.args else kw.get("pattern", NONE)
        bad = [x for x in parts(fl.strip(pat), e.state) if not (
            is_const(x) or x[0] == "call" and x[1] in (("ext", "re.escape"), ("ext", "re.compile"))
            or x[0] == "global")]
        return "pattern", bad, "%s is used as a regular expression"
    return None


def path_parts(t, state):
    if t[0] == "call" and t[1] == ("ext", "os.path.join"):
        for x in t[2]:
            yield from path_parts(x, state)
    else:
        yield from parts(t, state)


def shell_cmd(cmd, fl, state):
    bad = []
    for x in parts(fl.strip(cmd), state):
        x = fl.strip(x)
        if is_const(x) or fresh(x) or x[0] == "idx":
            continue
        if x[0] == "call" and x[1] in (("ext", "shlex.quote"), ("ext", "shlex.join")):
            continue
        bad.append(x)
    return "shell", bad, "%s reaches a shell unquoted"


class _H:
    heap = {}
    conds = {}
    env = {}
