"""Libraries of another word size are refused before they are loaded."""

import ast

from ..common import where
from ..flow import NONE, is_const, mentions, show, subterms
from ..program import AnalysisBroken
from .c15 import base, entry, is_new, kind_of

TITLE = "a library of the other word size is refused before it is loaded"
RULES = (
    "path conditions of every construction of a proxy from a file name: either the word "
    "sizes read from that very file are empty (unknown) or they contain the word size of "
    "the interpreter (64 exactly when sys.maxsize exceeds 2**32); the word sizes are "
    "returned exactly under the conditions which identify them (names of machines, PE "
    "machine codes, words of the file command), for the path given, and an error while "
    "reading them means unknown."
)
ASSUMPTIONS = ("the output of the file command names the word size of the library",)

BITS = {"I386": 32, "R3000": 32, "ARM": 32, "THUMB": 32, "ARMNT": 32, "IA64": 64, "AMD64": 64,
        "ALPHA64": 64, "ARM64": 64, "X64": 64, "X86": 32, "RISCV64": 64, "RISCV32": 32,
        "POWERPC": 32, "POWERPCFP": 32, "SH3": 32, "SH4": 32, "M32R": 32, "AM33": 32}
CODES = {0x14C: "I386", 0x200: "IA64", 0x8664: "AMD64", 0x1C0: "ARM", 0x1C4: "ARMNT"}
WORDS = [("32-bit", 32), ("64-bit", 64), ("i386", 32), ("x86_64", 64), ("arm64", 64), ("aarch64", 64),
         ("ELF32", 32), ("ELF64", 64), ("PE32+", 64)]


def run(ctx):
    p, r = ctx.p, ctx.r
    meta, call = entry(ctx)
    fl = ctx.flow(call, key="c16", implicit=True, max_states=60000,
                  opaque=lambda x: x.name in ("find_library", "get_arch", "get_library_path",
                                              "identify_library", "arch")
                  or x.module.name.startswith("thirdparty"))
    lib = ("param", call.params[1])
    n = 0
    for e in fl.events:
        if not (e.kind == "call" and is_new(e.value or ("x",))):
            continue
        if kind_of(e.conds, lib) is False:
            continue
        n += 1
        path = [x for x in e.args if x[0] != "cls"][0]
        what = "%s loads %s" % (call.qual, show(path)[:50])
        why = "loaded whatever its word size"
        for a, pol in e.conds.items():
            ar = arch_of(a, fl)
            if ar is not None:
                if not same(ar, path, fl):
                    why = "the word size of %s is tested" % show(ar)
                elif not pol:
                    why = None
                    break
                else:
                    continue
            if a[0] == "in":
                ar = arch_of(a[2], fl)
                if ar is None:
                    continue
                if not same(ar, path, fl):
                    why = "the word size of %s is tested" % show(ar)
                elif not pol:
                    why = "loaded although the word size differs"
                    break
                elif bits(a[1], e.conds, fl):
                    why = None
                    break
                else:
                    why = "%s is not the word size of the interpreter" % show(a[1])
            if a[0] == "eq" and not pol:
                # unknown: compared to the empty tuple
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    pass
        r.check(why is None, "refused", what, why or "", where(e))
    if not n:
        raise AnalysisBroken("no construction from a file name found")
    # a library whose word size is unknown is not refused
    for e in fl.events:
        if e.kind != "raise" or any(is_new(x.value or ("x",)) for x in e.trace if x.kind == "call"):
            continue
        about = [(a, pol) for a, pol in e.conds.items() if any(arch_of(x, fl) is not None for x in subterms(a))]
        tests = [(a, pol) for a, pol in about if a[0] == "in" and arch_of(a[2], fl) is not None and not pol]
        empty = [a for a, pol in about if arch_of(a, fl) is not None and not pol]
        if not about or not tests and not empty:
            continue
        r.check(not empty and len(about) > len(tests), "unknown-on-error", "%s refuses a library" % call.qual,
                "also when its word size could not be found", where(e))

    # LibraryPath.arch
    lp = [c for c in p.classes.values() if c.name == "LibraryPath"]
    if not lp or lp[0].find("arch") is None:
        raise AnalysisBroken("LibraryPath.arch not found")
    f = lp[0].find("arch")
    g = ctx.flow(f, key="c16", implicit="all", opaque=lambda x: x.name == "get_arch")
    me = ("param", f.params[0])
    for s, o in g.outcomes:
        what = "%s (%s)" % (f.qual, o[0])
        if o[0] == "raise":
            r.bad("unknown-on-error", what, "an error while reading the word size is not handled", f.qual)
            continue
        v = g.strip(o[1])
        if v[0] == "call" and v[1][0] == "func" and v[1][1].endswith("get_arch"):
            r.check(base(v[2][0], g)[0] in (me, ("attr", me, "path")), "of-the-file", what,
                    "reads %s" % show(v[2][0]), f.qual)
        elif v == ("attr", me, "_arch"):
            r.ok("of-the-file", what + " cached")
        else:
            r.check(v == ("tuple", ()) and any(e.kind == "handler" for e in s.trace), "unknown-on-error",
                    what, "returns %s without reading the file" % show(v), f.qual)
    for e in g.events:
        if e.kind == "setattr" and g.strip(e.target)[0] in ("cls", "global") and any(
                x == ("attr", me, e.args[0]) for s, o in g.outcomes for x in list(subterms(o[1] or NONE)) + [
                    y for a in s.conds for y in subterms(a)]):
            r.bad("of-the-file", "%s: %s" % (f.qual, e.args[0]), "the word size of one file is kept for all the others", where(e))
    r.floor("of-the-file", 1)
    r.floor("unknown-on-error", 1)

    # get_arch
    f = p.func("utils.get_arch") if "utils.get_arch" in p.functions else None
    if f is None:
        raise AnalysisBroken("get_arch not found")
    arg = ("param", f.params[0])
    g = ctx.flow(f, key="c16", implicit=True, unroll="all", opaque=lambda x: x.name in (
        "check_output", "get_shared_library_arch"))
    for e in g.events:
        if e.kind == "call" and e.target[0] == "func":
            ok = mentions(e.args, arg) or any(mentions(items_of(a, e), arg) for a in e.args)
            r.check(ok, "of-the-file", "%s: %s" % (f.qual, show(e.target)), "another file is read", where(e))
    seen = set()
    for s, o in g.outcomes:
        if o[0] != "return":
            continue
        sizes = numbers(o[1], s, g)
        if sizes is None:
            r.bad("sizes", "%s returns %s" % (f.qual, show(o[1])), "not a tuple of word sizes", f.qual)
            continue
        truth = {}
        for a, pol in s.conds.items():
            got = evidence(a)
            for b in got or ():
                if pol:
                    truth.setdefault(b, True)
                elif b not in truth:
                    truth[b] = False
        for b in (32, 64):
            w = truth.get(b)
            key = (b, w, b in sizes)
            what = "%s: %d-bit when %s" % (f.qual, b, {True: "announced", False: "not announced", None: "not looked for"}[w])
            r.check((b in sizes) == (w is True), "sizes", what,
                    "%d %s the result" % (b, "in" if b in sizes else "missing from"), f.qual)
            seen.add(b if w and b in sizes else None)
        r.check(not (sizes - {32, 64}), "sizes", "%s returns only 32 and 64" % f.qual, str(sizes), f.qual)
    if not {32, 64} <= seen:
        r.bad("sizes", f.qual, "a word size is never reported", f.qual)
    platforms(ctx, f, g)
    # PE machine codes
    f = p.functions.get("utils.get_shared_library_arch")
    if f is not None:
        g = ctx.flow(f, key="c16")
        known = {}
        executable(ctx, f, ctx.flow(f, key="c16x", implicit=False))
        for s, o in g.outcomes:
            if o[0] != "return" or not is_const(o[1]):
                continue
            for a, pol in s.conds.items():
                if a[0] == "eq" and pol:
                    for x in a[1:3]:
                        if is_const(x) and isinstance(x[2], int):
                            known[x[2]] = o[1][2]
        for m in p.modules.values():
            for name, vs in m.globals.items():
                if "machine" in name and vs and isinstance(vs[0], ast.Dict):
                    for k, v in zip(vs[0].keys, vs[0].values):
                        if isinstance(k, ast.Constant) and isinstance(v, ast.Constant):
                            known[k.value] = v.value
        if known:
            for c, nm in CODES.items():
                if c in known or c in (0x14C, 0x200, 0x8664):
                    r.check(known.get(c) == nm, "machine-codes", "machine 0x%04x" % c,
                            "read as %s instead of %s" % (known.get(c), nm), f.qual)
            for c, nm in known.items():
                if c not in CODES and nm in CODES.values():
                    r.bad("machine-codes", "machine 0x%04x" % c, "read as %s" % nm, f.qual)


def on(a, name):
    """Truth of a condition on the platform of that name; None for other conditions."""
    pf = ("ext", "sys.platform")
    sw = ("ext", "sys.platform.startswith")
    if not mentions(a, pf) and not mentions(a, sw):
        return None
    if a[0] == "call" and a[1] in (("method", pf, "startswith"), sw) and a[2]:
        x = a[2][0]
        vals = [x] if is_const(x) else x[1] if x[0] in ("tuple", "consts") else None
        if vals is None or not all(is_const(y) for y in vals):
            return "?"
        return name.startswith(tuple(y[2] for y in vals))
    if a[0] == "eq" and pf in a[1:]:
        x = a[1] if a[2] == pf else a[2]
        return name == x[2] if is_const(x) else "?"
    if a[0] == "in" and a[1] == pf and a[2][0] in ("consts", "tuple") and all(is_const(y) for y in a[2][1]):
        return name in {y[2] for y in a[2][1]}
    if a[0] == "in" and a[2] == pf and is_const(a[1]):
        return a[1][2] in name
    return "?"


def platforms(ctx, f, g):
    """On every platform both word sizes are reported."""
    r = ctx.r
    for name in ("win32", "linux", "darwin"):
        got, sure = set(), True
        for s, o in g.outcomes:
            t = [(on(a, name), v) for a, v in s.conds.items()]
            if any(x == "?" for x, v in t):
                sure = False
            if o[0] == "return" and all(x in (None, "?") or x == v for x, v in t):
                got |= numbers(o[1], s, g) or set()
        if not sure and not {32, 64} <= got:
            r.skip("sizes", "%s on %s" % (f.qual, name), "the platform is not told")
            continue
        for b in (32, 64):
            r.check(b in got, "sizes", "%s on %s: %d-bit" % (f.qual, name, b), "never reported there", f.qual)


def executable(ctx, f, g):
    """Executables of Windows are told from other files; their machine is looked up."""
    r = ctx.r
    marks = (b"MZ", b"PE", b"PE\0\0")
    consts, other = set(), []
    for s, o in g.outcomes:
        seen = [(x[2], v) for a, v in s.conds.items() if a[0] == "eq" for x in a[1:] if is_const(x) and x[2] in marks]
        if o[0] == "raise" and o[1][0] == "exc" and len(o[1]) == 3 and seen:
            r.check(any(v is False for _, v in seen), "machine-codes", "%s: files refused" % f.qual,
                    "an executable is refused", f.qual)
        if o[0] == "return":
            r.check(all(v for _, v in seen), "machine-codes", "%s: executables" % f.qual,
                    "the machine of another file is read", f.qual)
            v = g.strip(o[1])
            if is_const(v):
                consts.add(v[2])
            else:
                other.append(v)
    for v in other:
        if v[0] == "call" and v[1][0] == "method" and v[1][2] == "get" and v[2]:
            r.check(not is_const(v[2][0]), "machine-codes", "%s: machine" % f.qual, "%s is looked up" % show(v[2][0]), f.qual)
    if not other:
        for nm in ("I386", "AMD64", "IA64"):
            r.check(nm in consts, "machine-codes", "%s: %s" % (f.qual, nm), "never given", f.qual)


def items_of(t, e):
    it = e.state.get((t, "#items"))
    return ("tuple", it) if it else t


def arch_of(t, fl):
    """Path whose word sizes the term holds."""
    t = fl.strip(t)
    if t[0] == "call" and t[1][0] == "func" and t[1][1].endswith("get_arch") and t[2]:
        return t[2][0]
    if t[0] == "attr" and t[2] in ("_arch", "arch"):
        return t[1]
    return None


def same(a, b, fl):
    return base(a, fl)[0] == base(b, fl)[0]


def bits(t, conds, fl):
    """The term is the word size of the interpreter."""
    if is_const(t) and t[2] in (32, 64):
        for a, pol in conds.items():
            if a[0] == "lt":
                x, y = a[1], a[2]
                if y == ("ext", "sys.maxsize") and power(x) in (2 ** 32, 2 ** 31, 2 ** 32 - 1, 2 ** 31 - 1):
                    return pol == (t[2] == 64)
                if x == ("ext", "sys.maxsize") and power(y) in (2 ** 32, 2 ** 31, 2 ** 62, 2 ** 32 - 1):
                    return pol == (t[2] == 32)
            if a[0] == "eq" and any(size8(x) for x in a[1:3]):
                for x in a[1:3]:
                    if is_const(x):
                        return pol == (x[2] * 8 == t[2] or x[2] == t[2]) and x[2] in (4, 8, 32, 64)
        return False
    if t[0] == "bin" and t[1] == "Mult":
        return any(is_const(x) and x[2] == 8 and size8(y) for x, y in ((t[2], t[3]), (t[3], t[2])))
    return False


def size8(t):
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("struct.calcsize",) and t[2]:
        return t[2][0] in (("const", "str", "P"), ("const", "bytes", b"P"))
    if t[0] == "call" and t[1] == ("ext", "ctypes.sizeof") and t[2]:
        return t[2][0] == ("ext", "ctypes.c_void_p")
    return False


def power(t):
    if is_const(t) and isinstance(t[2], int):
        return t[2]
    if t[0] == "bin" and is_const(t[2]) and is_const(t[3]):
        a, b = t[2][2], t[3][2]
        try:
            if t[1] == "Pow" and b < 100:
                return a ** b
            if t[1] == "LShift" and b < 100:
                return a << b
            if t[1] == "Sub":
                return a - b
        except TypeError:
            return None
    if t[0] == "bin" and t[1] == "Sub" and is_const(t[3]):
        v = power(t[2])
        return None if v is None else v - t[3][2]
    return None


def evidence(a):
    """Word sizes established by the condition being true."""
    if a[0] == "in":
        if is_const(a[1]) and isinstance(a[1][2], (str, bytes)) and a[2][0] != "consts":
            w = a[1][2] if isinstance(a[1][2], str) else a[1][2].decode("latin-1")
            return {b for x, b in WORDS if x in w} or None
        if a[2][0] == "consts":
            return {BITS[x[2]] for x in a[2][1] if x[2] in BITS} or None
    if a[0] == "eq":
        for x in a[1:3]:
            if is_const(x) and x[2] in BITS:
                return {BITS[x[2]]}
    return None


def numbers(t, s, g):
    t = g.strip(t)
    if t[0] == "call" and t[1][0] == "builtin" and t[1][1] in ("tuple", "list") and len(t[2]) <= 1:
        return numbers(t[2][0], s, g) if t[2] else set()
    items = None
    if t[0] == "tuple":
        items = t[1]
    elif t[0] == "obj":
        items = s.heap.get((t, "#items"))
        if s.heap.get((t, "#open")):
            items = None
    if items is None or not all(is_const(x) for x in items):
        # appended one by one
        if t[0] == "obj":
            out = set()
            for e in s.trace:
                if e.kind == "mutate" and g.strip(e.target) == t:
                    if e.how == "append" and is_const(e.args[0]):
                        out.add(e.args[0][2])
                    else:
                        return None
            return out
        return None
    out = {x[2] for x in items}
    return out
