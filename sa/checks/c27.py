"""Reading and processing of the headers."""

import ast

from ..common import own_nodes, where
from ..flow import C, NONE, State, is_const, mentions, show, subterms
from ..norm import Norm
from ..program import AnalysisBroken

TITLE = "every header is read as asked and goes through all the stages, in order"
RULES = (
    "value flow, path by path, of the reading and of the processing of the headers, two headers "
    "being distinguished: each header given is loaded, in order, with the replacements and "
    "the encoding asked for; its text is that of the file, decoded so, with every "
    "replacement applied; each header has its comments removed, is preprocessed, then "
    "parsed, before the next one; nothing of this happens once a cache was loaded; the "
    "cache is written after the last stage of the last header, only if asked for and "
    "never after a failure; every stage works on the text left by the previous one."
)
ASSUMPTIONS = ("two headers are distinguished (all are handled by the same loop)",)
SELF = ("param", "self")
STAGES = ("remove_comments", "preprocess", "parse_defs")
FILES = ("attr", SELF, "files")
ORDER = ("attr", SELF, "file_order")


def last(t):
    return str(t[-1]).split(".")[-1]


def called(e, fl, *names):
    """Arguments of a call of one of these methods of the parser."""
    if e.kind != "call" or e.target is None:
        return None
    t = e.target
    if t[0] in ("func", "bound", "method") and last(t if t[0] != "bound" else (t[1],)) in names or (
            t[0] == "attr" and t[2] in names):
        a = list(e.args)
        if a and fl.strip(a[0]) == SELF:
            a = a[1:]
        return a
    return None


def bound(f, e, fl):
    """Arguments by name of a call of the function f."""
    a = list(e.args)
    if a and fl.strip(a[0]) == SELF:
        a = a[1:]
    names = [x for x in f.params if x != "self"]
    out = dict(zip(names, a))
    out.update({k: v for k, v in e.kwargs if k})
    return out


def run(ctx):
    r = ctx.r
    stages(ctx)
    loading(ctx)
    reading(ctx)
    texts(ctx)
    for k in ("stages", "cache-last", "cached", "loaded", "encoding", "replaced", "text"):
        r.floor(k, 1)


def stages(ctx):
    r = ctx.r
    f = ctx.method(ctx.CParser, "process_all")
    F = (("param", "f1"), ("param", "f2"))
    names = STAGES + ("load_cache", "write_cache")
    ms = {n: ctx.method(ctx.CParser, n) for n in names}
    cache = ("param", "cache")
    for implicit in (False, True):
        st = State()
        st.heap[(ORDER, "#items")] = F
        fl = ctx.flow(f, key=None, implicit=implicit, state=st, max_states=100000, unroll="all",
                      opaque=lambda x: x.name in names)
        want = [(s, x) for x in F for s in STAGES]
        for s, o in fl.outcomes:
            seq = []
            for e in s.trace:
                for n in names:
                    if called(e, fl, n) is not None:
                        seq.append((n, e, bound(ms[n], e, fl)))
            loaded = [v for a, v in s.conds.items() if a[0] == "call" and a[1][0] in ("func", "method")
                      and last(a[1]) == "load_cache"]
            work = [(n, fl.strip(b.get("path", NONE))) for n, e, b in seq if n in STAGES]
            writes = [(i, e, b) for i, (n, e, b) in enumerate(seq) if n == "write_cache"]
            asked = wanted(s.conds, cache)
            if o[0] == "return" and not implicit:
                what = "%s returns%s" % (f.qual, " with a cache" if asked else "")
                if loaded == [True]:
                    r.check(not work and not writes, "cached", what, "headers are processed although a cache was loaded", f.qual)
                    continue
                r.check(asked is not True or loaded == [False], "cached", what, "the cache is not tried first", f.qual)
                r.check(work == want, "stages", what, "the stages are %s" % ", ".join(
                    "%s(%s)" % (a, show(b)) for a, b in work)[:150], f.qual)
                first = [i for i, (n, e, b) in enumerate(seq) if n in STAGES]
                lc = [i for i, (n, e, b) in enumerate(seq) if n == "load_cache"]
                r.check(not lc or not first or lc[0] < first[0], "cached", what + ": before", "tried too late", f.qual)
                if asked is True:
                    ok = len(writes) == 1 and not [i for i in first if i > writes[0][0]]
                    r.check(ok, "cache-last", what, "written %d times, or too early" % len(writes), f.qual)
                    for i, e, b in writes:
                        r.check(fl.strip(b.get("cache_file", NONE)) == cache, "cache-last", what + ": where",
                                "written to %s" % show(b.get("cache_file", NONE))[:40], where(e))
                elif asked is False:
                    r.check(not writes, "cache-last", what, "written although not asked for", f.qual)
                else:
                    r.check(not writes, "cache-last", what, "written although it may not be asked for", f.qual)
                    r.bad("cache-last", what + ": asked", "not decided by the path", f.qual)
                v = o[1]
                lit = fl.literal_items(v, s) if v != NONE else None
                r.check(lit is not None and len(lit) == 2 and all(
                    x[0] == "call" and last(x[1]) == "parse_defs" for x in lit), "stages", what + ": results",
                    "not the results of each header", f.qual)
            elif o[0] == "return":
                # no stage failed without stopping the processing
                if loaded != [True]:
                    lit = fl.literal_items(o[1], s) if o[1] != NONE else None
                    r.check(work == want and lit is not None and len(lit) == 2 and not failed(s, fl, names),
                            "stages", "%s returns only when no stage failed" % f.qual,
                            "the failure of a stage is ignored", f.qual)
            elif o[0] == "raise":
                done = [i for i, (n, e, b) in enumerate(seq) if n in STAGES]
                if not writes:
                    r.ok("cache-last", "%s fails" % f.qual)
                    continue
                # only a failure of the writing itself
                complete = [x for x in work] == want
                r.check(complete, "cache-last", "%s fails" % f.qual, "a cache is written although a header failed",
                        where(writes[0][1]))
    # what decides to use the cache
    for e in fl.events:
        a = called(e, fl, "load_cache")
        if a is not None:
            b = bound(ms["load_cache"], e, fl)
            r.check(fl.strip(b.get("cache_file", NONE)) == cache, "cached", "%s: file" % f.qual, "another file", where(e))
            r.check(fl.strip(b.get("check_validity", NONE)) == ("param", "check_cache_validity"), "cached",
                    "%s: validity" % f.qual, "not checked as asked for", where(e))


def failed(s, fl, names):
    """A stage failed on the path, which goes on."""
    return [e for e, prev in zip(s.trace[1:], s.trace) if e.kind == "handler" and called(prev, fl, *names) is not None]


def wanted(conds, p):
    for a, v in conds.items():
        if a == p:
            return v
        if a[0] == "is" and set(a[1:]) == {p, NONE}:
            return not v
    return None


def loading(ctx):
    r = ctx.r
    f = ctx.method(ctx.CParser, "__init__")
    lf = ctx.method(ctx.CParser, "load_file")
    fl = ctx.flow(f, key="c27i", implicit=False, opaque=lambda x: x.name in (
        "find_headers", "load_file", "process_all", "import_dict", "add_def", "auto_init"))
    nm = Norm(fl)
    p = ("param", "files")
    calls = [e for e in fl.events if called(e, fl, "load_file") is not None]
    if not calls:
        r.bad("loaded", f.qual, "the headers are not loaded", f.qual)
        return
    for e in calls:
        b = bound(lf, e, fl)
        x = nm(b.get("path", NONE))
        what = "%s loads %s" % (f.qual, show(b.get("path", NONE))[:50])
        ok = x[0] == "elem" and found(x[1], p, fl, e)
        r.check(ok, "loaded", what, "not the headers found, in order", where(e))
        r.check(fl.strip(b.get("replace", NONE)) == ("param", "replace"), "replaced", what, "other replacements", where(e))
        enc = fl.strip(b.get("encoding", NONE))
        r.check(enc in (("param", "encoding"), NONE, ("attr", SELF, "default_encoding")), "encoding", what,
                "%s is used" % show(enc)[:40], where(e))
    nodes = {id(e.loops[-1][1]) for e in calls if e.loops}
    for it in fl.iterends:
        if not it.loops or id(it.loops[-1][1]) not in nodes:
            continue
        n = [e for e in it.trace[len(it.args[0]):] if called(e, fl, "load_file") is not None]
        r.check(len(n) == 1, "loaded", "%s: each one" % f.qual, "a header may be left out", where(it))
    for it in fl.iterexits:
        if it.loops and id(it.loops[-1][1]) in nodes:
            r.bad("loaded", "%s: all of them" % f.qual, "the following headers are left out", where(it))
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        some = wanted(s.conds, p)
        pa = [i for i, e in enumerate(s.trace) if called(e, fl, "process_all") is not None]
        lo = [i for i, e in enumerate(s.trace) if called(e, fl, "load_file") is not None]
        fh = [e for e in s.trace if called(e, fl, "find_headers") is not None]
        if some is not False:
            r.check(fh or lo, "loaded", "%s: given" % f.qual, "the headers given are ignored", f.qual)
        r.check(not pa or not lo or max(lo) < min(pa), "loaded", "%s: before the processing" % f.qual, "loaded too late", f.qual)
        want = wanted(s.conds, ("param", "process_all"))
        if want is True:
            r.check(len(pa) == 1, "stages", "%s: processed" % f.qual, "processed %d times" % len(pa), f.qual)
        elif want is False:
            r.check(not pa, "stages", "%s: not processed" % f.qual, "processed although it is not asked for", f.qual)
    for e in fl.events:
        if called(e, fl, "process_all") is not None:
            b = bound(ctx.method(ctx.CParser, "process_all"), e, fl)
            r.check(fl.strip(b.get("cache", NONE)) == ("param", "cache"), "cached", "%s: cache" % f.qual, "another file", where(e))
            r.check(fl.strip(b.get("check_cache_validity", NONE)) == ("param", "check_cache_validity"), "cached",
                    "%s: validity" % f.qual, "not checked as asked for", where(e))
    enc = [e for e in fl.events if e.kind == "setattr" and e.target == SELF and e.args[0] == "default_encoding"]
    for e in enc:
        r.check(fl.strip(e.value) == ("param", "encoding"), "encoding", "%s: default" % f.qual, "not the one asked for", where(e))
    # the default is the one given to the parser, whatever was loaded since
    seen = {(e.func.module.rel, e.node.lineno) for e in enc}
    for g in ctx.functions():
        for n in own_nodes(g.node):
            if isinstance(n, ast.Attribute) and n.attr == "default_encoding" and not isinstance(n.ctx, ast.Load):
                at = (g.module.rel, n.lineno)
                r.check(at in seen, "encoding", "%s: default kept" % g.qual,
                        "the default encoding is changed once the parser is made", "%s:%d" % at)


def found(t, p, fl, e):
    """find_headers(the files given)."""
    t = fl.strip(t)
    while t[0] == "call" and t[1] in (("builtin", "list"), ("builtin", "tuple"), ("builtin", "iter")) and len(t[2]) == 1:
        t = fl.strip(t[2][0])
    if not (t[0] == "call" and t[1][0] in ("func", "method") and last(t[1]) == "find_headers"):
        return False
    a = fl.strip(t[2][-1])
    if a == p:
        return True
    one = fl.literal_items(a, e.state_of()) if hasattr(e, "state_of") else None
    if one is None and a[0] in ("obj", "tuple"):
        items = (a[1] if a[0] == "tuple" else (e.state or {}).get((a, "#items"))) if isinstance(e.state, dict) or a[0] == "tuple" else None
        return items is None or tuple(items) == (p,)
    return one == [p]


def reading(ctx):
    r = ctx.r
    f = ctx.method(ctx.CParser, "load_file")
    fl = ctx.flow(f, key="c27l", implicit=False)
    path, enc, rep = ("param", "path"), ("param", "encoding"), ("param", "replace")
    default = ("attr", SELF, "default_encoding")
    opens = [e for e in fl.events if e.kind == "call" and e.target in (
        ("builtin", "open"), ("ext", "io.open"), ("ext", "codecs.open"))]
    opens += [e for e in fl.events if e.kind == "call" and e.target and e.target[0] == "method" and e.target[2] in (
        "open", "read_text") and mentions(e.target[1], path)]
    if not opens:
        raise AnalysisBroken("%s does not open the file" % f.qual)
    for e in opens:
        kw = dict(e.kwargs)
        what = "%s opens %s" % (f.qual, show(e.args[0])[:30] if e.args else "")
        if e.target[0] != "method":
            r.check(fl.strip(e.args[0]) == path, "text", what, "not the file given", where(e))
        x = kw.get("encoding")
        if x is None and e.target == ("ext", "codecs.open") and len(e.args) > 2:
            x = e.args[2]
        if x is None and len(e.args) > 3:
            x = e.args[3]
        x = fl.strip(x) if x is not None else NONE
        given = wanted(e.conds, enc)
        good = x == enc and given is True or x == default and given is False or (
            x[0] == "or" and x[1] == (enc, default))
        r.check(good, "encoding", what + (" (default)" if given is False else ""),
                "decoded as %s" % show(x)[:40], where(e))
        r.check("errors" not in kw, "encoding", what + ": errors", "what cannot be decoded is changed silently", where(e))
        mode = e.args[1] if len(e.args) > 1 else kw.get("mode", C("r"))
        r.check(is_const(mode) and set(str(mode[2])) <= set("rt") or e.target[0] == "method", "text", what + ": mode",
                "opened with mode %s" % show(mode)[:20], where(e))
    # what is kept
    kept = 0
    loops = set()
    for e in fl.events:
        if e.kind != "mutate" or e.how not in ("setitem", "setdefault") or fl.strip(e.target) != FILES:
            continue
        k, v = e.args
        what = "%s keeps %s" % (f.qual, show(v)[:60])
        r.check(fl.strip(k) == path, "text", what, "under another name", where(e))
        v = fl.strip(v)
        if v == NONE:
            missing = any(not x and a == ("call", ("ext", "os.path.isfile"), (path,), ()) or not x and a == (
                "call", ("ext", "os.path.exists"), (path,), ()) for a, x in e.conds.items()) or any(
                e.tries or ())
            r.check(missing, "text", what, "although the file may exist", where(e))
            continue
        kept += 1
        r.check(pure(v, fl, path, rep), "text", what, "not the text of the file with the replacements", where(e))
    r.check(kept, "text", "%s: text kept" % f.qual, "the text is not kept", f.qual)
    # replacements
    nm = Norm(fl)
    subs = [e for e in fl.events if e.kind == "call" and is_sub(e)]
    for e in subs:
        pat, val, text = subbed(e)
        it = pair(nm(pat), nm(val), rep, fl)
        r.check(it, "replaced", "%s: %s by %s" % (f.qual, show(pat)[:30], show(val)[:30]),
                "not a string to replace and its replacement", where(e))
        extra = list(e.args)[3 if e.target == ("ext", "re.sub") else 2:] + [
            x for k, x in e.kwargs or () if k in ("count", "flags")]
        r.check(all(x == C(0) for x in extra), "replaced", "%s: everywhere" % f.qual,
                "only some of the occurrences are replaced", where(e))
        r.check(e.loops, "replaced", "%s: each" % f.qual, "only one replacement is made", where(e))
        if e.loops:
            loops.add(id(e.loops[-1][1]))
    for it in fl.iterends:
        if it.loops and id(it.loops[-1][1]) in loops:
            new = [x for x in it.trace[len(it.args[0]):] if x.kind == "call" and is_sub(x)]
            r.check(len(new) == 1, "replaced", "%s: all of them" % f.qual, "a replacement may be left out", where(it))
    for it in fl.iterexits:
        if it.loops and id(it.loops[-1][1]) in loops:
            r.bad("replaced", "%s: all of them" % f.qual, "the following replacements are left out", where(it))
    r.check(subs, "replaced", "%s: made" % f.qual, "no replacement is made", f.qual)
    for s, o in fl.outcomes:
        if o[0] != "return":
            continue
        app = [e for e in s.trace if e.kind == "mutate" and fl.strip(e.target) == ORDER]
        text = [e for e in s.trace if e.kind == "mutate" and fl.strip(e.target) == FILES and fl.strip(e.args[-1]) != NONE]
        what = "%s returns %s" % (f.qual, show(o[1])[:20])
        if text:
            ok = len(app) == 1 and app[0].how == "append" and fl.strip(app[0].args[0]) == path
            r.check(ok, "loaded", what, "the header is not queued (once) for processing", f.qual)
            skip = wanted(s.conds, rep) is True or any(
                x and a[0] == "call" and a[1] == ("builtin", "isinstance") and a[2][0] == rep for a, x in s.conds.items())
            if skip:
                # the replacement loop is on the path, possibly with no replacement
                r.ok("replaced", what)
        else:
            r.check(not app, "loaded", what, "a header which was not read is queued", f.qual)
    return


def is_sub(e):
    t = e.target
    return t is not None and (t == ("ext", "re.sub") or t[0] == "method" and last(t) == "sub")


def subbed(e):
    if e.target == ("ext", "re.sub"):
        a = list(e.args) + [NONE] * 3
        return a[0], a[1], a[2]
    a = list(e.args) + [NONE] * 2
    b = e.target[1]
    while b[0] == "call" and b[1] == ("ext", "re.compile"):
        b = b[2][0]
    return b, a[0], a[1]


def pair(pat, val, rep, fl):
    """pattern, replacement: a key of the table and its value."""
    def base(t):
        t = fl.strip(t)
        if t[0] == "or" and len(t) > 1:
            t = fl.strip(t[1][0])
        while t[0] == "call" and (t[1][0] == "method" and t[1][2] in ("items", "keys", "copy") or t[1] in (
                ("builtin", "list"), ("builtin", "tuple"), ("builtin", "iter"))):
            t = fl.strip(t[1][1] if t[1][0] == "method" else t[2][0])
        return t
    if pat[0] in ("elem", "key") and base(pat[1]) == rep:
        if val[0] == "item" and fl.strip(val[1]) == rep and val[2] == pat:
            return True
        if val[0] == "val" and base(val[1]) == rep:
            return True
        if val[0] == "call" and val[1][0] == "method" and val[1][2] == "get" and val[2] == (pat,):
            return True
    if pat[0] == "item" and pat[2] == C(0) and pat[1][0] == "elem" and base(pat[1][1]) == rep:
        return val == ("item", pat[1], C(1))
    return False


def pure(v, fl, path, rep, seen=frozenset()):
    """The text read, possibly with replacements made by re.sub."""
    v = fl.strip(v)
    if v in seen:
        return True
    seen = seen | {v}
    if v[0] == "call" and v[1][0] in ("method", "ext") and last(v[1]) in ("read", "read_text"):
        return True
    if v[0] == "item" and fl.strip(v[1]) == FILES:
        return v[2] == path
    if v[0] == "call" and v[1] == ("ext", "re.sub"):
        return pure(v[2][2], fl, path, rep, seen)
    if v[0] == "call" and v[1][0] == "method" and last(v[1]) == "sub":
        return pure(v[2][1], fl, path, rep, seen)
    if v[0] == "phi":
        opts = fl.phi.get(v[1:3]) or fl.phi.get((v[1], v[2])) or ()
        return all(x == v or pure(x, fl, path, rep, seen) for x in opts)
    if v[0] == "alts":
        return all(pure(x, fl, path, rep, seen) for x in v[1])
    return False


def texts(ctx):
    """Every stage reads the text of the header and leaves its own."""
    r = ctx.r
    for name in STAGES:
        f = ctx.method(ctx.CParser, name)
        p = f.params[1]
        fl = ctx.flow(f, key="c27" + name, implicit=False, max_states=60000,
                      opaque=lambda x: x.cls is ctx.CParser and x is not f and not tiny(ctx, x))
        text = ("item", FILES, ("param", p))
        used = any(x == text for e in fl.events for a in list(e.args or ()) + ([e.target] if e.target else [])
                   if isinstance(a, tuple) for x in subterms(a))
        r.check(used, "text", "%s works on the text of the header" % f.qual, "another text", f.qual)
        if name != "parse_defs":
            wr = [e for e in fl.events if e.kind == "mutate" and fl.strip(e.target) == FILES]
            r.check(wr and all(len(e.args) == 2 and fl.strip(e.args[0]) == ("param", p) for e in wr), "text",
                    "%s leaves its text" % f.qual, "not for the next stage", f.qual)
            for s, o in fl.outcomes:
                if o[0] == "return":
                    r.check(any(e.kind == "mutate" and fl.strip(e.target) == FILES for e in s.trace), "text",
                            "%s leaves its text on every path" % f.qual, "not for the next stage", f.qual)
        else:
            for e in fl.events:
                if e.kind == "mutate" and fl.strip(e.target) == FILES:
                    r.bad("text", "%s: %s" % (f.qual, e.how), "the text is changed while parsing", where(e))


def tiny(ctx, f):
    return f.name.startswith("_") and len(ctx.callers(f)) == 1
