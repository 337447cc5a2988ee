"""Partitions are referenced while in use and every reference is released once."""
from common import *
from refs import *

ASSUMPTIONS = [
    "a reference handed to a page in memory is released by the page; one handed to a query by the query",
    "exceptions thrown while a reference is held are not considered",
]

LIST = "Tsdb::m_tsdbs"
LOCK = "Tsdb::m_tsdb_lock"
OWNER = "PageInMemory::m_tsdb"


def check(ctx):
    p = ctx.prog
    ctx.rule("acquire", "a partition handed out is referenced exactly once, while the list of partitions is locked", 3)
    ctx.rule("release", "a reference taken is released or handed on exactly once on every path", 8)
    ctx.rule("each", "references to a set of partitions are released one by one, each exactly once", 4)
    ctx.rule("owner", "a page in memory releases its reference when it moves to another partition or goes away", 3)
    ctx.rule("unreferenced-use", "a partition found in the list is not used after the list is unlocked unless it is referenced", 2)
    ctx.rule("in-use", "a partition is removed from the list, deleted or compacted only when nobody references it", 2)
    use(T="Tsdb", COUNT="Tsdb::m_ref_count", INC=("Tsdb::inc_ref_count",), DEC=("Tsdb::dec_ref_count",), GET=("Tsdb::inst",), SETS={"Tsdb::insts": 1},
        OWNER=OWNER, SKIP=("Tsdb::inst", "Tsdb::insts"), MANY="partitions")
    handed_out(ctx, p)
    pairing(ctx, p)
    owner(ctx, p)
    page(ctx, p)
    unlocked(ctx, p)
    in_use(ctx, p)


def handed_out(ctx, p):
    f = p.get("Tsdb::inst")
    names = near_callees(p, f, ("Tsdb::create", "Tsdb::search"))
    g = AGraph(p, f, inline=lambda fn, e, d: fn.short in names and fn.file == f.file, maxdepth=3)
    ctx.analysed(f)
    found = [n for n in g if sets_tsdb(n)]
    if not found:
        raise AnalysisError("Tsdb::inst does not look for a partition")
    for n in found:
        v = n.ev["id"] if n.k == "decl" else n.ev["lhs"][2]
        def a(m):
            return acq(m) and is_v(base(m), v)
        r = paths(g).search(nexts(g, n), lambda m: m.id == g.exit.id, stop=lambda m: a(m) or m in found, stop_edge=null_of(v))
        ctx.ob("acquire", "partition returned by Tsdb::inst", r is None, n.loc, "a partition is handed out without a reference%s" % via(r))
    for n in g:
        if acq(n):
            r = paths(g).search(nexts(g, n), acq, stop_edge=null_any)
            ctx.ob("acquire", "one reference in Tsdb::inst", r is None, n.loc, "a partition is referenced twice%s" % via(r))
            ctx.ob("acquire", "referenced under the lock in Tsdb::inst", under_lock(g, n), n.loc, "the partition is referenced after the list is unlocked: it may have been purged")
    f = p.get("Tsdb::insts")
    names = near_callees(p, f)
    g = AGraph(p, f, inline=lambda fn, e, d: fn.short in names and fn.file == f.file, maxdepth=3)
    ctx.analysed(f)
    push = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and "vector<Tsdb *>" in n.ev["e"][1] and ("::push_back(" in n.ev["e"][1] or "::emplace_back(" in n.ev["e"][1])]
    ctx.ob("acquire", "partitions collected by Tsdb::insts", bool(push), f.loc(), "no partition is handed out")
    for n in push:
        lp = loop_of(g, n)
        h = lp[0] if lp else g.entry.id
        def same(m):
            return acq(m) and base(m) == strip_cast(args(n)[0])
        before = paths(g).search(nexts(g, g.nodes[h]), lambda m: m is n, stop=same) is None
        after = paths(g).search(nexts(g, n), lambda m: m.id == h or m.id == g.exit.id, stop=same) is None
        ctx.ob("acquire", "partition collected by Tsdb::insts", before or after, n.loc, "a partition is handed out without a reference")
    for n in g:
        if acq(n):
            lp = loop_of(g, n)
            h = lp[0] if lp else g.exit.id
            r = paths(g).search(nexts(g, n), acq, stop=lambda m: m.id == h)
            ctx.ob("acquire", "one reference in Tsdb::insts", r is None, n.loc, "a partition is referenced twice")
            r = paths(g).search(nexts(g, n), lambda m: m.id == h or m.id == g.exit.id, stop=lambda m: m in push)
            before = paths(g).search(nexts(g, g.nodes[h]), lambda m: m is n, stop=lambda m: m in push) is None if lp else False
            ctx.ob("acquire", "reference handed out by Tsdb::insts", r is None or before, n.loc, "a partition is referenced without being handed out")
            ctx.ob("acquire", "referenced under the lock in Tsdb::insts", under_lock(g, n), n.loc, "the partition is referenced after the list is unlocked")


def sets_tsdb(n):
    if n.k == "decl" and n.ev["init"] is not None:
        e = n.ev["init"]
    elif n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["rhs"] is not None:
        e = n.ev["rhs"]
    else:
        return False
    e = strip_cast(e)
    return e[0] == "c" and short(e[1]) in ("Tsdb::search", "Tsdb::create")


def guard_decl(n):
    return n.k == "ctor" and n.ev["e"][0] == "k" and "PThread" in n.ev["e"][1] and any(is_lock(a) for a in n.ev["e"][3]) or \
        n.k == "decl" and "PThread" in n.ev["t"] and n.ev["init"] is not None and is_lock(n.ev["init"])


def is_lock(e):
    return any(s[0] == "v" and s[1] == LOCK for s in walk(e))


def guards(g):
    out = set()
    for n in g:
        if n.k == "decl" and "PThread" in n.ev["t"] and n.ev["init"] is not None and is_lock(n.ev["init"]):
            out.add(n.ev["id"])
    return out


def lock_end(g):
    ids = guards(g)
    return lambda n: n.k == "dtor" and n.ev.get("id") in ids or is_ext(n, "pthread_rwlock_unlock") and is_lock(n.ev["e"])


def under_lock(g, n):
    ids = guards(g)
    if not ids:
        return any(is_ext(m, "pthread_rwlock_rdlock", "pthread_rwlock_wrlock") for m in g)
    end = lock_end(g)
    start = lambda m: m.k == "decl" and m.ev["id"] in ids
    if paths(g).search([g.entry], lambda m: m is n, stop=start) is not None:
        return False
    ends = [m for m in g if end(m)]
    return not ends or paths(g).search(ends, lambda m: m is n, stop=start) is None


def page(ctx, p):
    ds = p.all("PageInMemory::<dtor>")
    ctx.ob("owner", "destructor of a page", bool(ds), p.get("PageInMemory::flush").loc(), "a page does not release its partition when it goes away")
    for d in ds:
        g = AGraph(p, d)
        ctx.analysed(d)
        def r(m):
            return rel(m) and base(m)[0] == "m" and base(m)[2] == OWNER
        q = escapes(g, g.entry, r, edge_stop=lambda s, l: any(mentions_field(e, OWNER) and null_test(e, t) for e, t in truths(l)))
        ctx.ob("owner", "released by the destructor", q is None, d.loc(), "a page does not release its partition when it goes away")
        for n in g:
            if r(n):
                ctx.ob("owner", "released once by the destructor", paths(g).search(nexts(g, n), r) is None, n.loc, "the reference is released twice")
    # a page can't be copied: its reference would be released twice
    for f in p.funcs.values():
        if f.cls != "PageInMemory":
            for ev in f.events():
                if ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m" and strip_cast(ev["lhs"])[2] == OWNER:
                    ctx.ob("owner", "%s changed in %s" % (OWNER, f.short), False, f.loc(), "a page's partition is changed behind its back")


def unlocked(ctx, p):
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.file.startswith(NO_INLINE_FILES):
            continue
        if not any(is_lock(ev["init"]) for ev in f.events() if ev["k"] == "decl" and "PThread" in ev["t"] and ev["init"] is not None):
            continue
        g = AGraph(p, f)
        ctx.analysed(f)
        end = lock_end(g)
        defs = []
        for n in g:
            v, e = None, None
            if n.k == "decl" and n.ev["init"] is not None and n.ev["t"] == "Tsdb *":
                v, e = n.ev["id"], n.ev["init"]
            elif n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["lhs"][3] == "l" and n.ev["rhs"] is not None and str(n.ev["lhs"][4] if len(n.ev["lhs"]) > 4 else "") == "Tsdb *":
                v, e = n.ev["lhs"][2], n.ev["rhs"]
            if v is None or not from_list(g, e):
                continue
            defs.append((n, v))
        for n, v in defs:
            def safe(m):
                return acq(m) and is_v(base(m), v) or sets_var(m, v) and m is not n or erases(m)
            ends = [m for m in g if end(m) and paths(g).search(nexts(g, n), lambda x: x is m, stop=safe, stop_edge=null_of(v)) is not None]
            r = None
            for m in ends:
                r = r or paths(g).search(nexts(g, m), lambda x: uses(x, v), stop=lambda x: sets_var(x, v), stop_edge=null_of(v))
            ctx.ob("unreferenced-use", "partition taken from the list in %s" % f.short, r is None, n.loc, "the partition may be purged while it is used after the list was unlocked%s" % via(r))


def from_list(g, e):
    for o in origins(g, e):
        if o[0] == "c" and (short(o[1]) == "Tsdb::search" or "vector<Tsdb *>" in o[1]):
            if short(o[1]) == "Tsdb::search":
                return True
            for x in walk(o):
                if x[0] == "v" and x[1] == LIST:
                    return True
                if x[0] == "v" and x[3] != "g" and any(y[0] == "v" and y[1] == LIST for d in origins(g, x) for y in walk(d)):
                    return True
    return False


def erases(n):
    return n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and is_global(n.ev["e"][2], LIST) and any(
        x in n.ev["e"][1] for x in ("::erase(", "::pop_back(", "::clear("))


def unref(e, t, most=1):
    """e with truth t says that nobody (else) references the partition"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">=", "==", "!="):
        return False
    if mentions_field(e[2], "Tsdb::m_ref_count") and const_of(e[3]) is not None:
        op, k = e[1], const_of(e[3])
    elif mentions_field(e[3], "Tsdb::m_ref_count") and const_of(e[2]) is not None:
        op, k = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(e[1], e[1]), const_of(e[2])
    else:
        return False
    if not t:
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
    return op == "<=" and k <= most or op == "<" and k <= most + 1 or op == "==" and k <= most


def in_use(ctx, p):
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.short in ("Tsdb::shutdown",) or f.file.startswith(NO_INLINE_FILES):
            continue
        g = None
        for ev in f.events():
            if ev["k"] == "call" and ev["e"][0] == "c" and ("vector<Tsdb *>" in ev["e"][1] and ev["e"][2] is not None and is_global(ev["e"][2], LIST) and any(x in ev["e"][1] for x in ("::erase(", "::pop_back(", "::clear("))):
                g = g or AGraph(p, f)
            if ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) in ("Tsdb::unload_no_lock", "Tsdb::unload"):
                g = g or AGraph(p, f)
        if g is None or f.short in ("Tsdb::unload",):
            continue
        ctx.analysed(f)
        held = [n for n in g if acq(n)]
        for n in g:
            if erases(n):
                r = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: any(unref(e, t, 0) for e, t in truths(l)))
                ctx.ob("in-use", "removed from the list in %s" % f.short, r is None, n.loc, "a partition that is in use can be removed and purged%s" % via(r))
                if r is None:
                    ctx.ob("in-use", "count read under the lock in %s" % f.short, under_lock(g, n), n.loc, "the partition can be referenced between the test and its removal")
            if is_call(n, "Tsdb::unload_no_lock", "Tsdb::unload") and base_var(n) and not fresh(g, n):
                b = base_var(n)
                most = 1 if any(is_v(base(m), b) for m in held) else 0
                r = paths(g).search([m for m in held if is_v(base(m), b)] or [g.entry], lambda m: m is n, stop=lambda m: erases(m), stop_edge=lambda s, l: any(unref(e, t, most) for e, t in truths(l)))
                ctx.ob("in-use", "closed in %s" % f.short, r is None, n.loc, "a partition that is in use is closed for good%s" % via(r))


def base_var(n):
    b = n.ev["e"][2]
    b = strip_cast(b) if b is not None else None
    return b[2] if b is not None and b[0] == "v" and b[3] != "g" else None


def fresh(g, n):
    """a partition made in this function"""
    return any(o[0] == "c" and short(o[1]) == "Tsdb::create" for o in origins(g, n.ev["e"][2]))
