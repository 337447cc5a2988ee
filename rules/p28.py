"""When data is closed, moved away or taken off the disk."""
from common import *
import common
import whatif
from along import *
from p18 import after, implies, holds_if
from p22 import local, nm, V, behind, each
from p27 import deep, key_of

ASSUMPTIONS = [
    "a partition is one day, and the list of partitions is ordered by time",
]

RM = ("rm_dir", "rm_dir2", "rm_file", "remove", "unlink", "rmdir")


def check(ctx):
    p = ctx.prog
    ctx.rule("purge", "a partition is removed only when it is the oldest, past its retention, archived and unused", 5)
    ctx.rule("remove", "directories are removed only by retention, or when they are leftovers", 3)
    ctx.rule("swap", "old data is put away only with the new in its place", 3)
    ctx.rule("mode", "how a partition may be used follows from its age", 2)
    ctx.rule("idle", "files are closed only when not used for a while", 6)
    ctx.rule("series", "what a series holds in memory is let go only when filed or empty", 2)
    ctx.rule("files", "of rotated files the oldest go, and the number asked for stays", 3)
    ctx.rule("restore", "only whole partitions are taken on at the start", 2)
    ctx.rule("compact", "only old partitions nobody uses are compacted", 3)
    ctx.rule("disk", "a full disk stops the server", 1)
    purge(ctx, p)
    removals(ctx, p)
    swaps(ctx, p)
    modes(ctx, p)
    idle(ctx, p)
    series(ctx, p)
    files(ctx, p)
    restore(ctx, p)
    disk(ctx, p)
    choice(ctx, p)
    roles(ctx, p)
    dropped(ctx, p)


def src(p):
    return sorted((f for f in p.funcs.values() if f.file.startswith(("src/", "include/"))), key=lambda f: f.id)


def has_call(f, test):
    return any(ev["k"] == "call" and ev["e"][0] == "c" and test(ev["e"]) for ev in f.events())


def near(p, f, keep=()):
    keep = set(keep)
    return Graph(p, f, lambda x, e, d: (x.cls == f.cls and x.cls is not None or x.short.startswith("static:")) and x.file == f.file and not x.virt and not loose(x.short, keep), maxdepth=2)


def loose(s, keep):
    return s.split("::")[-1] in keep


# ---- retention

PARTS = "Tsdb::m_tsdbs"


def erases(e):
    return e[0] == "c" and nm(e) in ("erase", "pop_front", "pop_back") and e[2] is not None and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[1] == PARTS


KEEP = ("flush", "unload", "unload_no_lock", "get_tsdb_dir_name", "is_archived", "purge_oldest", "create", "dec_ref_count", "inc_ref_count")


def elem(g, e):
    """the oldest, some, or None"""
    for o in deep(g, e):
        for x in walk(o):
            if x[0] == "c" and x[2] is not None and strip_cast(x[2])[0] == "v" and strip_cast(x[2])[1] == PARTS:
                n = nm(x)
                if n == "front" or n == "begin":
                    return "oldest"
                if n in ("operator[]", "at"):
                    return "oldest" if const_of(x[3][0]) == 0 else "some"
                if n in ("back", "end", "rbegin"):
                    return "some"
    return None


def purge(ctx, p):
    fs = [f for f in src(p) if f.cls == "Tsdb" and has_call(f, erases)]
    ctx.ob("purge", "retention", bool(fs), "src/core/tsdb.cpp:1", "nothing is ever removed")
    for f in fs:
        # what is done around it counts too, if it is a part of something bigger
        callers = {h for h in src(p) if h.cls == f.cls and h is not f and has_call(h, lambda e: p.funcs.get(e[1]) is f) and has_call(h, lambda e: nm(e) in RM)}
        tops = list(callers) or [f]
        for t in tops:
            g = near(p, t, set(KEEP) - {f.short.split("::")[-1]})
            one(ctx, p, t, g)
    for f in src(p):
        if f in fs:
            continue
        for ev in f.events():
            if ev["k"] == "call" and ev["e"][0] == "c" and any(p.funcs.get(ev["e"][1]) is x for x in fs) and ev["e"][3]:
                asked(ctx, p, f, ev)


def one(ctx, p, f, g):
    what = f.short
    er = [n for n in g if n.k == "call" and erases(n.ev["e"])]
    for n in er:
        over = lambda e, t: more(g, e, t)
        r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, over))
        ctx.ob("purge", "%s: past its retention" % what, r is None, n.loc, "a partition is removed although not more than the number to be kept are there")
        arch = lambda e, t: archived(g, e, t)
        r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, arch))
        ctx.ob("purge", "%s: archived" % what, r is None, n.loc, "a partition is removed although it may still be written")
        free = lambda e, t: unused(g, e, t)
        r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, free))
        ctx.ob("purge", "%s: not used" % what, r is None, n.loc, "a partition is removed although it is in use")
        a = args(n)
        ctx.ob("purge", "%s: the oldest" % what, nm(n.ev["e"]) != "pop_back" and (not a or elem(g, a[0]) == "oldest"), n.loc, "not the oldest partition is removed")
    picks = [n for n in g if n.k in ("asg", "decl") and (n.k == "asg" and "Tsdb *" in str(strip_cast(n.ev["lhs"])[-1:]) and strip_cast(n.ev["lhs"])[0] == "v" or n.k == "decl" and n.ev["t"] == "Tsdb *" and n.ev["init"] is not None and not n.ev.get("param"))]
    picks = [(n, n.ev["rhs"] if n.k == "asg" else n.ev["init"], strip_cast(n.ev["lhs"])[2] if n.k == "asg" else n.ev["id"]) for n in picks]
    rms = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in RM and n.ev["e"][3]]
    for n, e, i in picks:
        k = elem(g, e)
        if k is None or not any(x[0] == "v" and x[1] == PARTS for x in walk(e)):
            continue
        ctx.ob("purge", "%s: looks at the oldest" % what, k == "oldest", n.loc, "not the oldest partition is removed")
        none = lambda m: m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "v" and strip_cast(m.ev["lhs"])[2] == i and strip_cast(m.ev["rhs"])[0] == "n"
        r = paths(g).search(after(g, n), lambda q: q in rms, stop=lambda q: q in er or none(q))
        ctx.ob("purge", "%s: taken off the list" % what, r is None, n.loc, "a partition's files are removed while it can still be found")
    for n in rms:
        mine = {i for m, e, i in picks}
        dirs = [x for o in deep(g, args(n)[0]) for x in walk(o) if x[0] == "c" and nm(x) == "get_tsdb_dir_name"]
        ok = bool(dirs) and all(any((y[0] == "m" and y[2] == "Tsdb::m_time_range" or y[0] == "c" and nm(y) == "get_time_range") and (not mine or any(w[0] == "v" and w[2] in mine for z in walk(y) if z[0] == "v" for d in [z] + list(deep(g, z)) for w in walk(d))) for o in [x[3][0]] + list(deep(g, x[3][0])) for y in walk(o)) for x in dirs) and all(len(x[3]) < 2 or strip_cast(x[3][1])[0] == "n" for x in dirs)
        ctx.ob("purge", "%s: its own directory" % what, ok, n.loc, "not the directory of the partition is removed")
        ctx.ob("purge", "%s: all of it" % what, nm(n.ev["e"]) == "rm_dir2", n.loc, "a partition's directory has directories in it, which are left")
        r = paths(g).search([x for m in er for x in after(g, m)], lambda q: q is n, stop=lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) in ("unload", "unload_no_lock"))
        ctx.ob("purge", "%s: closed first" % what, r is None, n.loc, "files are removed while they are open")
    for n in er:
        gone = lambda s, l: implies(g, l, lambda e, t: is_none(e, t))
        for w, test in (("files", lambda q: q in rms), ("memory", lambda q: q.k == "del" and "Tsdb" in str(q.ev["e"][-1]))):
            r = paths(g).search(after(g, n), lambda q: q is g.exit, stop=test, stop_edge=gone)
            ctx.ob("purge", "%s: %s" % (what, w), r is None, n.loc, "a partition taken off the list is left behind (%s)" % w)


def is_none(e, t):
    e = strip_cast(e)
    return e[0] == "b" and e[1] in ("==", "!=") and any(strip_cast(x)[0] == "n" for x in e[2:4]) and any(strip_cast(x)[0] == "v" and strip_cast(x)[4] == "Tsdb *" for x in e[2:4]) and (e[1] == "==") == t


def more(g, e, t):
    """more partitions than a number given"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return False
    size = lambda x: any(y[0] == "c" and nm(y) == "size" and y[2] is not None and strip_cast(y[2])[0] == "v" and strip_cast(y[2])[1] == PARTS for o in deep(g, x) for y in walk(o))
    par = lambda x: strip_cast(x)[0] == "v" and not size(x)
    if size(e[2]) and par(e[3]):
        op = e[1]
    elif size(e[3]) and par(e[2]):
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[e[1]]
    else:
        return False
    return op == ">" and t or op == "<=" and not t


def archived(g, e, t):
    e = strip_cast(e)
    if e[0] == "c" and nm(e) == "is_archived":
        return t
    if e[0] == "b" and e[1] in ("==", "!=") and any(const_of(x) == 0 for x in e[2:4]) and mentions_field(e, "Tsdb::m_mode"):
        return (e[1] == "==") == t
    return False


def unused(g, e, t):
    e = strip_cast(e)
    if e[0] != "b":
        return False
    a, b, op = e[2], e[3], e[1]
    if mentions_field(b, "Tsdb::m_ref_count"):
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    ref = lambda x: mentions_field(x, "Tsdb::m_ref_count") or any(mentions_field(o, "Tsdb::m_ref_count") for o in deep(g, x))
    if not ref(a) or const_of(b) is None:
        return False
    c = const_of(b)
    return (op, c, t) in {("<=", 0, True), ("==", 0, True), ("<", 1, True), (">", 0, False), ("!=", 0, False), (">=", 1, False)}


def asked(ctx, p, f, ev):
    """how many are to be kept: days, and not none"""
    g = Graph(p, f)
    ns = [m for m in g if m.k == "call" and m.line == ev["l"] and m.ev["e"][0] == "c" and m.ev["e"][1] == ev["e"][1]]
    for n in ns:
        a = args(n)[0]
        gets = [x for o in deep(g, a) for x in walk(o) if x[0] == "c" and nm(x) == "get_time"]
        for x in gets:
            u = strip_cast(x[3][1])
            ctx.ob("purge", "%s: days" % f.short, len(u) < 3 or str(u[2]).split("::")[-1] == "DAY", n.loc, "the number of days to keep is given in another unit")
        if not gets:
            continue
        e = strip_cast(a)
        if any(x[0] == "c" and nm(x) == "max" and any(const_of(y) is not None and const_of(y) >= 1 or any((const_of(z) or 0) >= 1 for d in deep(g, y) for z in walk(d)) for y in x[3]) for o in deep(g, a) for x in walk(o)):
            ok = True
        elif any(x[0] == "?" for o in deep(g, a) for x in walk(o)):
            ok = True
        elif e[0] != "v":
            ok = False
        else:
            while strip_cast(behind(g, e))[0] == "v" and strip_cast(behind(g, e)) != e:
                e = strip_cast(behind(g, e))
            v = e[2]
            lift = lambda m: m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "v" and strip_cast(m.ev["lhs"])[2] == v and (const_of(m.ev["rhs"]) or 0) >= 1
            pos = lambda x, t: one_more(x, t, v)
            r = paths(g).search([g.entry], lambda q: q is n, stop=lift, stop_edge=lambda s, l: implies(g, l, pos))
            ok = r is None
        ctx.ob("purge", "%s: at least one day" % f.short, ok, n.loc, "with less than a day to keep, all partitions may be removed")


def one_more(e, t, v):
    e = strip_cast(e)
    if e[0] != "b":
        return False
    a, b, op = strip_cast(e[2]), const_of(e[3]), e[1]
    if b is None:
        a, b, op = strip_cast(e[3]), const_of(e[2]), {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if a[0] != "v" or a[2] != v or b is None:
        return False
    return (op, b, t) in {("<", 1, False), ("<=", 0, False), ("==", 0, False), (">", 0, True), (">=", 1, True), ("!=", 0, True)}


# ---- other removals

LEFT = (".temp", ".done", ".back", ".bak", ".tmp")


def removals(ctx, p):
    for f in src(p):
        if f.file == "src/utils/utils.cpp" or f.file == "include/utils.h":
            continue
        gone = lambda e: nm(e) in ("rm_dir", "rm_dir2", "rm_all_files")
        evs = has_call(f, gone) or has_call(f, lambda e: e[1].startswith("static:") and e[1] in p.funcs and has_call(p.funcs[e[1]], gone)) or has_call(f, lambda e: nm(e) == "create" and len(e[3]) > 2)
        if not evs:
            continue
        # done for another: seen from there
        if f.short.startswith("static:") and any(h is not f and h.file == f.file and has_call(h, lambda e: p.funcs.get(e[1]) is f) for h in src(p)):
            continue
        g = helped(p, f)
        er = [n for n in g if n.k == "call" and erases(n.ev["e"])]
        deps = er or [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and p.funcs.get(n.ev["e"][1]) is not None and has_call(p.funcs[n.ev["e"][1]], erases)]
        for n in [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("rm_dir", "rm_dir2", "rm_all_files")]:
            lits = {x[1] for o in ends_of(g, args(n)[0]) for x in walk(o) if x[0] == "s"}
            left = any(l.endswith(LEFT) for l in lits)
            purged = bool(deps) or any(x[0] == "v" and x[3] == "p" for o in deep(g, args(n)[0]) for x in walk(o))
            ctx.ob("remove", "%s: %s" % (f.short, ", ".join(sorted(lits)) or "a partition"), left or purged, n.loc, "a directory in use is removed")
        # a directory to be filled anew is empty
        for n in [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "create" and n.ev["e"][1].startswith("Tsdb::") and len(args(n)) > 2]:
            s = [x[1] for x in walk(behind(g, args(n)[2])) if x[0] == "s"]
            if not s:
                continue
            clean = lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) == "rm_dir2" and any(x == ("s", s[0]) for o in ends_of(g, args(q)[0]) for x in walk(o))
            skip = lambda a, l: implies(g, l, lambda e, t: not t and strip_cast(e)[0] == "c" and nm(e) in ("ends_with", "file_exists"))
            r = paths(g).search([g.entry], lambda q: q is n, stop=clean, stop_edge=skip)
            ctx.ob("remove", "%s: %s is emptied" % (f.short, s[0]), r is None, n.loc, "what an earlier try left is taken for part of the new data")


def helped(p, f):
    return Graph(p, f, lambda x, e, d: x.short.startswith("static:") and x.file == f.file, maxdepth=2)


def ends_of(g, e):
    """what a name is made of, with what is added to it in place"""
    out = deep(g, e)
    ids = {x[2] for o in out for x in walk(o) if x[0] == "v" and x[3] != "g"}
    for n in g:
        if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("append", "operator+=", "push_back") and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "v" and strip_cast(n.ev["e"][2])[2] in ids:
            out = out + list(n.ev["e"][3])
    return out


# ---- swaps

def is_ren(n):
    return n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "rename" and len(n.ev["e"][3]) == 2


def var_of(e):
    vs = [x for x in walk(e) if x[0] == "v"]
    return vs[0][2] if vs else None


def swaps(ctx, p):
    for f in src(p):
        if not has_call(f, lambda e: nm(e) == "rename" and len(e[3]) == 2 and not e[1].startswith("Logger")):
            continue
        g = Graph(p, f, lambda x, e, d: x.short.startswith("static:") and x.file == f.file, maxdepth=2)
        rs = [n for n in g if is_ren(n)]
        for a in rs:
            base, aside = var_of(args(a)[0]), var_of(args(a)[1])
            for b in rs:
                if b is a or var_of(args(b)[1]) != base or base is None or var_of(args(b)[0]) == aside:
                    continue
                if paths(g).search(after(g, a), lambda q: q is b) is None:
                    continue
                what = f.short
                cid = whatif.cid_of(b.ev["e"])
                # where it failed, the old is put back
                back = lambda q: is_ren(q) and var_of(args(q)[0]) == aside and var_of(args(q)[1]) == base
                lp = loop_of(g, b)
                last = lambda q: q is g.exit or lp is not None and q.id == lp[0]
                r = whatif.explore(g, after(g, b), {("r", cid): True}, lambda q, env: last(q), stop=back)
                ctx.ob("swap", "%s: put back" % what, r is None, b.loc, "where the new data cannot be put in place, the old is not put back")
                rm = lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) in RM and q.ev["e"][3] and var_of(args(q)[0]) == aside
                r = whatif.explore(g, after(g, b), {("r", cid): True}, lambda q, env: rm(q), stop=lambda q: back(q) or last(q))
                ctx.ob("swap", "%s: old data kept" % what, r is None, b.loc, "the old data is removed although the new is not in its place")
                r = paths(g).search(after(g, a), rm, stop=lambda q: q is b)
                ctx.ob("swap", "%s: not before" % what, r is None, a.loc, "the old data is removed before the new is in its place")
                # the way for the old is clear
        # compacted data gets its name when all of it is there
        for n in rs:
            lits = [[x[1] for o in deep(g, y) for x in walk(o) if x[0] == "s"] for y in args(n)]
            if ".temp" in lits[0] and ".done" in lits[1]:
                un = lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) in ("unload_no_lock", "unload") and any(x[0] == "c" and nm(x) == "create" for o in deep(g, q.ev["e"][2]) for x in walk(o))
                r = paths(g).search([g.entry], lambda q: q is n, stop=un)
                ctx.ob("swap", "%s: complete" % f.short, r is None, n.loc, "data is called complete before it is written")
                put = [q for q in g if q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) == "write_to_compacted"]
                r = paths(g).search(after(g, n), lambda q: q in put)
                ctx.ob("swap", "%s: complete at once" % f.short, r is None, n.loc, "data is called complete before it is written")


# ---- modes

def modes(ctx, p):
    for f in src(p):
        if f.short != "Tsdb::mode_of":
            continue
        g = near(p, f)
        qs = each_path(g, 400)
        if qs is None:
            continue
        seen = set()
        for q in qs:
            if q.end is not g.exit:
                continue
            old = {}
            for c in q.conds:
                if len(c) != 2:
                    continue
                e, t = c
                if e[0] == "c" and nm(e) == "older_than_sec":
                    ks = {x[1] for x in walk(e) if x[0] == "s" and "threshold" in x[1]}
                    if len(ks) == 1:
                        old[next(iter(ks))] = t
            v = const_of(q.ret) if q.ret is not None else None
            if v is None:
                continue
            a, r = old.get("tsdb.archive.threshold"), old.get("tsdb.read_only.threshold")
            if a is None:
                continue
            want = 0 if a else None if r is None else 1 if r else 3
            if want is None or (a, r) in seen and v == want:
                continue
            seen.add((a, r))
            ctx.ob("mode", "%s: %s" % (f.short, "archived" if a else "read only" if r else "written"), v == want, f.loc(), "a partition of this age gets the wrong mode (%s)" % v)
        kinds = {k for k in seen}
        ctx.ob("mode", "%s: by age" % f.short, len(kinds) >= 2, f.loc(), "a partition's mode does not follow from its age")
        for n in [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "older_than_sec"]:
            e = strip_cast(behind(g, args(n)[0]))
            now = lambda x: any(y[0] == "c" and nm(y).startswith("ts_now") for o in deep(g, x) for y in walk(o)) and strip_cast(x)[0] in ("v", "c")
            ok = e[0] == "b" and e[1] == "-" and now(e[2])
            ctx.ob("mode", "%s: before now" % f.short, ok or e[0] != "b", n.loc, "the age is not counted back from now")
    for f in src(p):
        if f.short in ("Tsdb::is_archived", "Tsdb::is_read_only"):
            g = Graph(p, f)
            for n in g:
                if n.k == "ret" and n.ev.get("e") is not None:
                    e = strip_cast(n.ev["e"])
                    if e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) == 0 and strip_cast(e[2])[0] == "b" and strip_cast(e[2])[1] == "&":
                        m = const_of(strip_cast(e[2])[3])
                        want = 3 if f.short.endswith("is_archived") else 2
                        ctx.ob("mode", f.short, e[1] == "==" and m == want, n.loc, "a partition that may be used is taken for one that may not")


# ---- idle files

def slack(e, f, g=None):
    """(strictly) now later than last use plus the time allowed"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return None
    co, depth = {}, [0]

    def add(x, s):
        x = strip_cast(x)
        if x[0] == "b" and x[1] in ("+", "-"):
            add(x[2], s)
            add(x[3], s if x[1] == "+" else -s)
        elif x[0] == "c" and x[2] is not None and nm(x).startswith(("load", "operator ")):
            add(x[2], s)
        elif g is not None and x[0] == "v" and x[3] != "g" and strip_cast(behind(g, x)) != x and depth[0] < 20:
            depth[0] += 1
            add(behind(g, x), s)
        elif x[0] == "v":
            co[x[1]] = co.get(x[1], 0) + s
        elif x[0] == "m":
            co[x[2]] = co.get(x[2], 0) + s
        else:
            co[str(x)] = co.get(str(x), 0) + s
    add(e[2], 1)
    add(e[3], -1)
    thr, now = f.params[0]["n"], f.params[1]["n"]
    flds = [k for k in co if "::m_last" in k]
    if now not in co or thr not in co or len(flds) != 1:
        return None
    sign = 1 if e[1] in (">", ">=") else -1
    ok = co[now] * sign == 1 and co[thr] * sign == -1 and co[flds[0]] * sign == -1
    rev = co[now] * sign == -1 and co[thr] * sign == 1 and co[flds[0]] * sign == 1
    return ("later" if ok else "earlier" if rev else "other", flds[0])


def idle(ctx, p):
    fields = {}
    for f in src(p):
        if f.short.split("::")[-1] != "close_if_idle" or len(f.params) != 2 or f.cls is None:
            continue
        g = Graph(p, f, lambda x, e, d: (x.cls == f.cls or x.short.startswith("static:") and x.file == f.file) and not x.virt and x.short.split("::")[-1] not in ("close", "is_open"), maxdepth=2)
        cl = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "close"]
        late = lambda e, t: (slack(e, f, g) or ("",))[0] == ("later" if t else "earlier")
        soon = lambda e, t: (slack(e, f, g) or ("",))[0] == ("earlier" if t else "later")
        for n in cl:
            # each mapping of a file has a time of its own
            r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, late))
            ctx.ob("idle", "%s: closed" % f.short, r is None, n.loc, "a file is closed although it was used just now")
            k = const_of(args(n)[0]) if args(n) else None
            if k in (1, 2):
                w = "read" if k == 1 else "write"
                own = lambda e, t: late(e, t) and w in slack(e, f, g)[1]
                r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, own))
                ctx.ob("idle", "%s: closed for %s" % (f.short, w), r is None, n.loc, "a file is closed for one use by the time of the other")
        for n in g:
            for s, l in n.succ:
                if l and l[0] == "cond":
                    for e, t in truths(l):
                        k = slack(e, f, g)
                        if k:
                            fields.setdefault(f.cls, set()).add(k[1])
        # what is still open is said to be so
        starts = [(n, s) for n in g for s, l in n.succ if l and l[0] == "cond" and implies(g, l, soon)]
        for n, s in starts:
            st = g.nodes[s] if isinstance(s, int) else s
            r = whatif.explore(g, [st], {}, lambda q, env: q.k == "ret" and q.frame == g.entry.frame and q.ev.get("e") is not None and whatif.truth(q.ev["e"], env) is not False)
            if r is not None and r[0].ev["e"] is not None and strip_cast(r[0].ev["e"])[0] not in ("v", "i"):
                r = None
            ctx.ob("idle", "%s: still open" % f.short, r is None, n.loc, "a file in use is said to be closed")
        ctx.ob("idle", "%s: told" % f.short, bool(cl) and bool(starts), f.loc(), "files are not closed by their last use")
    for cls, fs in sorted(fields.items()):
        for fld in sorted(fs):
            ws = []
            for f in src(p):
                if f.cls == cls and f.kind not in ("ctor",):
                    for ev in f.events():
                        if ev["k"] == "asg" and acc_f(ev["lhs"]) == fld:
                            ws.append((f, ev["rhs"], ev["l"]))
                        elif ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][2] is not None and acc_f(ev["e"][2]) == fld and nm(ev["e"]) in ("operator=", "store") and ev["e"][3]:
                            ws.append((f, ev["e"][3][0], ev["l"]))
            now = [w for w in ws if any(x[0] == "c" and nm(x).startswith("ts_now") for x in walk(w[1])) or strip_cast(w[1])[0] == "v"]
            ctx.ob("idle", "%s: kept" % fld, bool(now), (now or ws or [(None,)])[0][0].loc() if (now or ws) else "src/core/mmap.cpp:1", "the time a file was used is not kept")
    for f in src(p):
        if f.short.split("::")[-1] != "ensure_open" or f.cls not in fields or not f.params:
            continue
        g = Graph(p, f, lambda x, e, d: x.cls == f.cls and not x.virt, maxdepth=2)
        touch = lambda q: q.k == "asg" and acc_f(q.ev["lhs"]) in fields[f.cls] or q.k == "call" and q.ev["e"][0] == "c" and q.ev["e"][2] is not None and acc_f(q.ev["e"][2]) in fields[f.cls] and nm(q.ev["e"]) in ("operator=", "store")
        r = paths(g).search([g.entry], lambda q: q is g.exit, stop=touch)
        ctx.ob("idle", "%s: used now" % f.short, r is None, f.loc(), "a file is opened for use without keeping the time, and may be closed at once")
        which(ctx, f, g, fields[f.cls])
    for f in src(p):
        name = f.short.split("::")[-1]
        if f.cls in ("Metric", "Tsdb") and has_call(f, lambda e: nm(e) == "close_if_idle") and f.ret is not None and f.ret == "bool":
            g = Graph(p, f)
            for n in [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "close_if_idle"]:
                r = whatif.explore(g, after(g, n), {("r", whatif.cid_of(n.ev["e"])): False}, lambda q, env: q.k == "ret" and q.ev.get("e") is not None and whatif.truth(q.ev["e"], env) is not False)
                ctx.ob("idle", "%s: all closed" % f.short, r is None, n.loc, "all files are said to be closed although one is not")
                a = [strip_cast(x) for x in args(n)]
                want = [x["n"] for x in f.params]
                if len(want) == 2 and all(x[0] == "v" and x[1] in want for x in a):
                    ctx.ob("idle", "%s: times in order" % f.short, "thres" in a[0][1] and "now" in a[1][1] or not any("thres" in w for w in want), n.loc, "the present and the time allowed are mixed up")
        if f.cls == "Tsdb" and has_call(f, lambda e: nm(e) == "unload_if_idle"):
            g = Graph(p, f)
            ru = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "rotate" and n.ev["e"][1].startswith("Metric::")]
            for n in ru:
                big = max((b for h, b in loops(g) if n.id in b), key=len, default=set())
                top = {h for h, b in loops(g) if b == big}
                r = whatif.explore(g, after(g, n), {("r", whatif.cid_of(n.ev["e"])): False}, lambda q, env: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) == "unload_if_idle", stop=lambda q: q.id in top)
                ctx.ob("idle", "%s: archived" % f.short, r is None, n.loc, "a partition is archived although some of its files are in use")
        if f.cls == "Tsdb" and name == "unload_if_idle":
            g = Graph(p, f)
            cs = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "close_if_idle"]
            mode = lambda q: q.k == "call" and q.ev["e"][0] == "c" and q.ev["e"][2] is not None and acc_f(q.ev["e"][2]) == "Tsdb::m_mode" and nm(q.ev["e"]) in ("operator=", "store", "operator&=", "fetch_and") or q.k == "asg" and acc_f(q.ev["lhs"]) == "Tsdb::m_mode"
            yes = lambda s, l: implies(g, l, lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "close_if_idle")
            r = paths(g).search([g.entry], mode, stop_edge=yes)
            ctx.ob("idle", "%s: only if closed" % f.short, r is None and bool(cs), f.loc(), "a partition in use is archived")
            mc = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "close" and n.ev["e"][1].startswith("Metric::")]
            none = lambda s, l: implies(g, l, lambda e, t: null_test(e, t) is not None)
            why = each(g, mc, excuse=none) if mc else "none is"
            ctx.ob("idle", "%s: all of it" % f.short, why is None, f.loc(), "not all of an archived partition is closed: %s" % why)


def acc_f(e):
    e = strip_cast(e)
    return e[2] if e[0] == "m" else None


def which(ctx, f, g, flds):
    """for reading the time of reading, for writing that of writing"""
    rd, wr = [x for x in flds if "read" in x], [x for x in flds if "write" in x]
    if not rd or not wr:
        return
    touch = lambda q, fl: q.k == "asg" and acc_f(q.ev["lhs"]) in fl or q.k == "call" and q.ev["e"][0] == "c" and q.ev["e"][2] is not None and acc_f(q.ev["e"][2]) in fl and nm(q.ev["e"]) in ("operator=", "store")
    par = f.params[0]["n"]
    for t, fl in ((True, rd), (False, wr)):
        other = lambda s, l: implies(g, l, lambda e, u: strip_cast(e)[0] == "v" and strip_cast(e)[1] == par and u != t)
        r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: touch(q, fl), stop_edge=other)
        ctx.ob("idle", "%s: %s" % (f.short, "for reading" if t else "for writing"), r is None, f.loc(), "the time a file was used is kept for the other use")


# ---- what a series holds

def series(ctx, p):
    for f in src(p):
        if f.short != "TimeSeries::archive":
            continue
        g = Graph(p, f)
        dl = [n for n in g if n.k == "del" and any(x[0] == "m" and x[2] in ("TimeSeries::m_buff", "TimeSeries::m_ooo_buff") for x in walk(n.ev["e"]))]
        empty = lambda s, l: implies(g, l, lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "is_empty")
        for n in dl:
            r = paths(g).search([g.entry], lambda q: q is n, stop=lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) in ("flush", "flush_no_lock"), stop_edge=empty)
            ctx.ob("series", "%s: empty" % f.short, r is None, n.loc, "points not filed are thrown away")
        fl = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("flush", "flush_no_lock")]
        ctx.ob("series", "%s: filed" % f.short, bool(fl), f.loc(), "points of a series no longer written are never filed")
        now, thr = [x["n"] for x in f.params if "now" in x["n"]], [x["n"] for x in f.params if "thres" in x["n"]]
        for n in g:
            for s, l in n.succ:
                if not (l and l[0] == "cond"):
                    continue
                for e, t in truths(l):
                    e = strip_cast(e)
                    if e[0] == "b" and e[1] in ("<", "<=", ">", ">=") and now and thr and mentions_var(e, now[0]) and mentions_var(e, thr[0]) and t:
                        later = e[1] in (">", ">=")
                        a, b = (e[2], e[3]) if later else (e[3], e[2])
                        ok = plus(a, now[0]) and plus(b, thr[0]) or plus(a, now[0]) and minus(a, thr[0])
                        ctx.ob("series", "%s: after a while" % f.short, ok, n.loc, "a series is filed away by the wrong age")


def plus(e, v, s=1):
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("+", "-"):
        return plus(e[2], v, s) or plus(e[3], v, s if e[1] == "+" else -s)
    return e[0] == "v" and e[1] == v and s == 1


def minus(e, v, s=1):
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("+", "-"):
        return minus(e[2], v, s) or minus(e[3], v, s if e[1] == "+" else -s)
    return e[0] == "v" and e[1] == v and s == -1


# ---- rotated files

def files(ctx, p):
    for f in src(p):
        if f.short != "rotate_files":
            continue
        g = Graph(p, f, lambda x, e, d: x.short.startswith("static:") and x.file == f.file, maxdepth=2)
        rms = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in RM]
        sorts = lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) == "sort"
        par = f.params[1]["n"]
        for n in rms:
            r = paths(g).search([g.entry], lambda q: q is n, stop=sorts)
            ctx.ob("files", "in order", r is None, n.loc, "not the oldest files are removed")
            for q in [q for q in g if sorts(q)]:
                ctx.ob("files", "oldest first", len(args(q)) == 2 and not any(x[0] == "c" and nm(x) in ("rbegin", "rend") for a in args(q) for x in walk(a)), q.loc, "the newest files are removed")
            cnt = lambda x: any(y[0] == "b" and y[1] == "-" and any(z[0] == "c" and nm(z) == "size" for z in walk(y[2])) and any(z[0] == "v" and z[1] == par for z in walk(y[3])) for o in deep(g, x) for y in walk(o))
            guard = lambda e, t: left(e, t, cnt, par)
            r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, guard))
            ctx.ob("files", "number kept", r is None, n.loc, "files that are to be kept are removed")
            # counted down, one at a time
            lp = loop_of(g, n)
            if lp:
                dec = lambda q: q.k == "asg" and (q.ev["op"] in ("--", "-=", "++", "+=") or q.ev["op"] == "=" and strip_cast(q.ev["rhs"])[0] == "b") or q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) in ("erase", "pop_front") or q.k == "asg" and q.ev["op"].startswith("post")
                r = paths(g).search(after(g, n), lambda q: q is n, stop=dec)
                ctx.ob("files", "counted", r is None, n.loc, "all files are removed")
        ctx.ob("files", "removed", bool(rms), f.loc(), "old files are never removed")
    for f in src(p):
        if f.short == "Logger::rotate":
            g = Graph(p, f)
            ren = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "rename"]
            cl = lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) == "close"
            op = lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]).startswith("reopen")
            for n in ren:
                ctx.ob("files", "log closed", paths(g).search([g.entry], lambda q: q is n, stop=cl) is None, n.loc, "the log is moved while open")
                ctx.ob("files", "log opened again", paths(g).search(after(g, n), lambda q: q is g.exit, stop=op) is None, n.loc, "no log is written any more")


def left(e, t, cnt, par):
    """some too many are left"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">=", "==", "!="):
        return False
    a, b, op = e[2], e[3], e[1]
    flip_ = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
    if const_of(a) is not None:
        a, b, op = b, a, flip_.get(op, op)
    if const_of(b) == 0 and cnt(a):
        return op == ">" and t or op == "<=" and not t
    if const_of(b) == 1 and cnt(a):
        return op == ">=" and t or op == "<" and not t
    if cnt(b):
        return op == "<" and t or op == ">=" and not t
    if cnt(a):
        return op == ">" and t or op == "<=" and not t
    size = lambda x: any(z[0] == "c" and nm(z) == "size" for z in walk(x))
    p_ = lambda x: any(z[0] == "v" and z[1] == par for z in walk(x))
    if size(a) and p_(b):
        return op == ">" and t or op == "<=" and not t
    if size(b) and p_(a):
        return op == "<" and t or op == ">=" and not t
    return False


# ---- at the start

def restore(ctx, p):
    for f in src(p):
        if f.short != "Tsdb::restore_tsdb":
            continue
        g = Graph(p, f, lambda x, e, d: x.short.startswith("static:") and x.file == f.file, maxdepth=2)
        cr = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "create"]
        ctx.ob("restore", "partitions", bool(cr), f.loc(), "partitions are not found again")
        for n in cr:
            two = lambda e, t: strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("==", "!=") and any(const_of(x) == 2 for x in strip_cast(e)[2:4]) and any(x[0] == "c" and nm(x) == "size" for o in deep(g, e) for x in walk(o)) and (strip_cast(e)[1] == "==") == t
            r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, two))
            ctx.ob("restore", "no leftovers", r is None, n.loc, "what a compaction left is taken for a partition")
            nums = {0, 1}
            for i in nums:
                isnum = lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "is_timestamp" and idx(e) == i
                if any(idx(x) is None for m in g if m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) == "is_timestamp" for x in [m.ev["e"]]):
                    continue
                r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, isnum))
                ctx.ob("restore", "named by its times (%d)" % i, r is None, n.loc, "a directory of another kind is taken for a partition")


def idx(e):
    for x in walk(e):
        if x[0] == "c" and nm(x) in ("operator[]", "at") and x[3]:
            return const_of(x[3][0])
    return None


# ---- full disk

def disk(ctx, p):
    for f in src(p):
        if f.short != "Admin::shutdown_if_disk_full":
            continue
        g = Graph(p, f)
        sh = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "shutdown"]
        av = lambda x: any(y[0] == "c" and nm(y) == "get_disk_avail" for o in deep(g, x) for y in walk(o))
        low = lambda e, t: strip_cast(e)[0] == "b" and (strip_cast(e)[1] in ("<", "<=") and (av(strip_cast(e)[2]) and t or av(strip_cast(e)[3]) and not t) or strip_cast(e)[1] in (">", ">=") and (av(strip_cast(e)[3]) and t or av(strip_cast(e)[2]) and not t))
        ctx.ob("disk", "stops", bool(sh), f.loc(), "a full disk does not stop the server")
        for n in sh:
            r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, low))
            ctx.ob("disk", "only then", r is None, n.loc, "the server is stopped although there is space")
        hi = lambda s, l: implies(g, l, lambda e, t: low(e, not t))
        r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in sh, stop_edge=hi)
        ctx.ob("disk", "always then", r is None, f.loc(), "a full disk does not stop the server")
    jobs = any(ev["k"] in ("asg", "call", "decl") and any(x[0] == "fn" and "shutdown_if_disk_full" in x[1] for y in ev.values() if isinstance(y, tuple) for x in walk(y)) for f in src(p) for ev in f.events())
    ctx.ob("disk", "looked at", jobs, "src/admin.cpp:1", "the space left is never looked at")


# ---- what is compacted

def choice(ctx, p):
    for f in src(p):
        if f.short != "Tsdb::compact":
            continue
        g = Graph(p, f, lambda x, e, d: (x.cls == "Tsdb" or x.short.startswith("static:")) and x.file == f.file and not loose(x.short, ("compact2", "write_to_compacted", "create", "unload_no_lock", "get_all_mappings", "get_tsdb_dir_name", "reload_header_data_files")), maxdepth=2)
        work = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "create"]
        incs = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "inc_ref_count"]
        ctx.ob("compact", "kept", bool(work) and all(paths(g).search([g.entry], lambda q: q is w, stop=lambda q: q in incs) is None for w in work), f.loc(), "a partition may be purged while it is compacted")
        bit = lambda m, want: lambda e, t: masked(g, e, t, m, want)
        for n in incs:
            for w, test, msg in (
                    ("old", lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "older_than_sec", "a partition still written to is compacted"),
                    ("not compacted", bit(4, False), "a partition is compacted again"),
                    ("not used", lambda e, t: unused(g, e, t), "a partition in use is compacted")):
                r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, test))
                ctx.ob("compact", w, r is None, n.loc, msg)
        for n in [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "older_than_sec"]:
            vs = args(n)[0]
            subs = [x for o in deep(g, vs) for x in walk(o) if x[0] == "b" and x[1] in ("-", "+")]
            now = lambda x: any(y[0] == "c" and nm(y).startswith("ts_now") for o in deep(g, x) for y in walk(o))
            ctx.ob("compact", "before now", any(x[1] == "-" and now(x[2]) for x in subs), n.loc, "the age is not counted back from now")
        # nobody else while it is done
        for w in work:
            alone = lambda e, t: only_us(e, t)
            r = paths(g).search([g.entry], lambda q: q is w, stop_edge=lambda s, l: implies(g, l, alone))
            ctx.ob("compact", "alone", r is None, w.loc, "a partition in use is compacted")
    for f in src(p):
        if f.short == "TimeRange::older_than_sec":
            g = Graph(p, f, lambda x, e, d: x.short.endswith("to_sec"), maxdepth=1)
            for n in g:
                if n.k == "ret" and n.ev.get("e") is not None and n.frame == g.entry.frame:
                    e = strip_cast(n.ev["e"])
                    if e[0] == "b" and e[1] in ("<", "<=", ">", ">="):
                        a, b = (e[2], e[3]) if e[1] in ("<", "<=") else (e[3], e[2])
                        end = lambda x: any(y[0] == "m" and y[2] == "TimeRange::m_to" for o in deep(g, x) for y in walk(o))
                        ctx.ob("mode", f.short, end(a) and not end(b), n.loc, "a partition not yet over is taken for an old one")


def masked(g, e, t, m, want):
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) == 0:
        return masked(g, e[2], t == (e[1] == "!="), m, want)
    return e[0] == "b" and e[1] == "&" and any(const_of(x) == m for x in e[2:4]) and t == want


def only_us(e, t):
    e = strip_cast(e)
    if e[0] != "b" or not mentions_field(e, "Tsdb::m_ref_count"):
        return False
    op, c = e[1], const_of(e[3])
    if c is None:
        op, c = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), const_of(e[2])
    return (op, c, t) in {("<=", 1, True), ("<", 2, True), ("==", 1, True), (">", 1, False), (">=", 2, False), ("!=", 1, False)}


# ---- the present, and the time allowed

def roles(ctx, p):
    role = {}
    for f in src(p):
        if f.short.split("::")[-1] == "close_if_idle" and len(f.params) == 2:
            role[f.id] = {0: "allowed", 1: "now"}
    for _ in range(3):
        for f in src(p):
            for ev in f.events():
                if ev["k"] != "call" or ev["e"][0] != "c" or ev["e"][1] not in role:
                    continue
                for i, r in role[ev["e"][1]].items():
                    if i < len(ev["e"][3]):
                        a = strip_cast(ev["e"][3][i])
                        for j, x in enumerate(f.params):
                            if a[0] == "v" and a[3] == "p" and a[1] == x["n"] and f.short.split("::")[-1] != "close_if_idle":
                                role.setdefault(f.id, {}).setdefault(j, r)
    for f in src(p):
        g = None
        for ev in f.events():
            if ev["k"] != "call" or ev["e"][0] != "c" or ev["e"][1] not in role:
                continue
            g = g or Graph(p, f)
            for i, r in sorted(role[ev["e"][1]].items()):
                if i >= len(ev["e"][3]):
                    continue
                for n in g:
                    if n.k != "call" or n.line != ev["l"] or n.ev["e"][0] != "c" or n.ev["e"][1] != ev["e"][1]:
                        continue
                    os_ = deep(g, args(n)[i])
                    if any(x[0] == "v" and x[3] == "p" for o in os_ for x in walk(o)):
                        continue
                    now = any(x[0] == "c" and nm(x).startswith("ts_now") for o in os_ for x in walk(o))
                    ctx.ob("idle", "%s: %s given to %s" % (f.short, "the present" if r == "now" else "the time allowed", nm(n.ev["e"])), now == (r == "now"), n.loc, "the present and the time allowed are mixed up")


def dropped(ctx, p):
    """a file is forgotten only once it is closed"""
    for f in src(p):
        if f.cls != "RollupManager" or not has_call(f, lambda e: nm(e) == "close_if_idle"):
            continue
        g = Graph(p, f)
        cs = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "close_if_idle"]
        for n in cs:
            drop = lambda q, env: q.k == "del" or q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) == "erase"
            r = whatif.explore(g, after(g, n), {("r", whatif.cid_of(n.ev["e"])): False}, drop, stop=lambda q: q in cs)
            ctx.ob("idle", "%s: forgotten" % f.short, r is None, n.loc, "a file in use is forgotten")
