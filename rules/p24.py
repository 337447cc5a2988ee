"""Rolled up data: each point counted once in its hour, hours told by their
place, days made of hours, nothing mixed up, used only when it holds."""
from common import *
import common
import whatif
from along import *
from p18 import after, implies
from p22 import local, nm, V, behind, each, null_of

ASSUMPTIONS = [
    "how an entry is encoded is judged by the properties on encodings",
    "a series that was marked is asked for raw data; how the raw data takes the place of the rolled up is the business of the query property",
]

THIS = ("t",)
Q = ("cnt", "min", "max", "sum")
N = Q + ("tstamp", "tid")
RECORDS = ("rollup_entry", "rollup_entry_ext", "rollup_append_entry", "RollupManager")
HOUR, DAY = "g_rollup_interval_1h", "g_rollup_interval_1d"


def check(ctx):
    p = ctx.prog
    ctx.rule("count", "each point is counted in its hour, or its series is marked", 8)
    ctx.rule("hours", "an entry is kept for every hour, in turn", 4)
    ctx.rule("fields", "count, minimum, maximum and sum are not mixed up, and go together", 20)
    ctx.rule("value", "the value asked for is the one taken from an entry", 8)
    ctx.rule("place", "an entry read is taken for the hour of its place", 6)
    ctx.rule("days", "days are made of all their hours", 6)
    ctx.rule("files", "every file of the range or month is looked at", 5)
    ctx.rule("use", "rolled up data is used only where it holds", 8)
    count(ctx, p)
    handed(ctx, p)
    fields(ctx, p)
    cleared(ctx, p)
    value(ctx, p)
    place_(ctx, p)
    days(ctx, p)
    files(ctx, p)
    use(ctx, p)
    month(ctx, p)
    saved(ctx, p)


def fld(name, base=THIS):
    return ("m", base, name)


def quantity(name):
    n = name.split("::")[-1]
    n = n[2:] if n.startswith("m_") else n
    return n if n in N else None


# ---- counting

def hour_of(t):
    """tstamp - tstamp % hour, or its helper"""
    if t[0] == "b" and t[1] == "-" and t[3][0] == "b" and t[3][1] == "%" and t[3][2] == t[2]:
        return mentions(t[3][3], lambda x: x[0] == "v" and x[1] == HOUR or x == ("i", 3600)) and stamped(t[2])
    if t[0] == "b" and t[1] == "*" and any(a[0] == "b" and a[1] == "/" and stamped(a[2]) and is_hour(a[3]) and is_hour(b) for a, b in ((t[2], t[3]), (t[3], t[2]))):
        return True
    return t[0] == "c" and "step_down" in t[1] and any(mentions(a, stamped) for a in t[3])


def is_hour(t):
    return t[0] == "v" and t[1] == HOUR or t == ("i", 3600)


def stamped(t):
    return mentions(t, lambda x: x[0] == "c" and x[1].endswith("DataPoint::get_timestamp") or x[0] == "m" and x[2] == "m_timestamp")


def is_value(t):
    return t[0] == "c" and t[1].endswith("DataPoint::get_value") or t[0] == "m" and t[2] == "m_value"


def count(ctx, p):
    f = p.get("RollupManager::add_data_point")
    g = local(p, f, keep=("RollupManager::flush",))
    ps = walk(g)
    ctx.ob("count", "%s can be followed" % f.short, ps is not None and bool(ps), f.loc(), "the ways a point is counted cannot be followed")
    if not ps:
        return
    bad, badh = {}, {}
    counted = 0
    for q in ps:
        if q.end is not g.exit:
            continue
        marks = [a for a in calls(q, "set_out_of_order2") if len(a[3]) > 1 and a[3][1] == ("i", 1)]
        marked = any(a[3][0] == ("v", f.params[2]["n"], f.params[2]["id"]) or a[3][0][:2] == ("v", f.params[2]["n"]) for a in marks)
        S = {k: q.mem.get(fld("m_" + k)) for k in Q}
        if marked:
            continue
        # the hour of the point against the current one
        hs = [x for c in q.conds if len(c) == 2 and c[0][0] == "b" for x in c[0][2:4] if hour_of(x)]
        at = f.loc()
        if not all(S.values()) and not (S["cnt"] and S["sum"]):
            bad.setdefault("a point is neither counted nor its series marked", at)
            continue
        counted += 1
        why = summed(q, S)
        if why:
            bad.setdefault(why, at)
        if not hs:
            badh.setdefault("a point is counted without looking at its hour", at)
            continue
        why = in_hour(q, hs[0])
        if why:
            badh.setdefault(why, at)
    ctx.ob("count", "points that are counted", counted > 0, f.loc(), "no point is ever counted")
    ctx.ob("count", "counted or marked in %s" % f.short, not bad, f.loc(), "; ".join(sorted(bad)))
    ctx.ob("hours", "hours kept in %s" % f.short, not badh, f.loc(), "; ".join(sorted(badh)))
    # the mark is for the partition of the point
    for n in V(g, "set_out_of_order2"):
        b = n.ev["e"][2]
        ctx.ob("count", "marked in the partition of the point", b is not None and any(o[0] == "v" and o[1] == f.params[0]["n"] for o in origins(g, b)), n.loc, "the series is marked in another partition than the one of the point")


def walk(g):
    """paths with the current hour noted at each flush"""
    out = each_path(g, limit=20000, times=2)
    return None if out is None else [q for q in out if feasible(q)]


def feasible(q):
    """no comparison on the path contradicts another"""
    for c in q.conds:
        if len(c) == 2 and c[0][0] == "b" and c[0][1] in ("<", "<=", ">", ">=", "==", "!=") and not relation(q, c[0][2], c[0][3]):
            return False
    return True


def summed(q, S):
    old = lambda k: fld("m_" + k)
    c, s, lo, hi = S["cnt"], S["sum"], S["min"], S["max"]
    if not (c[0] == "b" and c[1] == "+" and old("cnt") in c[2:4] and ("i", 1) in c[2:4]):
        return "a point does not add one to the count"
    if not (s[0] == "b" and s[1] == "+" and any(a == old("sum") and is_value(b) for a, b in ((s[2], s[3]), (s[3], s[2])))):
        return "a point's value is not added to the sum"
    for k, t, op in (("min", lo, "<"), ("max", hi, ">")):
        if not extreme_ok(q, old("m" + k[1:]), t, k, op):
            return "the %s is not the %s of what was there and the value" % ({"min": "minimum", "max": "maximum"}[k], {"min": "smaller", "max": "larger"}[k])
    return None


def extreme_ok(q, o, t, k, op):
    if t is not None and t[0] == "c" and t[1].split("::")[-1] in ("min", "max", "fmin", "fmax"):
        return k in t[1].split("::")[-1] and len(t[3]) == 2 and any(a == o and is_value(b) for a, b in (t[3], t[3][::-1]))
    if t is not None and t[0] == "?":
        c = t[1]
        if c[0] != "b" or c[1] not in ("<", "<=", ">", ">="):
            return False
        for a, b, o2 in ((c[2], c[3], c[1]), (c[3], c[2], flip(c[1]))):
            if is_value(a) and b == o:
                less = o2 in ("<", "<=")
                return (is_value(t[2]) and t[3] == o) == (less == (k == "min")) and (is_value(t[2]) and t[3] == o or is_value(t[3]) and t[2] == o)
        return False
    v = [x for c in q.conds if len(c) == 2 and c[0][0] == "b" for x in c[0][2:4] if is_value(x)]
    if not v:
        return False
    r = relation(q, v[0], o)
    if t is None:
        return r <= ({"=", ">"} if k == "min" else {"=", "<"})
    return is_value(t) and r <= ({"<", "="} if k == "min" else {">", "="})


def in_hour(q, H):
    """the hours written between the current one and the one of the point"""
    T = None
    for a in q.acts:
        if a[0] == "set" and a[1] == fld("m_tstamp"):
            if mentions(a[2], lambda x: x[0] == "c" and "begin_month" in x[1]) and not any(b[0] == "call" and b[1].endswith("::flush") for b in q.acts[:q.acts.index(a)]):
                T = a[2]
            break
    T0 = T or fld("m_tstamp")
    r = relation(q, H, T0)
    if "<" in r:
        return "a point of an earlier hour is counted in the current one"
    fl, cur, last = [], T0, None
    for a in q.acts:
        if a[0] == "set" and a[1] == fld("m_tstamp"):
            if a[2] != T:
                last = a[2]
            cur = a[2]
        elif a[0] == "call" and a[1].endswith("RollupManager::flush"):
            fl.append(cur)
    if "=" in r and r != {">"} and ">" not in r:
        if fl:
            return "an hour is written out before it is over"
        return None
    if r == {"<", "=", ">"} or "=" in r:
        # not told apart: writing out must then not depend on it
        if not fl and ">" in r:
            return "a point of a later hour is counted in the current one"
    if not fl:
        return "a point of a later hour is counted in the current one"
    if fl[0] != T0:
        return "the current hour is not written out first"
    step1 = lambda x: ("b", "+", x, None)
    for a, b in zip(fl, fl[1:]):
        if is_next(b, a):
            if not month_start(first_of(b)) and not any(len(c) == 2 and within(c, b) for c in q.conds):
                return "hours of the next month are written out before the month is over"
            continue
        if month_start(b):
            # the month was over
            nx = [c for c in q.conds if len(c) == 2 and ended(c, a)]
            if nx:
                continue
        return "an hour between two points is left out or written twice"
    # what the current hour is now
    prev = fl[-1]
    if cur is None or not (is_next(cur, prev) or month_start(cur)):
        return "the hour after the one written out is not taken up"
    if relation(q, cur, H) - {"=", ">"} or not stops(q, cur, H):
        return "hours are not written out up to the hour of the point"
    if month_start(cur) and not any(len(c) == 2 and ended(c, prev) for c in q.conds):
        return "hours up to the end of the month are left out"
    return None


def first_of(t):
    while t[0] == "b" and t[1] == "+":
        t = t[2] if is_hour(t[3]) else t[3]
    return t


def within(c, b):
    e, t = c
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return False
    for x, y, op in ((e[2], e[3], e[1]), (e[3], e[2], flip(e[1]))):
        if x == b and y[0] == "c" and "end_month" in y[1]:
            return op == "<" and t or op == ">=" and not t
    return False


def stops(q, cur, H):
    """left because cur < H is false, not because cur <= H is"""
    return "=" in relation(q, cur, H)


def is_next(b, a):
    return b[0] == "b" and b[1] == "+" and any(x == a and is_hour(y) for x, y in ((b[2], b[3]), (b[3], b[2])))


def month_start(t):
    return t[0] == "c" and "begin_month" in t[1] and any(stamped(a) for a in t[3])


def ended(c, a):
    """the month of the hour a was over at the hour after it"""
    e, t = c
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">=", "==", "!="):
        return False
    for x, y, op in ((e[2], e[3], e[1]), (e[3], e[2], flip(e[1]))):
        if is_next(x, a) and y[0] == "c" and "end_month" in y[1]:
            T = {"<": {"<"}, "<=": {"<", "="}, ">": {">"}, ">=": {">", "="}, "==": {"="}, "!=": {"<", ">"}}
            can = T[op] if t else {"<", "=", ">"} - T[op]
            if can <= {"=", ">"} and "=" in can:
                return True
    return False


def handed(ctx, p):
    """every point stored is handed to the rollup, with the partition it was stored in"""
    for name, buf in (("TimeSeries::add_data_point", "m_buff"), ("TimeSeries::add_ooo_data_point", "m_ooo_buff")):
        f = p.get(name)
        g = local(p, f, keep=("TimeSeries::add_ooo_data_point", "TimeSeries::add_data_point"))
        adds = [n for n in V(g, "add_data_point") if short(n.ev["e"][1]) == "RollupManager::add_data_point"]
        stored = [n for n in V(g, "add_data_point") if short(n.ev["e"][1]) == "PageInMemory::add_data_point"]
        if not stored:
            continue
        off = lambda s, l: implies(g, l, lambda e, t: not t and strip_cast(e)[0] == "v" and strip_cast(e)[1] == "g_rollup_enabled") if l and l[0] == "cond" else False
        r = paths(g).search(after(g, stored[0]), lambda m: m is g.exit, stop=lambda m: m in adds, stop_edge=lambda s, l: off(s, l)) if adds else True
        ctx.ob("count", "points stored by %s rolled up" % f.short, bool(adds) and r is None, stored[0].loc, "a point that is stored is not rolled up%s" % (via(r) if r not in (None, True) else ""))
        for n in adds:
            a = args(n)[0]
            o = [x for x in origins(g, a)]
            ok = any(mentions_field(x, "TimeSeries::" + buf) for x in o + [a])
            ctx.ob("count", "partition of points stored by %s" % f.short, ok, n.loc, "a point is rolled up for another partition than the one it is stored in")
            r = paths(g).search(after(g, n), lambda m: m in adds)
            ctx.ob("count", "rolled up once by %s" % f.short, r is None, n.loc, "a point is rolled up twice")


def via(r):
    return ""


# ---- fields

def q_of(g, e):
    """the quantity an expression stands for, with what it belongs to"""
    e = strip_cast(e)
    if e[0] == "m" and e[2].rsplit("::", 1)[0].split("::")[-1] in RECORDS:
        return quantity(e[2])
    if e[0] == "v" and e[3] in ("l", "p"):
        return quantity(e[1])
    return None


def fields(ctx, p):
    for f in sorted(p.funcs.values(), key=lambda x: x.id):
        if not f.file.startswith(("src/", "include/")) or "test" in f.file:
            continue
        copies = {}
        for ev in f.events():
            pairs = []
            if ev["k"] == "asg" and ev["op"] == "=" and ev.get("rhs") is not None:
                pairs.append((ev["lhs"], ev["rhs"]))
            elif ev["k"] == "init" and ev.get("f") and ev.get("e") is not None:
                pairs.append((("m", THIS, ev["f"], ""), ev["e"]))
            for l, r in pairs:
                l, r = strip_cast(l), strip_cast(r)
                if l[0] != "m" or l[2].rsplit("::", 1)[0].split("::")[-1] not in RECORDS:
                    continue
                a = quantity(l[2])
                x = r
                while x[0] in ("c", "k") and len(x[3]) == 1 and (x[0] == "k" or nm(x) in ("to_sec", "validate_resolution", "move")):
                    x = strip_cast(x[3][0])
                b = q_of(None, x)
                if a in N and b in N:
                    ctx.ob("fields", "%s taken in %s" % (a, f.short), a == b, f.loc(ev["l"]), "the %s is taken from the %s" % (a, b))
                    if x[0] == "m" and a in Q:
                        copies.setdefault((repr(strip_id(l[1])), l[2].rsplit("::", 1)[0]), {})[a] = ev
            if ev["k"] == "call" and ev["e"][0] == "c":
                e = ev["e"]
                callee = p.funcs.get(e[1])
                if callee is None:
                    continue
                qs = [quantity(x["n"]) for x in callee.params]
                if sum(1 for x in qs if x in Q) < 3:
                    continue
                for prm, want, a in zip(callee.params, qs, e[3]):
                    have = q_of(None, a)
                    if want in N and have in N:
                        ctx.ob("fields", "%s given to %s in %s" % (want, callee.short, f.short), want == have, f.loc(ev["l"]), "the %s is given as the %s" % (have, want))
        for (b, c), got in copies.items():
            if len(got) >= 2:
                miss = [k for k in Q if k not in got]
                ctx.ob("fields", "all of an entry taken in %s" % f.short, not miss, f.loc(list(got.values())[0]["l"]), "an entry is taken over without its %s" % ", ".join(miss))
        merges(ctx, p, f)


def strip_id(e):
    return e[:2] if e[0] == "v" else e


def merges(ctx, p, f):
    """one entry added to another"""
    if not any(ev["k"] == "asg" and is_merge(ev) for ev in f.events()):
        return
    if f.short == "RollupManager::add_data_point":
        return
    g = Graph(p, f)
    sites = [n for n in g if n.k == "asg" and is_merge(n.ev)]
    cn = [n for n in sites if is_merge(n.ev)[0] == "cnt"]
    for n in sites:
        k, ok = is_merge(n.ev)
        ctx.ob("fields", "%s added in %s" % (k, f.short), ok, n.loc, "the %s of two entries is not put together from their %s" % (k, k))
    for k in Q:
        have = [n for n in sites if is_merge(n.ev)[0] == k]
        ctx.ob("fields", "%s put together in %s" % (k, f.short), bool(have), f.loc(), "entries are put together without their %s" % k)
        for o in Q:
            if k == o or not have:
                continue
            oth = [n for n in sites if is_merge(n.ev)[0] == o]
            for n in have:
                # the other is done just before or after, whenever this one is
                a = escapes(g, n, lambda m: m in oth) is None if oth else False
                b = preceded(g, n, lambda m: m in oth) if oth else False
                loop = loop_of(g, n)
                if not a and loop and oth:
                    r = paths(g).search(after(g, n), lambda m: m.id == loop[0] or m.id not in loop[1], stop=lambda m: m in oth)
                    a = r is None
                ctx.ob("fields", "%s with %s in %s" % (o, k, f.short), a or b, n.loc, "entries are put together without their %s" % o)


def preceded(g, n, pred):
    loop = loop_of(g, n)
    starts = [g.entry] if not loop else [g.nodes[loop[0]]]
    return paths(g).search(starts, lambda m: m is n, stop=pred) is None


def is_merge(ev):
    """(quantity, ok) when an entry's quantity is put together with another's"""
    l = norm(ev["lhs"])
    if l[0] != "m" or l[2].rsplit("::", 1)[0].split("::")[-1] not in RECORDS:
        return None
    a = quantity(l[2])
    if a not in Q:
        return None
    r = ev.get("rhs")
    if r is None:
        return None
    r = norm(r)
    if ev["op"] in ("+=", "-=", "*="):
        b = q_of(None, r)
        return (a, b == a and a in ("cnt", "sum") and ev["op"] == "+=") if b in N else None
    if ev["op"] != "=":
        return None
    if r[0] == "b" and r[1] == "+" and any(strip_cast(x) == l for x in r[2:4]):
        o = [x for x in r[2:4] if strip_cast(x) != l]
        return (a, a in ("cnt", "sum") and len(o) == 1 and q_of(None, o[0]) == a) if o and q_of(None, o[0]) in N else None
    if r[0] == "c" and nm(r) in ("min", "max", "fmin", "fmax") and len(r[3]) == 2:
        x, y = (strip_cast(z) for z in r[3])
        qs = (q_of(None, x), q_of(None, y))
        if None in qs:
            return None
        return a, nm(r)[-3:] == a and qs == (a, a) and x != y and l in (x, y)
    if r[0] == "?" and strip_cast(r[1])[0] == "b":
        x, y = strip_cast(r[2]), strip_cast(r[3])
        if q_of(None, x) in N and q_of(None, y) in N and l in (x, y):
            c = strip_cast(r[1])
            ca, cb = strip_cast(c[2]), strip_cast(c[3])
            less = c[1] in ("<", "<=") if (ca, cb) == (x, y) else c[1] in (">", ">=") if (ca, cb) == (y, x) else None
            return a, q_of(None, x) == q_of(None, y) == a and less is not None and less == (a == "min")
    return None


def norm(e):
    """an expression without the numbers of its calls"""
    e = strip_cast(e)
    if e[0] == "c":
        return e[:2] + (norm(e[2]) if e[2] is not None else None, tuple(norm(a) for a in e[3]), 0, 0)
    return tuple(norm(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e)


NEUTRAL = {"m_cnt": lambda t: t == ("i", 0), "m_sum": lambda t: t == ("i", 0),
           "m_min": lambda t: t[0] == "c" and "numeric_limits" in t[1] and t[1].endswith("::max") or t[0] == "c" and t[1].endswith("::infinity"),
           "m_max": lambda t: t[0] == "c" and "numeric_limits" in t[1] and t[1].endswith("::lowest") or t[0] == "u" and t[1] == "-" and t[2][0] == "c" and (t[2][1].endswith("::max") or t[2][1].endswith("::infinity"))}


def cleared(ctx, p):
    """the quantities of the current hour are started anew together, and only once written out"""
    f = p.get("RollupManager::flush")
    g = local(p, f)
    ps = each_path(g) or []
    bad = set()
    done = 0
    for q in ps:
        if q.end is not g.exit:
            continue
        ws = [a for a in q.acts if a[0] == "call" and a[1].endswith("RollupDataFile::add_data_point")]
        if not ws:
            inv = any(len(c) == 2 and c[0][0] == "b" and fld("m_tstamp") in c[0][2:4] for c in q.conds)
            if not inv:
                bad.add("an hour is not written out")
            continue
        done += 1
        if len(ws) > 1:
            bad.add("an hour is written out twice")
        for k, ok in NEUTRAL.items():
            t = q.mem.get(fld(k))
            if t is None or not ok(t):
                bad.add("%s is not started anew" % k[2:])
        a = ws[0][3]
        if not all(fld("m_" + k) in a for k in Q):
            bad.add("an hour is written out with values already started anew, or without some of them")
    ctx.ob("hours", "the hour written out in %s" % f.short, done > 0 and not bad, f.loc(), "; ".join(sorted(bad)) or "an hour is never written out")
    # the month's file the hour belongs to
    for n in V(g, "get_or_create_data_file"):
        a = args(n)
        ok = any(mentions_field(x, "RollupManager::m_tstamp") for y in a for x in [y] + list(origins(g, y)))
        ctx.ob("hours", "file of the hour in %s" % f.short, ok, n.loc, "an hour is written to the file of another month")
    w = V(g, "add_data_point")
    for n in w:
        def right(s, l):
            return l is not None and l[0] == "cond" and implies(g, l, lambda e, t: same_month(g, e, t))
        r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m in V(g, "get_or_create_data_file"), stop_edge=right)
        ctx.ob("hours", "file of the month in %s" % f.short, r is None, n.loc, "an hour is written without making sure that the file is the one of its month")
    for c in sorted(x.id for x in p.funcs.values() if x.cls == "RollupManager" and x.kind != "ctor"):
        f = p.funcs[c]
        if f.short.endswith(("<ctor>", "copy_from", "restore")):
            continue
        zs = [ev for ev in f.events() if ev["k"] == "asg" and ev["op"] == "=" and strip_cast(ev["lhs"])[0] == "m" and strip_cast(ev["lhs"])[2] == "RollupManager::m_cnt" and const_of(ev["rhs"]) == 0]
        cr = {p.funcs[x].short for x in p.callgraph()[1].get(f.id, ()) if x in p.funcs}
        if zs and f.short != "RollupManager::flush" and not (cr and all(x in ("RollupManager::flush", "RollupManager::<ctor>") for x in cr)):
            ctx.ob("count", "what was counted kept by %s" % f.short, False, f.loc(zs[0]["l"]), "points already counted are dropped from the current hour without being written out, and their partition is not marked")
    # started with nothing
    for f in p.all("RollupManager::<ctor>"):
        if f.params:
            continue
        got = {}
        for ev in f.events():
            if ev["k"] == "init" and ev.get("f") and ev.get("e") is not None:
                got[ev["f"].split("::")[-1]] = term(ev["e"], Path())
            if ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m":
                got[strip_cast(ev["lhs"])[2].split("::")[-1]] = term(ev["rhs"], Path())
        miss = [k for k, ok in NEUTRAL.items() if k not in got or not ok(got[k])]
        ctx.ob("fields", "a series starts with nothing counted", not miss, f.loc(), "a series starts with something in its %s" % ", ".join(k[2:] for k in miss))


def same_month(g, e, t):
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("==", "!="):
        return t == (e[1] == "==") and any(mentions_call(x, "RollupDataFile::get_begin_timestamp") or mentions_field(x, "RollupDataFile::m_begin") for x in e[2:4])
    return False


# ---- values

def evaluate(t, env):
    """a term's value, None if not known"""
    if t[0] == "i":
        return t[1]
    if t in env:
        return env[t]
    if t[0] == "c" and t[1].split("::")[-1] in ("load", "operator uint32_t", "operator unsigned int") and t[2] is not None:
        return evaluate(t[2], env)
    if t[0] == "u" and t[1] == "!":
        v = evaluate(t[2], env)
        return None if v is None else int(not v)
    if t[0] == "u" and t[1] == "~":
        v = evaluate(t[2], env)
        return None if v is None else ~v
    if t[0] == "?":
        c = evaluate(t[1], env)
        return None if c is None else evaluate(t[2] if c else t[3], env)
    if t[0] == "b":
        a = evaluate(t[2], env)
        if t[1] == "&&" and a is not None and not a:
            return 0
        if t[1] == "||" and a:
            return 1
        b = evaluate(t[3], env)
        if t[1] == "&&" and b is not None and not b:
            return 0
        if t[1] == "||" and b:
            return 1
        if a is None or b is None:
            return None
        return {"&": lambda: a & b, "|": lambda: a | b, "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "&&": lambda: int(bool(a and b)), "||": lambda: int(bool(a or b)), "+": lambda: a + b, "-": lambda: a - b}.get(t[1], lambda: None)()
    return None


def taken(ps, env):
    """the paths that can be taken with the values given"""
    out = []
    for q in ps:
        ok = True
        named = set()
        for c in q.conds:
            if len(c) == 2:
                v = evaluate(c[0], env)
                if v is not None and bool(v) != c[1]:
                    ok = False
            elif c[0] == "case":
                v = evaluate(c[1], env)
                if v is not None and v not in c[2]:
                    ok = False
            elif c[0] == "default":
                v = evaluate(c[1], env)
                if v is not None and v in c[2]:
                    ok = False
        if ok:
            out.append(q)
    return out


def value(ctx, p):
    E = {c["n"]: c["v"] for c in p.enums["RollupType"]["consts"]} if isinstance(p.enums["RollupType"]["consts"], list) and isinstance(p.enums["RollupType"]["consts"][0], dict) else dict(p.enums["RollupType"]["consts"])
    E = {k.split("::")[-1]: v for k, v in E.items()}
    for f in p.all("RollupManager::query"):
        t = [x for x in f.params if x["t"] == "RollupType" or x["t"].endswith("RollupType")]
        own = any("DataPointPair" in x["t"] or "pair<" in x["t"] for x in f.params)
        ent = any("rollup_entry" in x["t"] for x in f.params)
        if not t or not (own or ent):
            continue
        g = local(p, f)
        ps = [q for q in each_path(g) or [] if q.end is g.exit]
        tv = ("v", t[0]["n"], t[0]["id"])
        key = [x for q in ps for c in q.conds for x in subterms(c[0] if len(c) == 2 else c[1]) if x[0] == "v" and x[1] == t[0]["n"]]
        tv = key[0] if key else tv
        for name, want in (("RU_AVG", None), ("RU_CNT", "cnt"), ("RU_MAX", "max"), ("RU_MIN", "min"), ("RU_SUM", "sum")):
            got = set()
            for q in taken(ps, {tv: E[name]}):
                if own:
                    if q.ret == ("i", 0):
                        if not any(len(c) == 2 and mentions(c[0], lambda x: x == fld("m_cnt")) for c in q.conds):
                            got.add(None)
                        continue
                    v = [val for k, val in q.mem.items() if k[0] == "m" and k[2] == "second"]
                    got.add(v[0] if len(v) == 1 else None)
                    w = [val for k, val in q.mem.items() if k[0] == "m" and k[2] == "first"]
                    ctx.ob("value", "hour of %s in %s" % (name, f.short), bool(w) and w[0] == fld("m_tstamp"), f.loc(), "the value of the current hour is given for another time")
                else:
                    got.add(q.ret)
            ok = bool(got) and all(x is not None and is_quantity(x, want) for x in got)
            ctx.ob("value", "%s of %s" % (name, "the current hour" if own else "an entry"), ok, f.loc(), "%s is not answered with %s" % (name, "the sum over the count" if want is None else "the " + want))


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from subterms(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y:
                    yield from subterms(y)


def is_quantity(t, want):
    if want is None:
        return t[0] == "b" and t[1] == "/" and is_quantity(t[2], "sum") and is_quantity(t[3], "cnt")
    return t[0] == "m" and quantity(t[2]) == want


# ---- places

def place_(ctx, p):
    f = p.get("RollupDataFile::query_entry")
    g = local(p, f)
    ps = [q for q in each_path(g) or [] if q.end is g.exit]
    bad = set()
    n_ok = n_first = n_next = 0
    for q in ps:
        sets = calls(q, "set_last_tstamp")
        adds = calls(q, "add_data_point")
        if not sets:
            if adds:
                bad.add("an entry is used without noting its hour")
            else:
                # series not asked for
                if not any(len(c) == 2 and not_found(*c) for c in q.conds):
                    bad.add("an entry is passed over without noting its hour")
            continue
        t = sets[-1][3][0]
        last = lambda x: x[0] == "c" and x[1].endswith("get_last_tstamp")
        inv = [c for c in q.conds if len(c) == 2 and c[0][0] == "b" and any(last(x) for x in c[0][2:4])]
        first = t == fld("m_begin")
        nxt = t[0] == "b" and t[1] == "+" and any(last(x) and is_hour(y) for x, y in ((t[2], t[3]), (t[3], t[2])))
        n_first += first
        n_next += nxt
        if not (first or nxt):
            bad.add("an entry is taken for another hour than the one of its place")
        if len(sets) > 1 and sets[0][3][0] != t:
            bad.add("an entry is taken for two hours")
        if first and not any(is_none(c, last) or before(c, last) for c in inv):
            bad.add("an entry that is not the first is taken for the first hour")
        if nxt and not any(has_some(c, last) for c in inv):
            bad.add("the first entry is not taken for the first hour")
        if nxt and not any(since(c, last) for c in inv):
            bad.add("the first entry of a later file is taken for the hour after the last one of an earlier file, months without data are skipped")
        zero = [c for c in q.conds if len(c) == 2 and mentions(c[0], lambda x: x[0] == "m" and x[2] == "cnt")]
        inr = [c for c in q.conds if len(c) == 2 and mentions(c[0], lambda x: x[0] == "c" and x[1].endswith("in_range"))]
        if adds:
            if not any(nonzero(c) for c in zero):
                bad.add("an hour without points is used as if it had some")
            if not any(c[0][0] == "b" and (c[0][1] == "==") == c[1] and ("i", 0) in c[0][2:4] for c in inr):
                bad.add("an entry outside of the range is used")
            a = [x for x in q.acts if x[0] == "set" and x[1][0] == "m" and x[1][2] == "tstamp"]
            if not a or not mentions(a[-1][2], lambda x: x == t):
                bad.add("an entry is used with another time than the one of its place")
            n_ok += 1
        else:
            if not (any(not nonzero(c) for c in zero) or any(c[0][0] == "b" and (c[0][1] == "==") != c[1] for c in inr)):
                bad.add("an entry of the range is passed over")
        for c in inr:
            if not mentions(c[0], lambda x: x[0] == "c" and x[1].endswith("in_range") and any(mentions(y, lambda z: z == t) for y in x[3])):
                bad.add("another time than the one of the entry's place is looked for in the range")
    ctx.ob("place", "hour of an entry in %s" % f.short, n_ok > 0 and n_first > 0 and n_next > 0 and not bad, f.loc(), "; ".join(sorted(bad)) or "entries are not placed")
    # every entry read is looked at
    for name in ("RollupDataFile::query_level1_compressor_v1_v2", "RollupDataFile::query_level1_compressor_v3"):
        f = p.get(name)
        g = Graph(p, f)
        ns = V(g, "query_entry")
        ctx.ob("place", "entries looked at in %s" % f.short, bool(ns), f.loc(), "entries are not looked at")
        for n in ns:
            lp = loop_of(g, n)
            ctx.ob("place", "entries looked at one by one in %s" % f.short, lp is not None, n.loc, "only one entry is looked at")
            if lp is None:
                continue
            h, body = lp
            dec = [m for m in g if m.id in body and m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("uncompress", "uncompress2", "next_entry", "uncompress_i4")]
            for m in dec:
                if nm(m.ev["e"]) == "next_entry":
                    continue
                r = paths(g).search(after(g, m), lambda x: x.id == h or x is m, stop=lambda x: x in ns or x.id not in body)
                ctx.ob("place", "each entry read is looked at in %s" % f.short, r is None, m.loc, "an entry is read and passed over, so that those after it are taken for the wrong hour")
            # left early only when nothing more can come for any series
            for x in body:
                for s, l in g.nodes[x].succ:
                    if s in body or not l or l[0] != "cond":
                        continue
                    if any(mentions_call(e, "RollupDataFile::query_entry") for e, t in truths(l)):
                        inner = any(mentions_call(ev_e, "Compressor::uncompress_i4") for m in g if m.id in body and m.k == "call" for ev_e in [m.ev["e"]])
                        ctx.ob("place", "left for all series in %s" % f.short, inner, g.nodes[x].loc, "once one series is past the range the entries of the others are not looked at any more")
    # what days are made of
    f = p.get("RollupDataFile::query_for_level2_rollup")
    g = Graph(p, f)
    puts = V(g, "emplace_back", "push_back")
    puts = [n for n in puts if "rollup_entry_ext" in n.ev["e"][1]]
    why = each(g, puts, leave=lambda s, l: False) if puts else "entries are not taken"
    lp = loop_of(g, puts[0]) if puts else None
    ctx.ob("place", "each entry taken in %s" % f.short, bool(puts) and lp is not None and every_round(g, puts, lp), f.loc(), "an entry is passed over, so that those after it are taken for the wrong hour")
    ts = [n for n in g if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["lhs"])[2].endswith("rollup_entry_ext::tstamp")]
    kinds = set()
    for n in ts:
        t = term(n.ev["rhs"], Path())
        o = [term(x, Path()) for x in origins(g, n.ev["rhs"])] + [t]
        first = t == fld("m_begin")
        nxt = t[0] == "b" and t[1] == "+" and any(mentions(x, lambda z: z[0] == "m" and z[2] == "tstamp") and mentions(x, lambda z: z[0] == "c" and z[1].endswith(("::back", "::rbegin", "::end"))) and is_hour(y) for x, y in ((t[2], t[3]), (t[3], t[2])))
        if t[0] == "?":
            first = nxt = True
        kinds |= {k for k, b in (("first", first), ("next", nxt)) if b}
        ctx.ob("place", "hour of an entry in %s" % f.short, first or nxt, n.loc, "an entry is taken for another hour than the one of its place")
        if lp is not None:
            r = None
    ctx.ob("place", "first and later hours in %s" % f.short, kinds == {"first", "next"}, f.loc(), "entries are not placed one hour after the other from the start of the month")
    if puts and ts:
        r = paths(g).search([g.nodes[s] for s, l in g.nodes[lp[0]].succ if s in lp[1]] if lp else [g.entry], lambda m: m in puts, stop=lambda m: m in ts)
        ctx.ob("place", "each entry placed in %s" % f.short, r is None, puts[0].loc, "an entry is taken with the hour of another")


def every_round(g, acts, lp):
    h, body = lp
    starts = [g.nodes[s] for s, l in g.nodes[h].succ if s in body]
    ids = {a.id for a in acts}
    return paths(g).search(starts, lambda m: m.id == h, stop=lambda m: m.id in ids or m.id not in body) is None


def not_found(e, t):
    if e[0] == "b" and e[1] in ("==", "!="):
        return (e[1] == "==") == t and mentions(e, lambda x: x[0] == "c" and x[1].endswith("::end"))
    return e[0] == "c" and e[1].split("::")[-1] in ("operator==", "operator!=") and (e[1].split("::")[-1] == "operator==") == t and mentions(e, lambda x: x[0] == "c" and x[1].endswith("::end"))


def is_none(c, last):
    return c[0][1] in ("==", "!=") and (c[0][1] == "==") == c[1] and not any(mentions(x, lambda z: z == fld("m_begin")) for x in c[0][2:4])


def has_some(c, last):
    return c[0][1] in ("==", "!=") and (c[0][1] == "!=") == c[1] and not any(mentions(x, lambda z: z == fld("m_begin")) for x in c[0][2:4])


def cmp_begin(c, last):
    e, t = c
    for x, y, op in ((e[2], e[3], e[1]), (e[3], e[2], flip(e[1]))):
        if last(x) and y == fld("m_begin") and op in ("<", "<=", ">", ">="):
            T = {"<": {"<"}, "<=": {"<", "="}, ">": {">"}, ">=": {">", "="}}
            return T[op] if t else {"<", "=", ">"} - T[op]
    return None


def before(c, last):
    r = cmp_begin(c, last)
    return r is not None and r <= {"<"}


def since(c, last):
    r = cmp_begin(c, last)
    return r is not None and r == {"=", ">"}


def nonzero(c):
    e, t = c
    if e[0] == "m":
        return t
    if e[0] == "b":
        zero = ("i", 0) in e[2:4]
        if e[1] in ("==", "!="):
            return zero and (e[1] == "!=") == t
        if zero and e[1] in (">", "<"):
            return t
        if zero and e[1] in ("<=", ">="):
            return not t
    return False


# ---- days

def days(ctx, p):
    f = p.get("RollupDataFile::add_data_points")
    g = Graph(p, f, lambda x, e, d: x.cls == "RollupDataFile" and x.short.split("::")[-1] not in ("write_no_lock", "write", "ensure_open", "close", "flush", "open") and not x.virt, maxdepth=2)
    writes = V(g, "write_no_lock", "write")
    enc = V(g, "compress3")
    mg = [n for n in g if n.k == "asg" and is_merge(n.ev)]
    keep = [n for n in g if n.k == "asg" and n.ev["op"] == "=" and "rollup_entry_ext" in str(strip_cast(n.ev["lhs"])[-1]) and strip_cast(n.ev["lhs"])[0] == "v" or
            n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "operator=" and "rollup_entry_ext" in n.ev["e"][1]]
    ctx.ob("days", "days put together in %s" % f.short, bool(mg), f.loc(), "the hours of a day are not put together")
    ctx.ob("days", "days written in %s" % f.short, bool(writes) and bool(enc), f.loc(), "days are not written")
    ctx.ob("days", "a new day taken up in %s" % f.short, bool(keep), f.loc(), "a new day is not taken up")
    if not (mg and keep and writes and enc):
        return
    lp = loop_of(g, keep[0])
    if lp is None:
        return
    h, body = lp
    starts = [g.nodes[s] for s, l in g.nodes[h].succ if s in body]
    empty = lambda s, l: l is not None and l[0] == "cond" and implies(g, l, lambda e, t: cnt_zero(e, t))
    r = paths(g).search(starts, lambda m: m.id == h, stop=lambda m: m in keep or m in mg or m.id not in body, stop_edge=empty)
    ctx.ob("days", "every hour with points in %s" % f.short, r is None, g.nodes[h].loc, "an hour is left out of its day")
    # a day is written before the next one is taken up, unless it is the first
    for n in keep:
        r = paths(g).search(starts, lambda m: m is n, stop=lambda m: m in writes or m.id not in body, stop_edge=empty)
        ctx.ob("days", "day written before the next in %s" % f.short, r is None, n.loc, "a day is given up before it is written")
        r = paths(g).search(starts, lambda m: m is n, stop=lambda m: m in mg or m.id not in body)
        ctx.ob("days", "a day started with its own hour in %s" % f.short, r is not None, n.loc, "an hour is counted in two days")
    # merged only into the same day
    for n in mg:
        same = lambda s, l: l is not None and l[0] == "cond" and implies(g, l, lambda e, t: strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("==", "!=") and t == (strip_cast(e)[1] == "==") and
                                                                       all(mentions_field(x, "rollup_entry_ext::tstamp") for y in strip_cast(e)[2:4] for x in [behind(g, y)]))
        r = paths(g).search(starts, lambda m: m is n, stop=lambda m: m.id not in body, stop_edge=same)
        ctx.ob("days", "only hours of a day in %s" % f.short, r is None, n.loc, "hours of different days are put together")
    # the last day too
    ex = [g.nodes[s] for x in body for s, l in g.nodes[x].succ if s not in body and not (l and l[0] in ("eh", "throw"))]
    out = loop_of(g, g.nodes[h], has=None)
    goal = lambda m: m is g.exit or outer(g, h, body, m)
    r = paths(g).search(ex, goal, stop=lambda m: m in writes, stop_edge=empty)
    ctx.ob("days", "the last day in %s" % f.short, r is None, g.nodes[h].loc, "the last day of a series is not written")
    # the day of an hour
    sd = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "step_down"]
    for n in sd:
        ok = any(strip_cast(a)[0] == "v" and strip_cast(a)[1] == DAY or const_of(a) == 86400 for a in args(n))
        ctx.ob("days", "start of the day in %s" % f.short, ok, n.loc, "hours are not put together by day")
    # written as the number of the day in the year
    for n in enc:
        prior = [m for m in g if m.k == "asg" and m.ev["op"] == "=" and strip_cast(m.ev["lhs"])[0] == "m" and strip_cast(m.ev["lhs"])[2].endswith("rollup_entry_ext::tstamp") and is_day(term(m.ev["rhs"], Path()))]
        r = paths(g).search([g.nodes[h]], lambda m: m is n, stop=lambda m: m in prior) if prior else True
        ctx.ob("days", "number of the day in %s" % f.short, r is None, n.loc, "a day is written with another number than its own")
        same = args(n)[3] if len(args(n)) > 3 else None
        if same is not None:
            b = behind(g, same)
            ok = b[0] == "b" and b[1] == "==" and any(mentions_field(x, "rollup_entry_ext::tid") for x in b[2:4]) or const_of(same) == 0
            ctx.ob("days", "series told in %s" % f.short, ok, n.loc, "a day is written as if it were of the series before without comparing them")
        w = paths(g).search(after(g, n), lambda m: m.id == h or m is g.exit or m in enc, stop=lambda m: m in writes)
        ctx.ob("days", "what is encoded is written in %s" % f.short, w is None, n.loc, "a day is encoded and not written")
    # encoded, then written
    f = [x for x in p.all("RollupDataFile::add_data_point") if not any(q["n"] == "tstamp" for q in x.params)]
    for x in f:
        gg = Graph(p, x)
        ws = V(gg, "write", "write_no_lock")
        en = V(gg, "compress", "compress2")
        for n in ws:
            r = paths(gg).search([gg.entry], lambda m: m is n, stop=lambda m: m in en)
            ctx.ob("hours", "an hour is encoded before it is written", r is None, n.loc, "an hour is written to a file whose format takes no more entries, with a size never set")
        ctx.ob("hours", "an hour is written to its file", bool(ws) and bool(en), x.loc(), "an hour is not written")


def outer(g, h, body, m):
    """the head of a loop around"""
    return any(m.id == hh and h in bb and hh != h for hh, bb in loops(g))


def cnt_zero(e, t):
    e = strip_cast(e)
    isc = lambda x: strip_cast(x)[0] == "m" and strip_cast(x)[2].endswith("::cnt")
    if isc(e):
        return not t
    if e[0] != "b":
        return False
    for a, b, op in ((e[2], e[3], e[1]), (e[3], e[2], flip(e[1]))):
        if isc(a) and const_of(b) == 0 and op:
            return op == "==" and t or op == "!=" and not t or op == ">" and not t or op == "<=" and t
        if isc(a) and const_of(b) == 1 and op:
            return op == "<" and t or op == ">=" and not t
    return False


def is_day(t):
    isday = lambda y: y[0] == "v" and y[1] == DAY or y == ("i", 86400)
    return t[0] == "b" and t[1] == "/" and isday(t[3]) and t[2][0] == "b" and t[2][1] == "-" and t[2][2][0] == "m" and t[2][2][2] == "tstamp" and t[2][3] == fld("m_begin")


# ---- files

def files(ctx, p):
    for name in ("RollupManager::get_level1_data_files", "RollupManager::get_level2_data_files"):
        f = p.get(name)
        g = local(p, f, keep=("RollupManager::get_data_file",))
        puts = [n for n in V(g, "push_back", "emplace_back") if "RollupDataFile" in n.ev["e"][1]]
        gets = V(g, "get_data_file")
        ctx.ob("files", "files put in by %s" % f.short, bool(puts) and bool(gets), f.loc(), "files are not looked up")
        if not puts or not gets:
            continue
        lp = loop_of(g, gets[0])
        ctx.ob("files", "more than one file in %s" % f.short, lp is not None, gets[0].loc, "only one file is looked up")
        if lp is None:
            continue
        h, body = lp
        none = lambda s, l: l is not None and l[0] == "cond" and implies(g, l, lambda e, t: null_of(e, t, lambda x: any(mentions_call(o, "RollupManager::get_data_file") for o in origins(g, x)) or "RollupDataFile" in str(x[-1])) or
                                                                       t and mentions_call(e, "RollupDataFile::empty") and strip_cast(e)[0] == "c")
        for n in gets:
            r = paths(g).search(after(g, n), lambda m: m.id == h or m in gets, stop=lambda m: m in puts or m.id not in body, stop_edge=none)
            ctx.ob("files", "file with data taken by %s" % f.short, r is None, n.loc, "a file with data is left out")
        # from the start of the range to its end
        starts = V(g, "get_year_month")
        ok = any(mentions_call(x, "TimeRange::get_from_sec", "TimeRange::get_from") or mentions_field(x, "TimeRange::m_from") for n in starts for a in args(n)[:1] for x in [a] + list(origins(g, a)))
        ctx.ob("files", "from the start of the range in %s" % f.short, ok, f.loc(), "files are not looked up from the start of the range")
        # one step each time
        unit = "month" if "level1" in name else "year"
        steps = [m for m in g if m.k == "asg" and m.id in body and strip_cast(m.ev["lhs"])[0] == "v" and m.ev["op"] in ("++", "--", "+=", "-=", "=")]
        inc = [m for m in steps if strip_cast(m.ev["lhs"])[1] == unit or (unit == "month" and False)]
        by1 = [m for m in steps if m.ev["op"] == "++" or m.ev["op"] == "+=" and const_of(m.ev["rhs"]) == 1 or m.ev["op"] == "=" and strip_cast(m.ev["rhs"])[0] == "b"]
        for n in gets:
            r = paths(g).search(after(g, n), lambda m: m in gets, stop=lambda m: m in by1 or m.id not in body)
            ctx.ob("files", "next file in %s" % f.short, bool(by1) and r is None, n.loc, "the same file is looked up again and again")
            for m in by1:
                odd = [x for x in by1 if strip_cast(x.ev["lhs"])[1] == strip_cast(m.ev["lhs"])[1] and x is not m]
                r = paths(g).search(after(g, m), lambda x: x in odd or x is m, stop=lambda x: x in gets)
                ctx.ob("files", "one step at a time in %s" % f.short, r is None, m.loc, "a file is skipped")
        # stopped only past the end
        for x in body:
            for s, l in g.nodes[x].succ:
                if s in body or not l or l[0] != "cond":
                    continue
                def past(e, t):
                    e = strip_cast(e)
                    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
                        return False
                    for a, b, op in ((e[2], e[3], e[1]), (e[3], e[2], flip(e[1]))):
                        to = lambda y: any(mentions_call(z, "TimeRange::get_to_sec", "TimeRange::get_to") for z in [y] + list(origins(g, y)))
                        bm = lambda y: behind(g, y)[0] == "c" and nm(behind(g, y)) in ("begin_month", "begin_year", "begin_month_of")
                        if to(a) and bm(b):
                            return op in ("<", "<=") if t else op in (">", ">=")
                        if const_of(b) is not None and const_of(b) >= 300:
                            return op in (">", ">=") if t else op in ("<", "<=")
                    return False
                ctx.ob("files", "looked up to the end in %s" % f.short, implies(g, l, past), g.nodes[x].loc, "files before the end of the range are left out")
    # each one is asked
    for f in p.all("RollupManager::query"):
        if not any("TimeRange" in x["t"] for x in f.params):
            continue
        g = Graph(p, f)
        asks = V(g, "query_level1", "query_level2")
        ctx.ob("files", "each file is asked", bool(asks), f.loc(), "rollup files are not asked")
        if not asks:
            continue
        lp = loop_of(g, asks[0])
        ctx.ob("files", "each file is asked in turn", lp is not None and every_round(g, asks, lp), asks[0].loc, "a rollup file of the range is not asked")
        for n in asks:
            lv2 = nm(n.ev["e"]) == "query_level2"
            def kind(s, l, want):
                return l is not None and l[0] == "cond" and implies(g, l, lambda e, t: strip_cast(behind(g, e))[0] == "c" and nm(behind(g, e)) == "is_rollup_level2" and t == want)
            r = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: kind(s, l, lv2))
            ctx.ob("files", "daily or hourly data by what is asked (%s)" % nm(n.ev["e"]), r is None, n.loc, "daily data is read as hourly, or the other way round")
        for n in V(g, "get_level1_data_files", "get_level2_data_files"):
            lv2 = nm(n.ev["e"]) == "get_level2_data_files"
            r = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: kind(s, l, lv2))
            ctx.ob("files", "daily or hourly files by what is asked (%s)" % nm(n.ev["e"]), r is None, n.loc, "daily files are looked up for hourly data, or the other way round")


# ---- use

def use(ctx, p):
    for f in p.all("Tsdb::can_use_rollup"):
        g = Graph(p, f, lambda x, e, d: x.cls == "Tsdb" and not x.virt, maxdepth=2)
        ps = [q for q in each_path(g) or [] if q.end is g.exit]
        bits = flags(p)
        ctx.ob("use", "modes of a partition are known", all(bits.values()), f.loc(), "the modes of a partition cannot be told")
        lv = [x for x in f.params if x["t"] == "bool"]
        mode = fld("m_mode")
        if lv:
            key = [x for q in ps for c in list(q.conds) + [(q.ret,)] for y in c if isinstance(y, tuple) for x in subterms(y) if x[0] == "v" and x[1] == lv[0]["n"]]
            tv = key[0] if key else None
            for rolled in (0, 1):
                for ooo in (0, 1):
                    for crashed in (0, 1):
                        for level2 in (0, 1):
                            m = rolled * (bits["R"] or 0) | ooo * (bits["O"] or 0) | crashed * (bits["C"] or 0)
                            env = {mode: m}
                            if tv:
                                env[tv] = level2
                            rs = {evaluate(q.ret, env) if q.ret is not None else None for q in taken(ps, env)}
                            want = not ooo and not crashed and (rolled or not level2)
                            ctx.ob("use", "%s data, partition %s%s%s" % ("daily" if level2 else "hourly", "rolled up" if rolled else "not rolled up", ", marked" if ooo else "", ", crashed" if crashed else ""),
                                   all(r is not None and (not r or want) for r in rs) and bool(rs) and (not want or any(rs)), f.loc(),
                                   "rolled up data is used for a partition where it does not hold" if not want else "rolled up data that holds is not used")
        else:
            for crashed in (0, 1):
                for marked in (0, 1):
                    env = {mode: crashed * (bits["C"] or 0)}
                    for q in ps:
                        for c in list(q.conds) + [(q.ret,)]:
                            for y in c:
                                if isinstance(y, tuple):
                                    for x in subterms(y):
                                        if x[0] == "c" and x[1].endswith("get_out_of_order2"):
                                            env[x] = marked
                                        if x[0] == "c" and x[1].endswith("is_crashed"):
                                            env[x] = crashed
                    rs = {evaluate(q.ret, env) if q.ret is not None else None for q in taken(ps, env)}
                    want = not crashed and not marked
                    ctx.ob("use", "series%s%s" % (", marked" if marked else "", ", partition crashed" if crashed else ""), bool(rs) and all(r is not None and (not r or want) for r in rs) and (not want or any(rs)), f.loc(),
                           "rolled up data is used for a series for which it does not hold" if not want else "rolled up data that holds is not used")
    # marking
    f = p.get("Tsdb::set_out_of_order2")
    g = local(p, f)
    ps = [q for q in each_path(g) or [] if q.end is g.exit]
    bits = flags(p)
    pv = f.params[1]
    bad = set()
    seen = 0
    for q in ps:
        key = [x for c in q.conds for y in c if isinstance(y, tuple) for x in subterms(y) if x[0] == "v" and x[1] == pv["n"]]
        if any(len(c) == 2 and c[0] in key and not c[1] for c in q.conds):
            continue
        seen += 1
        if not any(a[3][:1] and a[3][0][:2] == ("v", f.params[0]["n"]) for a in calls(q, "set_out_of_order2")):
            bad.add("the series is not marked in the index")
        vals = [a for a in q.acts if a[0] == "set" and a[1] == fld("m_mode")] + [a for a in q.acts if a[0] == "call" and a[2] == fld("m_mode") and a[1].split("::")[-1] in ("operator=", "store", "fetch_or", "operator|=")]
        if not any(mentions(a, lambda x: x == ("i", bits["O"])) for a in vals):
            bad.add("the partition is not marked, so the series' mark is never looked at")
    ctx.ob("use", "a mark is kept", seen > 0 and not bad, f.loc(), "; ".join(sorted(bad)))
    # who is asked
    f = [x for x in p.all("QuerySuperTask::query_rollup_hourly") if any("vector<QueryTask" in y["t"] for y in x.params)]
    for x in f:
        asked(ctx, p, x, False)
    for x in p.all("QuerySuperTask::query_rollup_daily"):
        asked(ctx, p, x, True)


def asked(ctx, p, f, daily):
    g = Graph(p, f)
    def gate(n):
        return n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) == "Tsdb::can_use_rollup"
    whole = [n for n in g if gate(n) and "bool" in n.ev["e"][1]]
    single = [n for n in g if gate(n) and "bool" not in n.ev["e"][1]]
    ctx.ob("use", "partitions looked at by %s" % f.short, bool(whole) or bool(single), f.loc(), "rolled up data is used without asking whether it holds")
    ctx.ob("use", "series looked at by %s" % f.short, bool(single), f.loc(), "rolled up data is used without asking whether it holds for the series")
    for n in whole:
        a = args(n)
        ctx.ob("use", "level asked for by %s" % f.short, const_of(a[0]) is None or bool(const_of(a[0])) == daily, n.loc, "it is asked whether %s data holds where %s data is used" % (("hourly", "daily") if daily else ("daily", "hourly")))
    takes = V(g, "insert") if daily else V(g, "create_task")
    for n in single:
        lp = loop_of(g, n)
        if lp is None:
            ctx.ob("use", "each series looked at by %s" % f.short, False, n.loc, "only one series is looked at")
            continue
        h, body = lp
        ok = lambda s, l: l is not None and l[0] == "cond" and implies(g, l, lambda e, t: t and mentions_call(e, "Tsdb::can_use_rollup") and strip_cast(e)[0] == "c" or have_already(g, e, t))
        r = paths(g).search(after(g, n), lambda m: m.id == h, stop=lambda m: m in takes or m.id not in body, stop_edge=ok)
        ctx.ob("use", "series without valid data in %s" % f.short, bool(takes) and r is None, n.loc, "rolled up data that does not hold for a series is used all the same")
        starts = [g.nodes[s] for s, l in g.nodes[h].succ if s in body]
        r = paths(g).search(starts, lambda m: m.id == h, stop=lambda m: m is n or m in takes or m.id not in body)
        ctx.ob("use", "each series looked at in %s" % f.short, r is None, n.loc, "a series is not looked at")
    # the partition is passed over only when its data holds
    lw = [lp for n in whole + single for lp in [loop_of(g, n)] if lp]
    if lw:
        h, body = max(lw, key=lambda x: len(x[1]))
        for hh, bb in loops(g):
            if any(n.id in bb for n in whole + single) and len(bb) > len(body):
                h, body = hh, bb
        starts = [g.nodes[s] for s, l in g.nodes[h].succ if s in body]
        ok = lambda s, l: l is not None and l[0] == "cond" and implies(g, l, lambda e, t: t and strip_cast(e)[0] == "c" and short(strip_cast(e)[1]) == "Tsdb::can_use_rollup" and "bool" in strip_cast(e)[1])
        heads = {loop_of(g, n)[0] for n in single if loop_of(g, n)}
        r = paths(g).search(starts, lambda m: m.id == h, stop=lambda m: m.id in heads and m.id != h or m.id not in body, stop_edge=ok)
        ctx.ob("use", "each partition looked at in %s" % f.short, r is None, g.nodes[h].loc, "a partition is passed over although its rolled up data may not hold")
    if daily:
        has = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) == "Tsdb::has_daily_rollup"]
        ctx.ob("use", "partitions not rolled up yet in %s" % f.short, bool(has), f.loc(), "partitions that are not rolled up yet are left out of the answer")
        for n in has:
            put = [m for m in V(g, "push_back") if "Tsdb" in m.ev["e"][1]]
            near = {loop_of(g, m)[0] for m in takes if loop_of(g, m) and not any(x.id in loop_of(g, m)[1] for x in single + has)}
            lp = loop_of(g, n)
            yes = lambda s, l: l is not None and l[0] == "cond" and implies(g, l, lambda e, t: t and strip_cast(e)[0] == "c" and short(strip_cast(e)[1]) == "Tsdb::has_daily_rollup")
            r = paths(g).search(after(g, n), lambda m: lp and m.id == lp[0], stop=lambda m: m in put, stop_edge=yes)
            ctx.ob("use", "partition not rolled up is read by the hour in %s" % f.short, bool(put) and r is None, n.loc, "a partition that is not rolled up yet is left out of the answer")
            r = paths(g).search(after(g, n), lambda m: lp and m.id == lp[0], stop=lambda m: m in takes or m.id in near, stop_edge=yes)
            ctx.ob("use", "series of a partition not rolled up in %s" % f.short, bool(takes) and r is None, n.loc, "series of a partition that is not rolled up yet are left out of the answer")


def have_already(g, e, t):
    e = strip_cast(e)
    if e[0] == "m" and e[2].endswith("::second") and strip_cast(e[1])[0] == "c" and nm(e[1]) in ("insert", "emplace"):
        return not t
    return e[0] == "c" and nm(e) in ("operator==", "operator!=") and any(mentions_call(x, "find") or "find" in str(x) for x in (e[2] or ("n",),) + tuple(e[3])) and (nm(e) == "operator!=") == t


def flags(p):
    """the bits of a partition's mode: rolled up, crashed, and those that else forbid the use of rolled up data"""
    def masks(*fs):
        out = 0
        for f in fs:
            g = Graph(p, f)
            es = [e for n in g if n.ev for e in subexprs_of(n.ev)] + [x for n in g for s, l in n.succ if l and l[0] == "cond" for e, t in truths(l) for x in subexprs(e)]
            for e in es:
                    if e[0] == "b" and e[1] == "&":
                        for x in e[2:4]:
                            out |= const_of(x) or 0
        return out
    R = masks(*p.all("Tsdb::is_rolled_up"))
    C = masks(*p.all("Tsdb::is_crashed"))
    O = masks(*[f for f in p.all("Tsdb::can_use_rollup") if any(x["t"] == "bool" for x in f.params)]) & ~R & ~C
    return {"R": R, "O": O, "C": C}


def subexprs_of(ev):
    for k in ("e", "init", "lhs", "rhs"):
        if isinstance(ev.get(k), tuple) and ev[k]:
            yield from subexprs(ev[k])


# ---- a month is rolled up

def month(ctx, p):
    f = p.get("Tsdb::rollup")
    g = local(p, f, keep=("RollupManager::swap_recompressed_files",))
    bits = flags(p)
    sets = [n for n in g if n.k in ("asg", "call") and mode_set(n, bits["R"])]
    ctx.ob("use", "partitions marked as rolled up", bool(sets), f.loc(), "partitions are never marked as rolled up, so they are rolled up again and again")
    swap = V(g, "swap_recompressed_files")
    for n in sets:
        r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m in swap)
        ctx.ob("use", "rolled up before it is marked", bool(swap) and r is None, n.loc, "a partition is marked as rolled up without having been")
        went = lambda s, l: l is not None and l[0] == "cond" and implies(g, l, lambda e, t: t and (mentions_call(e, "RollupManager::swap_recompressed_files") or strip_cast(e)[0] == "v" and any(mentions_call(o, "RollupManager::swap_recompressed_files") for o in origins(g, e))))
        for s in swap:
            r = paths(g).search(after(g, s), lambda m: m is n, stop_edge=went)
            ctx.ob("use", "rolled up with success before it is marked", r is None, n.loc, "a partition is marked as rolled up although it failed")
        cfg = V(g, "write_config")
        r = paths(g).search(after(g, n), lambda m: m is g.exit or m in sets, stop=lambda m: m in cfg)
        ctx.ob("use", "marked on file as rolled up", bool(cfg) and r is None, n.loc, "after a restart the month is rolled up again, each day twice")
        lp = loop_of(g, n)
        ctx.ob("use", "every partition of the month is marked", lp is not None and every_round(g, sets, lp), n.loc, "a partition of the month is not marked as rolled up")
    # all buckets
    g2 = V(g, "get_level1_data_file_by_bucket")
    adds = V(g, "add_data_points")
    qs = V(g, "query_for_level2_rollup")
    rc = V(g, "recompress")
    ctx.ob("days", "a month's hours read", bool(g2) and bool(qs), f.loc(), "the hours of a month are not read")
    ctx.ob("days", "a month's days written", bool(adds), f.loc(), "the days of a month are not written")
    ctx.ob("days", "a month's hours kept", bool(rc), f.loc(), "the hours of a month are lost when it is rolled up")
    for n in g2:
        lp = loop_of(g, n)
        ctx.ob("days", "all files of a month", lp is not None, n.loc, "only one file of the month is rolled up")
        if lp is None:
            continue
        h, body = lp
        none = lambda s, l: l is not None and l[0] == "cond" and implies(g, l, lambda e, t: null_of(e, t, lambda x: any(mentions_call(o, "RollupManager::get_level1_data_file_by_bucket") for o in origins(g, x))))
        for what, ns in (("days written", adds), ("hours read", qs), ("hours kept", rc)):
            if not ns:
                continue
            skip = (lambda s, l: none(s, l) or what == "hours kept" and l is not None and l[0] == "cond" and implies(g, l, lambda e, t: not t and strip_cast(e)[0] == "v" and any(mentions_call(o, "RollupDataFile::recompress") for o in origins(g, e))))
            r = paths(g).search(after(g, n), lambda m: m.id == h, stop=lambda m: m in ns or m.id not in body, stop_edge=skip)
            ctx.ob("days", "%s for each file" % what, r is None, n.loc, "a file of the month is left out when it is rolled up")
        # the same bucket
        bs = {repr(strip_id(behind(g, args(m)[0]))) for m in g2 + V(g, "get_or_create_level2_data_file_by_bucket")}
        ctx.ob("days", "hours and days of the same series", len(bs) == 1, n.loc, "the days of some series are written to the file of others")
        mn = {repr(strip_id(args(m)[1])) for m in g2 + V(g, "get_or_create_level2_data_file_by_bucket")}
        iv = behind(g, args(n)[0])
        bnds = [e for x in body for s, l in g.nodes[x].succ if s not in body and l and l[0] == "cond" for e, t in truths(l)]
        full = any(strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("<", ">", "!=", ">=", "<=") and mentions_var_of(e, args(n)[0]) and any(mentions(term(o, Path()), lambda x: x[0] == "c" and x[1].endswith("get_int")) for y in strip_cast(e)[2:4] for o in [y] + list(origins(g, y))) for e in bnds)
        ctx.ob("days", "as many files as there are", full, n.loc, "not all files of the month are rolled up")
        ini = [const_of(d) for d in common._defs(g).get(strip_cast(args(n)[0])[2], ()) if const_of(d) is not None] if strip_cast(args(n)[0])[0] == "v" else [0]
        ctx.ob("days", "from the first file on", 0 in ini, n.loc, "the first file of the month is not rolled up")
    # the data written is the data read
    for n in adds:
        a = strip_id(strip_cast(args(n)[0]))
        ok = any(strip_id(strip_cast(args(m)[0])) == a for m in qs)
        ctx.ob("days", "what is written is what was read", ok, n.loc, "other data than the hours read is written as days")
        r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m in qs)
        ctx.ob("days", "days after hours", r is None, n.loc, "days are written before the hours are read")
    # only months that are over
    for n in g2:
        over = lambda s, l: l is not None and l[0] == "cond" and implies(g, l, lambda e, t: month_over(g, e, t))
        r = paths(g).search([g.entry], lambda m: m in V(g, "insts"), stop_edge=over)
        ctx.ob("use", "only a month that is over", r is None, n.loc, "the current month is rolled up before it is over")
    # not while its partitions are in use
    counted = lambda x: any(y[0] == "m" and y[2] == "Tsdb::m_ref_count" for o in [x] + list(origins(g, x)) for y in common.walk(o)) or any(mentions_call(o, "Tsdb::get_ref_count") for o in [x] + list(origins(g, x)))
    def used(e, t):
        e = strip_cast(e)
        if e[0] != "b" or e[1] not in ("<", "<=", ">", ">=", "==", "!="):
            return None
        a, b, op = e[2], e[3], e[1]
        if const_of(a) is not None:
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        k = const_of(b)
        if k is None or not counted(a):
            return None
        if not t:
            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
        return (op, k) in ((">", 1), (">=", 2), ("!=", 1))
    edges = [(n, s, l) for n in g for s, l in n.succ if l and l[0] == "cond" and any(used(e, t) for e, t in truths(l))]
    ctx.ob("use", "partitions in use are looked for", bool(edges), f.loc(), "a month is rolled up while points are still added to it")
    gone = lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) == "clear"
    for n, s, l in edges:
        r = whatif.explore(g, [g.nodes[s]], {}, lambda q, v: q in g2 or q in qs, stop=gone)
        ctx.ob("use", "not while a partition is in use", r is None, n.loc, "a month is rolled up while points are still added to it")


def mentions_var_of(e, v):
    v = strip_cast(v)
    return v[0] == "v" and mentions_var(e, v[1])


def month_over(g, e, t):
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return False
    now = lambda y: any(mentions_call(z, "begin_month") and any(mentions_call(w, "ts_now_sec") for w in [z] + [o for a in subexprs(z) for o in (origins(g, a) if a[0] == "v" else [a])]) for z in [y] + list(origins(g, y)))
    end = lambda y: any(mentions_call(z, "end_month") for z in [y] + list(origins(g, y)))
    for a, b, op in ((e[2], e[3], e[1]), (e[3], e[2], flip(e[1]))):
        if end(a) and now(b):
            return op in ("<", "<=") if t else op in (">", ">=")
    return False


def subexprs(e):
    yield e
    for x in e:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from subexprs(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    yield from subexprs(y)


def mode_set(n, bit):
    if bit is None:
        return False
    if n.k == "asg":
        l, r = strip_cast(n.ev["lhs"]), n.ev.get("rhs")
        return l[0] == "m" and l[2] == "Tsdb::m_mode" and n.ev["op"] in ("=", "|=") and r is not None and has_bit(r, bit)
    e = n.ev["e"]
    return e[0] == "c" and e[2] is not None and strip_cast(e[2])[0] == "m" and strip_cast(e[2])[2] == "Tsdb::m_mode" and nm(e) in ("operator=", "store", "fetch_or", "operator|=") and any(has_bit(a, bit) for a in e[3])


def has_bit(e, bit):
    e = strip_cast(e)
    if e[0] == "b" and e[1] == "|":
        return any(has_bit(x, bit) for x in e[2:4])
    c = const_of(e)
    return c is not None and c == bit


# ---- across restarts

def saved(ctx, p):
    f = p.get("RollupManager::init")
    g = local(p, f, keep=("Tsdb::restore_rollup_mgr",))
    rms = V(g, "rm_file") + [n for n in g if is_ext(n, "remove", "unlink", "std::remove")]
    res = V(g, "restore_rollup_mgr")
    rd = V(g, "query_from_wal")
    ctx.ob("count", "current hours are restored", bool(res) and bool(rd), f.loc(), "the current hours kept at shutdown are not restored")
    for n in rms:
        r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m in res)
        ctx.ob("count", "current hours are restored before they are removed", r is None, n.loc, "the current hours kept at shutdown are removed before they are restored")
    for n in res:
        r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m in rd)
        ctx.ob("count", "current hours are read before they are restored", r is None, n.loc, "the current hours kept at shutdown are not read")
        r = paths(g).search(after(g, n), lambda m: m is g.exit, stop=lambda m: m in rms)
        ctx.ob("count", "current hours are removed once restored", bool(rms) and r is None, n.loc, "the current hours kept at shutdown are restored again at a later start")
    f = p.get("Tsdb::restore_rollup_mgr")
    g = Graph(p, f)
    res = V(g, "restore_rollup_mgr")
    gone = lambda s, l: l is not None and l[0] == "cond" and implies(g, l, lambda e, t: strip_cast(e)[0] == "c" and nm(e) in ("operator==", "operator!=") and (nm(e) == "operator==") == t)
    ok = bool(res) and each(g, res, excuse=gone) is None
    lp = loop_of(g, res[0]) if res else None
    if lp and any(sc not in lp[1] and l and l[0] == "cond" and any(mentions_call(o, "find") or "::find(" in str(o) for e, t in truths(l) for v in subexprs(e) for o in (origins(g, v) if v[0] == "v" else [v]))
                  for x in lp[1] for sc, l in g.nodes[x].succ):
        ok = False
    ctx.ob("count", "each series gets its current hour back", ok, f.loc(), "a series does not get back the hour kept at shutdown")
