"""Downsampling, aggregation and rates: each point counted once, in its own
interval, by the function asked for."""
import json
import re
from common import *
import common
from p12 import kind_class, derives
from p18 import after
from along import *
from p18 import implies

ASSUMPTIONS = [
    "points of a series come to its downsampler in the order of their times",
    "how standard deviations and percentiles are computed from their values is not judged",
]

THIS = ("t",)
LAST, START, MS = ("m", THIS, "m_last_tstamp"), ("m", THIS, "m_start"), ("m", THIS, "m_ms")
OPAQUE = ("step_down", "step_up", "fill_to", "validate_resolution", "calc_dev", "calc_percentile", "percentile", "stddev")
# what a function is called in a query, and what it does
NAMES = {"avg": "avg", "count": "count", "dev": "dev", "first": "first", "last": "last", "max": "max", "min": "min", "sum": "sum",
         "none": "none", "top": "top", "bottom": "bottom", "p": "dev"}
ENTRY = {"avg": None, "count": "cnt", "max": "max", "min": "min", "sum": "sum"}
ROLLUP = {"avg": "RU_AVG", "count": "RU_CNT", "max": "RU_MAX", "min": "RU_MIN", "sum": "RU_SUM"}


def check(ctx):
    p = ctx.prog
    ctx.rule("name", "a function asked for by name is the one that is used", 12)
    ctx.rule("interval", "a point is counted once, in its own interval", 20)
    ctx.rule("value", "what is given out is computed from the interval's points only", 12)
    ctx.rule("rollup", "rolled up data is used for the function it was kept for", 8)
    ctx.rule("reset", "an aggregator starts afresh for each time", 6)
    ctx.rule("merge", "points of the same time are put together, times in order, none left out", 6)
    ctx.rule("unit", "lengths of intervals and rates are in the unit of the times", 6)
    ctx.rule("rate", "a rate is taken between neighbouring points", 2)
    down = sorted(c for c in p.subclasses_of("Downsampler"))
    agg = sorted(c for c in p.subclasses_of("Aggregator"))
    need_some(len(down), "downsamplers")
    need_some(len(agg), "aggregators")
    D = {c: downsampler(ctx, p, c) for c in down}
    A = {c: aggregator(ctx, p, c) for c in agg}
    names(ctx, p, "Downsampler::create", D)
    names(ctx, p, "Aggregator::create", A)
    listed(ctx, p)
    rollups(ctx, p, D)
    merge(ctx, p)
    units(ctx, p)
    steps(ctx, p)
    gaps(ctx, p)
    rate(ctx, p)


def method(p, c, name, pred=lambda f: True):
    fs = [f for f in p.funcs.values() if f.cls == c and f.name.split("::")[-1].split("(")[0] == name and pred(f)]
    return fs[0] if fs else None


def own_paths(p, f):
    cls = f.cls
    part = lambda fn, e, d: fn.cls in (cls, "Downsampler", "Aggregator") and fn.short.split("::")[-1] not in OPAQUE or not fn.cls and fn.file == f.file
    g = Graph(p, f, part, maxdepth=3)
    ps = each_path(g)
    return g, [q for q in ps if q.end is g.exit] if ps is not None else None


def is_last_invalid(q):
    """what is known about there being an interval yet"""
    for c in q.conds:
        if len(c) == 2 and c[0][0] == "b" and c[0][1] in ("==", "!=") and LAST in c[0][2:] and any(x[0] == "i" for x in c[0][2:]):
            return (c[0][1] == "==") == c[1]
    return None


def is_empty(q):
    r = emptiness(q)
    return r[0] if r else None


def emptiness(q):
    """is there nothing in the interval, and what says so"""
    for c in q.conds:
        if len(c) != 2:
            continue
        e, t = c
        if e[0] == "b" and e[1] in ("==", "!=", "<", ">", "<=", ">="):
            op, a, b = e[1:]
            if a[0] == "i":
                op, a, b = flip(op), b, a
            if b == ("i", 0) and a[0] == "m" and a[1] == THIS:
                r = {"==": t, "!=": not t, ">": not t, "<=": t}.get(op)
                if r is not None:
                    return r, a
        if e[0] == "c" and e[1].endswith("::empty") and e[2] is not None and e[2][0] == "m" and e[2][1] == THIS:
            return t, e[2]
        if e[0] == "m" and e[1] == THIS and e[2] not in ("m_all", "m_ms"):
            return not t, e
    return None


def commuted(t, op, a, b):
    return t in (("b", op, a, b), ("b", op, b, a))


def extreme(t, a, b):
    """max or min of the two, however it is written"""
    if t[0] == "c" and t[1] in ("std::max", "std::min", "std::fmax", "std::fmin", "fmax", "fmin") and set(t[3]) == {a, b}:
        return "max" if "max" in t[1] else "min"
    if t[0] == "?" and t[1][0] == "b" and t[1][1] in ("<", "<=", ">", ">=") and set(t[2:]) == {a, b} and set(t[1][2:]) == {a, b}:
        big = t[1][3] if t[1][1] in ("<", "<=") else t[1][2]
        return "max" if t[2] == big else "min"
    return None


def kind(effects, V, back, one):
    """what is done to the value of an interval: effects is a list of (path, new value or None)"""
    news = {n for q, n in effects}
    if news == {None}:
        return "first"
    if len(news) == 1:
        t, = news
        if t == V:
            return "last"
        if commuted(t, "+", back, one):
            return "count"
        if commuted(t, "+", back, V):
            return "sum"
        return extreme(t, back, V)
    if news == {None, V}:
        # compared first
        rs = set()
        for q, n in effects:
            r = relation(q, V, back)
            if n == V:
                rs.add("max" if r <= {">", "="} else "min" if r <= {"<", "="} else None)
        if len(rs) == 1:
            return rs.pop()
    return None


def downsampler(ctx, p, c):
    raw = method(p, c, "add_data_point", lambda f: len(f.params) == 2)
    if raw is None:
        ctx.ob("interval", "%s takes points" % c, False, p.records[c].get("loc"), "it has no way to add a point")
        return None
    k = accumulate(ctx, p, c, raw, None)
    ext = method(p, c, "add_data_point", lambda f: len(f.params) == 3)
    if ext is not None:
        accumulate(ctx, p, c, ext, k)
    return k


def accumulate(ctx, p, c, f, like):
    """the interval rules for one way of adding; what it computes"""
    ctx.analysed(f)
    g, ps = own_paths(p, f)
    if ps is None:
        return None
    x = ("v", f.params[0]["n"], (0, f.params[0]["id"]))
    dps = ("v", f.params[-1]["n"], (0, f.params[-1]["id"]))
    back = ("m", ("c", "std::vector::back", dps, ()), "second")
    if len(f.params) == 2:
        V, T, ONE = ("m", x, "second"), ("m", x, "first"), ("i", 1)
    else:
        V, T, ONE = ("m", x, ENTRY.get(like) or "sum"), ("c", "validate_resolution", None, (("m", x, "tstamp"),)), ("m", x, "cnt")
    C = ("c", "Downsampler::step_down", THIS, (T,))
    nm = "%s of %s" % (f.short, "points" if len(f.params) == 2 else "rolled up data")
    out = lambda q: [a for a in q.acts if a[0] == "call" and a[1] in ("std::vector::emplace_back", "std::vector::push_back") and a[2] == dps]
    mem = lambda q: [a for a in q.acts if a[0] == "set" and (a[1][:2] == ("m", THIS) or a[1] == back)]
    grow = lambda q: [a for a in q.acts if a[0] == "call" and a[1] in ("std::vector::push_back", "std::vector::emplace_back") and a[2] is not None and a[2][:2] == ("m", THIS)]
    early = [q for q in ps if relation(q, C, START) <= {"<"}]
    rest = [q for q in ps if q not in early]
    ctx.ob("interval", "%s before the start" % nm, bool(early) and not any(out(q) or mem(q) or grow(q) for q in early), f.loc(), "a point before the start of the query is counted")
    late = [q for q in rest if (out(q) or mem(q) or grow(q)) and not relation(q, C, START) <= {">", "="}]
    ctx.ob("interval", "%s at the start" % nm, not late, f.loc(), "it is not known to be in the query's range")
    same = [q for q in rest if relation(q, C, LAST) <= {"="}]
    new = [q for q in rest if "=" not in relation(q, C, LAST)]
    ctx.ob("interval", "%s tells intervals apart" % nm, bool(new) and len(same) + len(new) == len(rest), f.loc(), "a point is put in an interval without looking whether it is its own")
    ctx.ob("interval", "%s in the same interval" % nm, not any(out(q) or calls(q, "fill_to") for q in same), f.loc(), "the interval is given out while points are still added to it")
    ctx.ob("interval", "%s stays in the interval" % nm, all(q.sets(LAST) in (None, C) for q in same), f.loc(), "the interval is changed")
    # a new interval
    for q in new:
        w = q.conds and f.loc() or f.loc()
        if q.sets(LAST) != C:
            ctx.ob("interval", "%s begins the interval" % nm, False, f.loc(), "the new interval is not that of the point")
            break
    else:
        ctx.ob("interval", "%s begins the interval" % nm, bool(new), f.loc(), "no interval is begun")
    okf = True
    for q in new:
        fl = [i for i, a in enumerate(q.acts) if a[0] == "call" and a[1] == "Downsampler::fill_to"]
        seq = [(i, a) for i, a in enumerate(q.acts) if a in out(q)]
        if len(fl) != 1 or q.acts[fl[0]][3][0] != C:
            okf = False
        for i, a in seq:
            if stamp(a) == LAST and fl and i > fl[0] or stamp(a) == C and fl and i < fl[0]:
                okf = False
        # the end of the last interval must not have been overwritten by then
        st = [i for i, a in enumerate(q.acts) if a[0] == "set" and a[1] == LAST]
        if st and fl and st[0] < fl[0]:
            okf = False
    ctx.ob("interval", "%s fills the gap" % nm, okf, f.loc(), "the empty intervals in between are not filled, or in the wrong place")
    # what is kept for the interval
    pend = {a[1] for q in same for a in mem(q) if a[1] != back and a[1] != LAST}
    vec = {a[2] for q in same for a in grow(q)}
    immediate = not pend and not vec
    fresh = True
    for q in new:
        o = out(q)
        if immediate:
            want = [a for a in o if stamp(a) == C]
            if len(o) != 1 or len(want) != 1:
                fresh = False
                continue
            if len(want[0][3]) == 2:
                v = want[0][3][1]
                k = kind([(s, s.sets(back)) for s in same], V, back, ONE)
                if v not in ((ONE,) if k == "count" else (V,)):
                    fresh = False
        else:
            for m in pend:
                v = q.sets(m)
                if v is None or mentions(v, lambda t: t == m or t in pend):
                    fresh = False
            want = [a for a in o if stamp(a) == LAST]
            has = is_last_invalid(q)
            e = is_empty(q)
            if has is True or e is True:
                if o:
                    fresh = False
            elif len(o) != 1 or len(want) != 1:
                fresh = False
            for v in vec:
                cl = [i for i, a in enumerate(q.acts) if a[0] == "call" and a[1] == "std::vector::clear" and a[2] == v]
                pu = [i for i, a in enumerate(q.acts) if a in grow(q) and a[2] == v]
                em = [i for i, a in enumerate(q.acts) if a in o]
                if len(pu) != 1 or q.acts[pu[0]][3] != (V,) or (o and (not cl or cl[0] > pu[0] or cl[0] < em[0])):
                    fresh = False
    ctx.ob("value", "%s begins with the point" % nm, fresh, f.loc(), "a new interval does not begin with just the point, or the one before is not given out")
    for q in same:
        for v in vec:
            if [a[3] for a in grow(q) if a[2] == v] != [(V,)]:
                ctx.ob("value", "%s keeps the value" % nm, False, f.loc(), "the point's value is not kept once")
    for q in new + same:
        for a in out(q):
            if len(a[3]) == 2 and not (a[3][0][0] == "c" and a[3][0][1] == "validate_resolution" and len(a[3][0][3]) == 2 and a[3][0][3][1] == MS):
                ctx.ob("unit", "%s gives out times" % nm, False, f.loc(), "the time is not in the unit asked for")
    # which function is it
    results = {a[3][1] for q in new for a in out(q) if len(a[3]) == 2 and stamp(a) == LAST}
    k = None
    if immediate:
        k = kind([(s, s.sets(back)) for s in same], V, back, ONE)
    elif pend and len(pend) == 2 and not vec and len(same) == 1:
        q, = same
        cnt = [m for m in pend if commuted(q.sets(m), "+", m, ONE)]
        sm = [m for m in pend if commuted(q.sets(m), "+", m, V)]
        if len(cnt) == 1 and len(sm) == 1 and results == {("b", "/", sm[0], cnt[0])} and all(n.sets(cnt[0]) == ONE and n.sets(sm[0]) == V for n in new):
            k = "avg"
    if not immediate:
        lastpoint(ctx, p, c, f, nm, pend, vec, results)
        if k is None and len(pend) + len(vec) != 2 or vec:
            k = "dev"
        elif k is None:
            k = "?"
    if k is None:
        k = "?"
    if like is not None:
        ctx.ob("rollup", "%s computes the same" % nm, k == like, f.loc(), "it does not combine rolled up values the way it combines points")
    return k


def stamp(a):
    if len(a[3]) == 2:
        t = a[3][0]
        return t[3][0] if t[0] == "c" and t[1] == "validate_resolution" else t
    return None


def lastpoint(ctx, p, c, f, nm, pend, vec, results):
    l = method(p, c, "add_last_point")
    if l is None:
        ctx.ob("interval", "%s has a last interval" % c, False, f.loc(), "the last interval is never given out")
        return
    ctx.analysed(l)
    g, ps = own_paths(p, l)
    if ps is None:
        return
    dps = ("v", l.params[0]["n"], (0, l.params[0]["id"]))
    ok = again = True
    for q in ps:
        o = [a for a in q.acts if a[0] == "call" and a[1] in ("std::vector::emplace_back", "std::vector::push_back") and a[2] == dps]
        e = is_empty(q)
        if e is True:
            ok = ok and not o
        elif e is False:
            ok = ok and len(o) == 1 and stamp(o[0]) == LAST and o[0][3][1] in results
        else:
            ok = False
        if o:
            w = emptiness(q)
            again = again and w is not None and (any(a[0] == "call" and a[1] == "std::vector::clear" and a[2] == w[1] for a in q.acts) or q.sets(w[1]) == ("i", 0))
    ctx.ob("interval", "%s gives out the last interval" % c, ok and bool(ps), l.loc(), "the last interval is lost, or one without points is given out")
    ctx.ob("interval", "%s gives it out once" % c, again, l.loc(), "it is given out again the next time")


# ---- aggregators

def aggregator(ctx, p, c):
    add, init, has, out = (method(p, c, n) for n in ("add_data_point", "init", "has_data", "add_aggregated"))
    many = method(p, c, "aggregate", lambda f: len(f.params) == 4)
    if many is not None:
        return select(ctx, p, c, many)
    if None in (add, init, has, out):
        ctx.ob("reset", "%s is complete" % c, False, None, "a part of it is missing")
        return None
    P = {}
    for f in (add, init, has, out):
        ctx.analysed(f)
        P[f] = own_paths(p, f)[1]
        if P[f] is None:
            return None
    x = ("v", add.params[0]["n"], (0, add.params[0]["id"]))
    V = ("m", x, "second")
    keeps = {a[1] for q in P[add] for a in q.acts if a[0] == "set" and a[1][:2] == ("m", THIS)}
    vecs = {a[2] for q in P[add] for a in q.acts if a[0] == "call" and a[1].endswith(("::push_back", "::emplace_back")) and a[2][:2] == ("m", THIS)}
    ok = all(q.sets(m) is not None and not mentions(q.sets(m), lambda t: t in keeps) for q in P[init] for m in keeps) and \
        all(any(a[0] == "call" and a[1].endswith("::clear") and a[2] == v for a in q.acts) for q in P[init] for v in vecs)
    ctx.ob("reset", "%s starts afresh" % c, ok and bool(keeps | vecs), init.loc(), "something of the time before is kept")
    # has data: no after init, yes after a point
    h = P[has][0].ret if len(P[has]) == 1 else None
    def holds(t, q, start):
        """True, False, None: what has_data says after q"""
        if t is None:
            return None
        if t[0] == "m":
            v = q.sets(t)
            return bool(v[1]) if v and v[0] == "i" else None
        if t[0] == "u" and t[1] == "!":
            r = holds(t[2], q, start)
            return None if r is None else not r
        if t[0] == "c" and t[1].endswith("::empty"):
            if any(a[0] == "call" and a[1].endswith("::clear") and a[2] == t[2] for a in q.acts):
                return True
            return False if any(a[0] == "call" and a[1].endswith("::push_back") and a[2] == t[2] for a in q.acts) else None
        if t[0] == "b" and t[1] in (">", "!=", "==", "<"):
            op, a, b = t[1:]
            if a[0] == "i":
                op, a, b = flip(op), b, a
            v = q.sets(a)
            if b != ("i", 0) or v is None:
                return None
            z = True if v == ("i", 0) else False if v[0] == "i" or commuted(v, "+", a, ("i", 1)) else None
            return None if z is None else z if op == "==" else not z
        return None
    ok = h is not None and all(holds(h, q, 1) is False for q in P[init]) and all(holds(h, q, 0) is True or already(h, q) for q in P[add])
    ctx.ob("reset", "%s knows whether it has data" % c, ok, has.loc(), "it says it has data without a point, or the other way round")
    ts = ("v", out.params[0]["n"], (0, out.params[0]["id"]))
    dps = ("v", out.params[1]["n"], (0, out.params[1]["id"]))
    em = [[a for a in q.acts if a[0] == "call" and a[1].endswith(("::emplace_back", "::push_back")) and a[2] == dps] for q in P[out]]
    ok = bool(em) and all(len(e) == 1 and len(e[0][3]) == 2 and e[0][3][0] == ts for e in em)
    ctx.ob("value", "%s gives out one point for a time" % c, ok, out.loc(), "it gives out none, several, or one of another time")
    if not ok:
        return None
    res = {e[0][3][1] for e in em}
    if len(res) != 1:
        return "?"
    r, = res
    if r[0] == "m" and r in keeps:
        firsts = [q for q in P[add] if is_empty(q) is True]
        others = [q for q in P[add] if q not in firsts]
        k = kind([(q, q.sets(r)) for q in others], V, r, ("i", 1))
        if not firsts or not all(q.sets(r) == V for q in firsts):
            if firsts and kind([(q, q.sets(r)) for q in firsts], V, r, ("i", 1)) != k:
                return "?"
            # the first point meets what init left
            z = [q.sets(r) for q in P[init]]
            if k in ("sum", "count") and not all(v in (("i", 0), ("f", "0.0"), ("f", "0")) or v[0] == "f" and float(v[1]) == 0 for v in z):
                return "?"
            if k == "max" and not all(v[0] == "c" and v[1].endswith("::lowest") for v in z) or k == "min" and not all(v[0] == "c" and v[1].endswith("::max") for v in z):
                return "?"
        return k or "?"
    if r[0] == "b" and r[1] == "/" and r[2] in keeps and r[3] in keeps and len(P[add]) == 1:
        q = P[add][0]
        if commuted(q.sets(r[2]), "+", r[2], V) and commuted(q.sets(r[3]), "+", r[3], ("i", 1)):
            return "avg"
        return "?"
    if vecs and mentions(r, lambda t: t in vecs):
        # values that are numbers are kept
        for q in P[add]:
            pu = [a[3] for a in q.acts if a[0] == "call" and a[1].endswith("::push_back") and a[2] in vecs]
            odd = [c2 for c2 in q.conds if len(c2) == 2 and c2[1] and c2[0][0] == "c" and c2[0][1].split("::")[-1] in ("isnan", "isinf")]
            if pu != ([] if odd else [(V,)]):
                return "?"
        return "dev"
    return "?"


def already(h, q):
    """it had data before"""
    return any(len(c) == 2 and (c[0] == h and c[1]) for c in q.conds)


def select(ctx, p, c, f):
    """aggregators that keep whole series: all of them, or some of them"""
    ctx.analysed(f)
    ce, cr = p.callgraph()
    g = Graph(p, f, lambda fn, e, d: fn.file == f.file and (fn.cls in (f.cls, "Aggregator") or not fn.cls), maxdepth=2)
    made = [n for n in g if is_call(n, "MemoryManager::alloc_recyclable")]
    puts = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]).endswith("::push_back") and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "v" and strip_cast(n.ev["e"][2])[1] == f.params[2]["n"]]
    for what in ("set_metric", "set_tags", "add_dps"):
        ok = bool(made) and all(paths(g).search(after(g, n), lambda q: q is n or q is g.exit, stop=lambda q: q.k == "call" and call_name(q).split("::")[-1] == what) is None for n in made)
        ctx.ob("value", "%s fills in results (%s)" % (c, what), ok, f.loc(), "a result is given out incomplete")
    ok = bool(made) and all(paths(g).search(after(g, n), lambda q: q is n or q is g.exit, stop=lambda q: q in puts) is None for n in made)
    ctx.ob("value", "%s gives out results" % c, ok, f.loc(), "a result is not given out")
    nothing = lambda s, l: implies(g, l, lambda e, t: e[0] in ("v", "b") and null_test(e, t) and any(x[0] == "v" and "QueryTask *" in x[4] for x in walk(e) if x[0] == "v" and len(x) > 4))
    pq = [n.ev["t"] for n in g if n.k == "decl" and "priority_queue" in n.ev["t"]]
    if not pq:
        lps = [loop_of(g, n) for n in made]
        whole = all(l is not None and not left_early(g, n) for l, n in zip(lps, made)) and not any(partial(g, q) for q in g if q.k == "call")
        skip = any(paths(g).search([g.nodes[s] for s, x in g.nodes[l[0]].succ if s in l[1]], lambda q: q.id == l[0], stop=lambda q: q in made or q.id not in l[1], stop_edge=nothing) is not None for l in lps if l)
        ctx.ob("merge", "%s gives out every series" % c, bool(made) and whole and not skip, f.loc(), "series are left out")
        return "none"
    m = re.search(r"([A-Za-z_]+::[A-Za-z_]+)\s*>*$", pq[0].strip())
    cmpf = [x for x in p.funcs.values() if m and x.cls and x.cls.endswith(m.group(1)) and "operator()" in x.name]
    if len(cmpf) != 1:
        return "?"
    cg, cps = own_paths(p, cmpf[0])
    ctx.analysed(cmpf[0])
    if not cps or len(cps) != 1 or cps[0].ret is None or cps[0].ret[0] != "b":
        return "?"
    op, a, b = cps[0].ret[1:]
    v = [("v", x["n"], (0, x["id"])) for x in cmpf[0].params]
    if a[0] == b[0] == "c" and a[1] == b[1]:
        if (a[2], b[2]) == (v[1], v[0]):
            op = flip(op)
        elif (a[2], b[2]) != (v[0], v[1]):
            return "?"
        # all are put in, as many as asked for are taken out from the top
        lim = any(mentions_field(e, c + "::m_n") for n in g for s, l in n.succ for e, t in truths(l))
        tops = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and "priority_queue" in n.ev["e"][1] and "::top" in n.ev["e"][1]]
        pops = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and "priority_queue" in n.ev["e"][1] and "::pop" in n.ev["e"][1]]
        ok = lim and bool(tops) and all(paths(g).search(after(g, n), lambda q: q is n, stop=lambda q: q in pops) is None for n in tops)
        ctx.ob("merge", "%s takes as many as asked for, each once" % c, ok, f.loc(), "the number asked for is not looked at, or one is taken again")
        ext = method(p, "QueryTask", a[1].split("::")[-1])
        e = scan(p, ext) if ext is not None else None
        if op in ("<", "<=") and e == "max":
            return "top"
        if op in (">", ">=") and e == "min":
            return "bottom"
    return "?"


def scan(p, f):
    """max or min over values"""
    g = Graph(p, f)
    for n in g:
        for s, l in n.succ:
            for e, t in truths(l):
                e = strip_cast(e)
                if e[0] == "b" and e[1] in ("<", ">", "<=", ">=") and t:
                    for q in g:
                        if q.k == "asg" and q.ev["op"] == "=" and q.ev["lhs"][0] == "v":
                            for x, y, o in ((e[2], e[3], e[1]), (e[3], e[2], flip(e[1]))):
                                if strip_cast(x)[0] == "v" and strip_cast(x)[2] == q.ev["lhs"][2] and mentions_field(y, *[z[2] for z in walk(y) if z[0] == "m" and z[2].endswith("::second")]) and \
                                        any(z[0] == "m" and z[2].endswith("::second") for z in walk(y)) and any(z[0] == "m" and z[2].endswith("::second") for z in walk(q.ev["rhs"])):
                                    return "max" if o in ("<", "<=") else "min"
    for n in g:
        if n.k == "asg":
            for x in walk(n.ev["rhs"] or ("n",)):
                if x[0] == "c" and short(x[1]) in ("std::max", "std::min"):
                    return short(x[1])[5:]
    return None


# ---- names

def literals_at(g, n):
    """literals the name is known to equal or begin with when n is reached"""
    out = set()
    cands = {}
    for q in g:
        for s, l in q.succ:
            for e, t in truths(l):
                r = compares(e, t)
                if r:
                    cands.setdefault(r, []).append((q.id, s))
    for r, edges in cands.items():
        es = set(edges)
        if paths(g).search([g.entry], lambda x: x is n, stop_edge=None, via=None) is None:
            continue
        def stop(s, l, r=r):
            return any(compares(e, t) == r for e, t in truths(l))
        if paths(g).search([g.entry], lambda x: x is n, stop_edge=stop) is None:
            out.add(r)
    # by the first character only
    for q in g:
        for s, l in q.succ:
            if l and l[0] == "case":
                for v in l[2]:
                    c = const_of(v)
                    if isinstance(c, int) and 32 < c < 127:
                        def stop(s2, l2, c=c):
                            return bool(l2) and l2[0] == "case" and any(const_of(y) == c for y in l2[2])
                        if paths(g).search([g.entry], lambda x: x is n, stop_edge=stop) is None:
                            out.add(("char", chr(c), 1))
    return out


def compares(e, t):
    """(how, literal, length) if the edge says the text is, or begins with, a literal"""
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) == 0:
        c, eq = strip_cast(e[2]), (e[1] == "==") == t
    elif e[0] == "c":
        c, eq = e, not t
    elif e[0] == "u" and e[1] == "!":
        return compares(e[2], not t)
    else:
        return None
    if c[0] != "c" or not eq:
        return None
    nm = short(c[1]).split("::")[-1]
    lit = [strip_cast(a)[1] for a in c[3] if strip_cast(a)[0] == "s"]
    if nm == "strcmp" and lit:
        return ("is", lit[0], len(lit[0]))
    if nm == "strncmp" and lit:
        return ("begins", lit[0], const_of(c[3][2]))
    return None


def names(ctx, p, fn, K):
    f = p.need(fn)[0]
    ctx.analysed(f)
    ce, cr = p.callgraph()
    g = Graph(p, f, lambda x, e, d: x.file == f.file and set(cr.get(x.id, ())) <= {f.id} and not x.virt, maxdepth=2)
    cls = kind_class(p)
    seen = {}
    for n in g:
        if not is_call(n, "MemoryManager::alloc_recyclable"):
            continue
        v = [s[1] for s in walk(args(n)[0]) if s[0] == "i"]
        c = cls.get(v[0]) if len(v) == 1 else None
        if c is None:
            # chosen by a variable
            continue
        lits = literals_at(g, n)
        word = sorted(x[1] for x in lits if x[0] in ("is", "begins")) or sorted(x[1] for x in lits)
        if not word:
            ok = K.get(c) == "none"
            ctx.ob("name", "%s without a name" % f.short, ok, n.loc, "a function is used that was not asked for")
            continue
        w = word[0]
        want = NAMES.get(w)
        seen[w] = c
        ctx.ob("name", "%s of %s" % (f.short.split("::")[0], w), want is not None and K.get(c) == want, n.loc, "%s is used, which computes something else" % c)
        for how, lit, ln in lits:
            if how == "begins":
                ctx.ob("name", "%s beginning with %s" % (f.short.split("::")[0], lit), ln == len(lit), n.loc, "only a part of the name is compared")
        # the number behind the name
        for m in g:
            if m.k == "call" and m.ev["e"][0] == "c" and call_name(m).split("::")[-1] in ("set_n", "set_quantile") and paths(g).search(after(g, n), lambda q: q is m, stop=lambda q: is_call(q, "MemoryManager::alloc_recyclable")) is not None:
                off = [distance(b[3]) for a in args(m) for o in behind(g, a) for b in walk(o) if b[0] == "b" and b[1] == "+"]
                ctx.ob("name", "number behind %s of %s" % (w, f.short.split("::")[0]), off and all(o == len(w) for o in off), m.loc, "it is not read from behind the name")
    for w in ("avg", "count", "dev", "max", "min", "sum", "p"):
        ctx.ob("name", "%s knows %s" % (f.short.split("::")[0], w), w in seen, f.loc(), "it cannot be asked for")
    f._names = seen


def distance(e):
    e = strip_cast(e)
    if e[0] == "c" and short(e[1]).split("::")[-1] == "strlen" and strip_cast(e[3][0])[0] == "s":
        return len(strip_cast(e[3][0])[1])
    return const_of(e)


def behind(g, e, depth=3):
    """an expression and what the variables in it were given"""
    out = [e]
    if depth:
        for v in walk(e):
            if v[0] == "v" and v[3] == "l":
                for o in common._defs(g).get(v[2], ()):
                    if o is not None:
                        out += behind(g, o, depth - 1)
    return out


def listed(ctx, p):
    f = p.need("Aggregator::create")[0]
    for n, v in p.globals.items():
        i = v.get("init")
        if i is None or not isinstance(i, tuple):
            continue
        lit = [x[1] for x in walk(i) if x[0] == "s"]
        if len(lit) == 1 and lit[0].startswith("[\"") and "avg" in lit[0]:
            try:
                ns = json.loads(lit[0])
            except ValueError:
                ns = None
            ctx.ob("name", "functions listed", ns is not None and all(any(x == w or w in ("top", "bottom", "p") and re.fullmatch(w + r"\d+", x) for w in f._names) for x in ns), f.loc(),
                   "the list has names that are not accepted")


def rollups(ctx, p, D):
    en = {v: k for k, v in p.enums.get("RollupType", {}).get("consts", {}).items()} if isinstance(p.enums.get("RollupType", {}).get("consts"), dict) else {}
    for c, k in D.items():
        f = method(p, c, "get_rollup_type")
        if f is None:
            continue
        ctx.analysed(f)
        g, ps = own_paths(p, f)
        rets = {const_name2(q.ret) for q in (ps or ())}
        raw = {ev["e"] for ev in f.events() if ev["k"] == "ret" and ev.get("e")}
        nm = {x[2].split("::")[-1] for e in raw for x in walk(e) if x[0] == "i" and len(x) > 2}
        nm |= {en.get(x[1]) for e in raw for x in walk(e) if x[0] == "i"} if not nm or nm <= {"RollupType"} else set()
        nm = {x for x in nm if x and x != "RollupType"}
        ctx.ob("rollup", "%s uses its own" % c, nm == {ROLLUP.get(k, "RU_NONE")}, f.loc(), "it would be given values of another function (%s)" % ",".join(sorted(map(str, nm))))
        if ROLLUP.get(k):
            ctx.ob("rollup", "%s takes rolled up data" % c, method(p, c, "add_data_point", lambda x: len(x.params) == 3) is not None, f.loc(), "it asks for rolled up data but ignores it")
    # and what is kept under a kind
    for f in p.all("RollupManager::query"):
        kp = [x for x in f.params if x["t"] == "RollupType"]
        if not kp or len(f.params) > 2:
            continue
        ctx.analysed(f)
        g, ps = own_paths(p, f)
        for q in ps or ():
            cs = [c for c in q.conds if len(c) == 3 and c[0] == "case"]
            for c in cs:
                for v in c[2]:
                    k = [a for a, b in ROLLUP.items() if b == en.get(v)]
                    if not k:
                        continue
                    val = q.ret if f.ret == "double" else q.sets(("m", ("v", f.params[1]["n"], (0, f.params[1]["id"])), "second"))
                    if val is None:
                        ctx.ob("rollup", "%s of %s" % (f.short, k[0]), False, f.loc(), "no value is given")
                        continue
                    leaf = lambda t, n: t[0] == "m" and t[2].replace("m_", "") == n
                    ok = leaf(val, ENTRY[k[0]]) if k[0] != "avg" else val[0] == "b" and val[1] == "/" and leaf(val[2], "sum") and leaf(val[3], "cnt")
                    ctx.ob("rollup", "%s of %s" % (f.short, k[0]), ok, f.loc(), "the value is that of another function")


def const_name2(t):
    return t


# ---- merging

def merge(ctx, p):
    f = p.need("Aggregator::merge")[0]
    ctx.analysed(f)
    ce, cr = p.callgraph()
    g = Graph(p, f, lambda x, e, d: x.file == f.file and not x.virt and set(cr.get(x.id, ())) <= {f.id}, maxdepth=2)
    V = lambda nm: [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and call_name(n).split("::")[-1] == nm]
    add, init, out = V("add_data_point"), V("init"), V("add_aggregated")
    ok = bool(add) and bool(init) and bool(out)
    ctx.ob("merge", "merge has its parts", ok, f.loc(), "points are not added, or nothing is given out")
    if not ok:
        return
    ts = strip_cast(args(out[0])[0])
    elem = lambda e: strip_cast(e)[0] == "x" or strip_cast(e)[0] == "c" and short(strip_cast(e)[1]).endswith("::operator[]")
    isF = lambda e: strip_cast(e)[0] == "m" and strip_cast(e)[2].endswith("::first")
    eq = lambda s, l: implies(g, l, lambda e, t: e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "==") == t and
                              (isF(e[2]) and strip_cast(e[3]) == ts or isF(e[3]) and strip_cast(e[2]) == ts))
    for n in add:
        r = paths(g).search([x for o in out + [g.entry] for x in after(g, o)], lambda q: q is n, stop_edge=eq)
        ctx.ob("merge", "points put together", r is None, n.loc, "points of another time may be put together")
        h = loop_of(g, n)
        # each added point is passed, and only those
        bump = lambda q: q.k == "asg" and elem(q.ev["lhs"]) and q.ev["op"] in ("++", "+=", "=")
        r = paths(g).search(after(g, n), lambda q: h is not None and q.id == h[0], stop=bump)
        ctx.ob("merge", "a point is passed when it was added", r is None, n.loc, "it would be added again for ever")
        bs = [q for q in g if bump(q) and h is not None and q.id in h[1]]
        r = [b for b in bs if paths(g).search([g.nodes[h[0]]], lambda q: q is b, stop=lambda q: q is n) is not None]
        ctx.ob("merge", "a point is passed only when it was added", not r, n.loc, "a point is left out")
        # afresh for each time
        r = paths(g).search(after(g, out[0]), lambda q: q is n, stop=lambda q: q in init) or paths(g).search([g.entry], lambda q: q is n, stop=lambda q: q in init)
        r2 = any(paths(g).search(after(g, n), lambda q: q in out, stop=lambda q: q in init) is None for _ in (1,))
        ctx.ob("merge", "each time starts afresh", r is None and not r2, n.loc, "values of the time before are put in again, or thrown away")
        # the next time
        nx = [q for q in g if q.k == "asg" and strip_cast(q.ev["lhs"]) == ts and q.ev["op"] == "=" and h is not None and paths(g).search(after(g, out[0]), lambda x: x is q, stop=lambda x: x in add) is not None]
        ok = bool(nx) and all(strip_cast(q.ev["rhs"])[0] == "v" for q in nx)
        if ok:
            nv = strip_cast(nx[0].ev["rhs"])
            over = lambda s, l: implies(g, l, lambda e, t: used_up(g, e, t, elem))
            ok = least(g, nv, h, isF, over) and paths(g).search(after(g, nx[0]), lambda q: takes(q, nv, isF), stop=lambda q: begun(q, nv)) is None
        ctx.ob("merge", "the next time is the smallest left", ok, n.loc, "times are given out of order, or left out")
        # and the first
        lps = [l for l in loops(g) if l[0] != h[0] and out[0].id not in l[1] and any(takes(q, ts, isF) and q.id in l[1] for q in g)]
        none = lambda s, l: implies(g, l, lambda e, t: strip_cast(e)[0] == "c" and short(strip_cast(e)[1]).endswith("::empty") and t or
                                    e[0] == "b" and any(x[0] == "c" and short(x[1]).endswith("::size") for x in walk(e)) and (e[1] in ("==", "<=") and t or e[1] in (">", "!=") and not t))
        ctx.ob("merge", "the first time is the smallest", len(lps) == 1 and least(g, ts, lps[0], isF, none), f.loc(), "earlier points of another series are left out")
    # one for each time
    lp = loop_of(g, out[0])
    r = paths(g).search(after(g, add[0]), lambda q: q is g.exit, stop=lambda q: q in out, stop_edge=lambda s, l: implies(g, l, lambda e, t: e[0] == "c" and short(e[1]).endswith("::has_data") and not t))
    ctx.ob("merge", "what was put together is given out", r is None, out[0].loc, "it may be lost")
    # all series take part
    a = p.get("Aggregator::aggregate") if len(p.all("Aggregator::aggregate")) == 1 else [x for x in p.all("Aggregator::aggregate") if len(x.params) == 1][0]
    ctx.analysed(a)
    ga = Graph(p, a)
    pb = [n for n in ga if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]).endswith(("::push_back", "::emplace_back"))]
    ok = bool(pb) and all(loop_of(ga, n) and not left_early(ga, n) and paths(ga).search([ga.nodes[s] for s, l in ga.nodes[loop_of(ga, n)[0]].succ if s in loop_of(ga, n)[1]], lambda q: q.id == loop_of(ga, n)[0], stop=lambda q: q is n) is None for n in pb) \
        and not any(partial(ga, n) for n in ga if n.k == "call")
    ctx.ob("merge", "all series take part", ok, a.loc(), "series are left out")


def used_up(g, e, t, elem):
    """the edge says there is nothing left of the series"""
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">=", "==", "!="):
        return False
    held = lambda x, what: what(strip_cast(x)) or strip_cast(x)[0] == "v" and any(what(strip_cast(o)) for o in origins(g, x))
    size = lambda x: x[0] == "c" and short(x[1]).endswith("::size")
    a, b, op = e[2], e[3], e[1]
    if held(a, size):
        a, b, op = b, a, flip(op)
    if not held(b, size) or not held(a, elem):
        return False
    # a is the position, b the size
    return (op in (">=", "==")) == t if op in (">=", "==", "<", "!=") else False


def begun(q, v):
    i = q.ev.get("init") if q.k == "decl" and q.ev["id"] == v[2] else q.ev.get("rhs") if q.k == "asg" and strip_cast(q.ev["lhs"]) == v else None
    return i is not None and const_of(i) is not None


def takes(q, v, isF):
    return q.k == "asg" and strip_cast(q.ev["lhs"]) == v and (isF(q.ev["rhs"]) or mins(q.ev["rhs"], v, isF))


def mins(e, v, isF):
    e = strip_cast(e)
    return e[0] == "c" and short(e[1]) == "std::min" and any(strip_cast(a) == v for a in e[3]) and any(isF(a) for a in e[3])


def least(g, v, lp, isF, over):
    """every time round, v becomes the smaller of itself and the time looked at"""
    h, body = lp
    sets = [q for q in g if q.id in body and takes(q, v, isF)]
    plain = [q for q in sets if isF(q.ev["rhs"])]
    low = lambda s, l: implies(g, l, lambda e, t: e[0] == "b" and e[1] in (">", "<", ">=", "<=") and
                               (strip_cast(e[2]) == v and isF(e[3]) or strip_cast(e[3]) == v and isF(e[2])))
    lower = lambda s, l: implies(g, l, lambda e, t: e[0] == "b" and ((e[1] in (">", ">=") and t or e[1] in ("<", "<=") and not t) and strip_cast(e[2]) == v and isF(e[3]) or
                                                                      (e[1] in ("<", "<=") and t or e[1] in (">", ">=") and not t) and strip_cast(e[3]) == v and isF(e[2])))
    higher = lambda s, l: low(s, l) and not lower(s, l)
    if not sets or any(paths(g).search([g.nodes[h]], lambda x: x is q, stop_edge=lower) is not None for q in plain):
        return False
    # a lower one is taken, and each is looked at
    return paths(g).search([g.nodes[s] for s, l in g.nodes[h].succ if s in body], lambda q: q.id == h, stop=lambda q: q in sets or q.id not in body, stop_edge=lambda s, l: higher(s, l) or over(s, l)) is None


# ---- units

UNITS = {"ms": 0.001, "s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}
PARSE = ("atoll", "atol", "atoi", "strtoull", "strtoul", "strtol", "stoull", "stoul")


def units(ctx, p):
    f = p.need("Downsampler::initialize")[0]
    ctx.analysed(f)
    g = Graph(p, f, lambda x, e, d: x.file == f.file and x.short.split("::")[-1] not in OPAQUE and not x.virt, maxdepth=2)
    reads = lambda e: any(x[0] == "c" and short(x[1]).split("::")[-1] in PARSE for o in [e] + list(origins(g, e)) for x in walk(o))
    ps = each_path(g, until=lambda n: writes_field(n, "Downsampler::m_interval") and reads(n.ev["rhs"]))
    for u, secs in sorted(UNITS.items()):
        ok = bool(ps)
        for ms in (0, 1):
            def leaf(t):
                if t[0] == "c" and t[1].split("::")[-1] in PARSE:
                    return 7000
                if t[0] == "v" and t[1] == "g_tstamp_resolution_ms":
                    return ms
                if t[0] == "c" and t[1].split("::")[-1] == "ends_with":
                    return int(u == "ms") if mentions(t[3][-1], lambda y: y == ("s", "ms")) else None
                if t[0] == "x" or t[0] == "u" and t[1] == "*" or t[0] == "c" and t[1].endswith("::back"):
                    return ord(u[-1])
                if t[0] == "v" and t[1] == f.params[0]["n"]:
                    return 1
                return 0 if t[0] == "n" else None
            rs = set()
            for q in ps or ():
                if q.end is g.texit or q.end is g.exit:
                    continue
                if all(agrees(c, leaf) for c in q.conds):
                    rs.add(number_of(q.sets(("m", THIS, "m_interval")), leaf))
            ok = ok and len(rs) == 1 and None not in rs and abs(rs.pop() - 7000 * secs * (1000 if ms else 1)) < 1e-6
        ctx.ob("unit", "length of %s" % u, ok, f.loc(), "an interval given in this unit has another length")
    # fills
    want = {"nan": "nan", "null": "nan", "zero": 0}
    for w, val in want.items():
        hit = None
        for n in g:
            if writes_field(n, "Downsampler::m_fill_value"):
                if ("is", w, len(w)) in literals_near(g, n):
                    v = number(n.ev["rhs"])
                    hit = v == 0 if val == 0 else v is None
                    pol = [q for q in g if writes_field(q, "Downsampler::m_fill") and ("is", w, len(w)) in literals_near(g, q)]
                    hit = hit and len(pol) == 1 and const_of(pol[0].ev["rhs"]) != 0
        ctx.ob("value", "filling with %s" % w, bool(hit), f.loc(), "another value is filled in")


def agrees(c, leaf):
    """can a condition be, with numbers put in?"""
    if len(c) == 3:
        v = number_of(c[1], leaf)
        return v is None or (v in c[2]) == (c[0] == "case")
    v = number_of(c[0], leaf)
    return v is None or bool(v) == c[1]


def number_of(t, leaf):
    """a term with numbers put in"""
    if t is None:
        return None
    if t[0] == "i":
        return t[1]
    if t[0] == "f":
        return t[1] if isinstance(t[1], float) else None
    v = leaf(t)
    if v is not None:
        return v
    if t[0] == "b":
        a, b = number_of(t[2], leaf), number_of(t[3], leaf)
        if a is None or b is None:
            return None
        if t[1] in ("/", "%") and not b:
            return None
        o = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b if isinstance(a, float) or isinstance(b, float) else a // b, "%": lambda: a % b,
             "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b)}.get(t[1])
        return o() if o else None
    if t[0] == "u" and t[1] == "!":
        a = number_of(t[2], leaf)
        return None if a is None else int(not a)
    if t[0] == "?":
        c = number_of(t[1], leaf)
        return None if c is None else number_of(t[2] if c else t[3], leaf)
    return None


def literals_near(g, n):
    out = set()
    for q in g:
        for s, l in q.succ:
            for e, t in truths(l):
                r = compares(e, t)
                if r:
                    stop = lambda s2, l2, r=r: any(compares(x, y) == r for x, y in truths(l2))
                    if paths(g).search([g.entry], lambda x: x is n, stop_edge=stop) is None:
                        out.add(r)
    return out


def number(e):
    e = strip_cast(e)
    c = const_of(e)
    if c is not None:
        return c
    if e[0] == "f":
        try:
            v = float(e[1].rstrip("fFlL"))
            return int(v) if v == int(v) else v
        except (ValueError, OverflowError):
            return None
    return None


def steps(ctx, p):
    for nm, up in (("step_down", False), ("step_up", True)):
        f = p.need("Downsampler::" + nm)[0]
        ctx.analysed(f)
        g, ps = own_paths(p, f)
        x = ("v", f.params[0]["n"], (0, f.params[0]["id"]))
        ok = bool(ps)
        for iv in (1, 7, 60, 3600):
            for t in (60, 61, 119, 120, 3599, 3600, 7201, 86400):
                env = {x: t, ("m", THIS, "m_interval"): iv, ("m", THIS, "m_all"): 0, START: 10 ** 6}
                rs = set()
                for q in ps or ():
                    if all(agrees(c, env.get) for c in q.conds):
                        rs.add(number_of(q.ret, env.get))
                want = t - t % iv if not up else (t + iv - 1) // iv * iv
                ok = ok and rs == {want}
        ctx.ob("interval", "%s finds the interval" % nm, ok, f.loc(), "a time is put in an interval it is not in")


# ---- gaps

def gaps(ctx, p):
    """empty intervals filled in: each once, none that has points"""
    for f in [f for f in p.funcs.values() if f.cls == "Downsampler" and any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]).endswith(("::emplace_back", "::push_back")) and
                                                                            any(x[0] == "m" and x[2] == "Downsampler::m_fill_value" for a in ev["e"][3] for x in walk(a)) for ev in f.events())]:
        ctx.analysed(f)
        g = Graph(p, f)
        put = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]).endswith(("::emplace_back", "::push_back"))]
        fill = [n for n in put if any(mentions_field(a, "Downsampler::m_fill_value") for a in args(n))]
        for n in fill:
            lp = loop_of(g, n)
            at = [x for a in args(n) for x in walk(a) if x[0] == "v" and x[3] == "l"]
            if lp is None or not at:
                ctx.ob("interval", "%s fills empty intervals" % f.short, False, n.loc, "not all of them are filled")
                continue
            v = at[0]
            # guarded by what comes next
            pt = lambda e: any(x[0] == "m" and x[2].endswith("::first") for x in walk(e))
            end = lambda e: any(x[0] == "c" and short(x[1]) == "TimeRange::get_to" for o in behind(g, e) for x in walk(o))
            par = lambda e: strip_cast(e)[0] == "v" and strip_cast(e)[3] == "p"
            def before(e, t):
                if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
                    return False
                a, b, op = e[2], e[3], e[1]
                if strip_cast(b)[0] == "v" and strip_cast(b)[2] == v[2]:
                    a, b, op = b, a, flip(op)
                if not (strip_cast(a)[0] == "v" and strip_cast(a)[2] == v[2]):
                    return False
                if not t:
                    op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
                return op == "<" if pt(b) or par(b) else op == "<=" if end(b) else False
            ok = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, before)) is None and \
                paths(g).search(after(g, n), lambda q: q is n, stop_edge=lambda s, l: implies(g, l, before)) is None
            ctx.ob("interval", "%s fills empty intervals" % f.short, ok, n.loc, "an interval is filled in that has points, or lies behind the end, or the last is not")
            # one by one
            up = [q for q in g if q.k == "asg" and q.id in lp[1] and strip_cast(q.ev["lhs"])[0] == "v" and strip_cast(q.ev["lhs"])[2] == v[2]]
            by = all((q.ev["op"] == "+=" and steps_by(g, q.ev["rhs"])) or (q.ev["op"] == "=" and strip_cast(q.ev["rhs"])[0] == "b" and strip_cast(q.ev["rhs"])[1] == "+" and
                     any(strip_cast(a) == strip_cast(q.ev["lhs"]) and steps_by(g, b) for a, b in (strip_cast(q.ev["rhs"])[2:], strip_cast(q.ev["rhs"])[:1:-1]))) for q in up)
            r = paths(g).search(after(g, n), lambda q: q is n, stop=lambda q: q in up)
            r2 = any(paths(g).search(after(g, q), lambda x: x in up, stop=lambda x: x in fill) is not None and paths(g).search(after(g, q), lambda x: x in up, stop=lambda x: x in fill or x not in up and x.id == lp[0]) is not None for q in up)
            ctx.ob("interval", "%s goes from one interval to the next" % f.short, bool(up) and by and r is None and not r2, n.loc, "intervals are filled twice, or left out")
        # from the one after the last
        ps = each_path(g, until=lambda n: n in fill)
        iv = ("m", THIS, "m_interval")
        for q in ps or ():
            has = is_last_invalid(q)
            if has is None:
                continue
            for a in q.acts:
                if a[0] == "call" and a[1].endswith(("::emplace_back", "::push_back")) and len(a[3]) == 2 and a[3][1] == ("m", THIS, "m_fill_value"):
                    s = stamp(a)
                    ok = commuted(s, "+", LAST, iv) if has is False else mentions(s, lambda t: t[0] == "c" and t[1] == "TimeRange::get_from")
                    ctx.ob("interval", "%s begins with the one after the last" % f.short, ok, f.loc(), "an interval is filled in that has points, or one is left out")
                    break
        # the points themselves stay, and the last one is there
        if any(n.k == "call" and short(n.ev["e"][1]).endswith("::swap") for n in g if n.k == "call" and n.ev["e"][0] == "c"):
            keep = [n for n in put if n not in fill]
            lp = [loop_of(g, n) for n in keep]
            other = lambda s, l: implies(g, l, lambda e, t: e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "==") != t and any(x[0] == "m" and x[2].endswith("::first") for x in walk(e)))
            ok = bool(keep) and all(l is not None and not left_early(g, n) for l, n in zip(lp, keep)) and \
                all(paths(g).search([g.nodes[s] for s, x in g.nodes[l[0]].succ if s in l[1]], lambda q: q.id == l[0], stop=lambda q: q in keep or q.id not in l[1], stop_edge=other) is None for l in lp)
            ctx.ob("interval", "%s keeps the points" % f.short, ok, f.loc(), "an interval that has points is left out")
            last = [n for n in g if n.k == "call" and call_name(n).split("::")[-1] == "add_last_point"]
            r = paths(g).search([g.entry], lambda q: q in put or q is g.exit, stop=lambda q: q in last)
            ctx.ob("interval", "%s begins with the last interval's points" % f.short, bool(last) and r is None, f.loc(), "the last interval is not given out")


def steps_by(g, e):
    """is it the interval, in the unit of the times?"""
    es = behind(g, e)
    if any(strip_cast(x)[0] == "m" and strip_cast(x)[2] == "Downsampler::m_interval" for x in es):
        return True
    for x in es:
        x = strip_cast(x)
        if x[0] != "?":
            continue
        ok = True
        t = term(x, Path())
        for a in (0, 1):
            for b in (0, 1):
                leaf = lambda y: {MS: a, ("v", "g_tstamp_resolution_ms", 0): b, ("m", THIS, "m_interval"): 60000}.get(y)
                ok = ok and number_of(t, leaf) == (60000 if a == b else 60000000 if a else 60)
        if ok:
            return True
    return False


# ---- rates

def rate(ctx, p):
    f = p.need("RateCalculator::calculate")[0]
    ctx.analysed(f)
    g = Graph(p, f, lambda x, e, d: x.file == f.file, maxdepth=2)
    # seconds: divided by 1000 exactly if the times are in milliseconds
    div = [n for n in g if n.k in ("asg", "decl") and (n.k == "asg" and n.ev["op"] == "/=" and number(n.ev["rhs"]) == 1000 or
           any(x[0] == "b" and x[1] == "/" and number(x[3]) == 1000 for x in walk((n.ev.get("rhs") if n.k == "asg" else n.ev.get("init")) or ("n",))))]
    conds = set()
    for n in div:
        for q in g:
            for s, l in q.succ:
                for e, t in truths(l):
                    if t and strip_cast(e)[0] in ("v", "m") and paths(g).search([g.entry], lambda x: x is n, stop_edge=lambda s2, l2, e=e, t=t: any(a == e and b == t for a, b in truths(l2))) is None:
                        conds.add(strip_cast(e))
    for n in g:
        for e in event_exprs(n):
            for x in walk(e):
                if x[0] == "?" and number(x[2]) == 1000 and number(x[3]) == 1 and strip_cast(x[1])[0] in ("v", "m"):
                    conds.add(strip_cast(x[1]))
    ok = False
    for c in conds:
        if c[0] == "v" and c[3] == "p":
            i = [k for k, x in enumerate(f.params) if x["n"] == c[1]]
            ce, cr = p.callgraph()
            for u in cr.get(f.id, ()):
                ug = Graph(p, p.funcs[u])
                for n in ug:
                    if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] == f.id and i:
                        ok = any(mentions_field(o, "Query::m_ms") for o in [args(n)[i[0]]] + list(origins(ug, args(n)[i[0]])))
        if c[0] == "m":
            ok = ok or any(writes_field(n, c[2]) and mentions_field(n.ev["rhs"], "Query::m_ms") for h in p.funcs.values() if h.cls == "Query" for n in Graph(p, h))
    ctx.ob("unit", "rates are per second", ok, f.loc(), "the unit of the results' times is not looked at")
    # neighbours
    lps = loops(g)
    prev = {}
    for h, body in lps:
        for n in g:
            if n.id in body and n.k == "asg" and n.ev["op"] == "=" and n.ev["lhs"][0] == "v":
                v = n.ev["lhs"][2]
                src = [o for o in [n.ev["rhs"]] + list(origins(g, n.ev["rhs"])) for x in walk(o) if x[0] == "m" and x[2].endswith(("::first", "::second"))]
                if src and any(q.k == "decl" and q.ev["id"] == v and q.id not in body for q in g):
                    prev.setdefault(v, []).append(n)
        for v, ns in prev.items():
            r = paths(g).search([g.nodes[s] for s, l in g.nodes[h].succ if s in body], lambda q: q.id == h, stop=lambda q: q in ns)
            ctx.ob("rate", "the point before is the neighbour (%s)" % ns[0].ev["lhs"][1], r is None, ns[0].loc, "a rate is taken over more than one step")
    ctx.ob("rate", "rates are taken from the point before", len(prev) >= 2, f.loc(), "time and value of the point before are not both kept")
    options(ctx, p)
    kept(ctx, p)
    given(ctx, p)


def kept(ctx, p):
    """options are kept, each in a place of its own"""
    for f in p.funcs.values():
        if f.short != "RateCalculator::init":
            continue
        where = {}
        g = Graph(p, f, lambda x, e, d: not x.virt and x.kind != "ctor", maxdepth=2)
        mine = {q["n"] for q in f.params}
        for n in g:
            if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m":
                for o in list(origins(g, n.ev["rhs"])) + [n.ev["rhs"]]:
                    for x in walk(o):
                        if x[0] == "v" and x[3] == "p" and x[1] in mine and x[2] not in [q.ev.get("id") for q in g if q.k == "decl"]:
                            where.setdefault(x[1], set()).add(strip_cast(n.ev["lhs"])[2])
        for q in f.params:
            ctx.ob("rate", "%s is kept" % q["n"], len(where.get(q["n"], ())) == 1, f.loc(), "an option given is not kept")
        used = [next(iter(v)) for v in where.values() if len(v) == 1]
        ctx.ob("rate", "options are kept apart", len(used) == len(set(used)), f.loc(), "two options are kept in one place")


def given(ctx, p):
    """each result put out gets its points"""
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls is None or not f.cls.startswith("Aggregator") or f.short.split("::")[-1] != "aggregate":
            continue
        g = Graph(p, f, lambda x, e, d: x.file == f.file and not x.virt and x.kind != "ctor", maxdepth=2)
        outs = [q["n"] for q in f.params if "QueryResults" in q["t"]]
        for n in g:
            if n.k != "call" or n.ev["e"][0] != "c" or nm_(n) not in ("push_back", "emplace_back") or n.ev["e"][2] is None or not any(x[0] == "v" and x[1] in outs for x in walk(n.ev["e"][2])):
                continue
            v = strip_cast(args(n)[0])
            if v[0] != "v":
                continue
            def fills(q):
                if q.k != "call" or q.ev["e"][0] != "c" or q is n:
                    return False
                w = nm_(q)
                if w.startswith(("set_", "get_", "push_back", "emplace_back")):
                    return False
                return any(x[0] == "v" and x[2] == v[2] for x in walk(q.ev["e"])) or any(x[0] == "v" and x[2] == v[2] for a in list(args(q)) + ([q.ev["e"][2]] if q.ev["e"][2] is not None else []) for o in origins(g, a) for x in walk(o))
            lp = loop_of(g, n)
            last = lambda q: q is g.exit or lp is not None and q.id == lp[0]
            before = paths(g).search([g.nodes[lp[0]]] if lp else [g.entry], lambda q: q is n, stop=fills) is None
            after_ = paths(g).search([g.nodes[s] for s, l in n.succ if not (l and l[0] in ("eh", "throw"))], last, stop=fills)
            ctx.ob("merge", "%s: points of each result" % f.short, before or after_ is None, n.loc, "a result is given out without its points")


def nm_(n):
    return short(n.ev["e"][1]).split("::")[-1]


def options(ctx, p):
    """options given by position: each has its own"""
    for f in p.funcs.values():
        if f.cls != "Query" or not f.short.endswith("<ctor>"):
            continue
        g = Graph(p, f)
        use = {}
        for n in g:
            if n.k not in ("asg",) or n.ev["lhs"][0] != "v":
                continue
            for x in walk(n.ev["rhs"]):
                if x[0] == "c" and "operator[]" in x[1] and x[2] is not None and strip_cast(x[2])[0] == "v" and const_of(x[3][0]) is not None and "string" in x[1]:
                    use.setdefault((strip_cast(x[2])[2], const_of(x[3][0])), {}).setdefault(n.ev["lhs"][1], n)
        own = {strip_cast(n.ev["lhs"])[2] for vs in use.values() for n in vs.values()}
        for (v, i), vs in sorted(use.items(), key=str):
            ctx.analysed(f)
            n = list(vs.values())[0]
            ctx.ob("rate", "option %d" % i, len(vs) == 1, n.loc, "it is used for %s" % " and ".join(sorted(vs)))
            # counter, greatest value, reset value, drop resets
            for m in g:
                if is_call(m, "RateCalculator::init") and i < 4 and len(args(m)) == 4 and any(x[0] == "v" and x[2] in own for a in args(m) for b in behind(g, a) for x in walk(b)):
                    ctx.ob("rate", "option %d is given on" % i, any(x[0] == "v" and x[2] == strip_cast(n.ev["lhs"])[2] for b in behind(g, args(m)[(0, 2, 3, 1)[i]]) for x in walk(b)), m.loc, "it is used as another option")
            big = lambda s, l: implies(g, l, lambda e, t: e[0] == "b" and e[1] in ("<", "<=", ">", ">=", "==", "!=") and enough(e, t, i))
            ctx.ob("rate", "option %d is there" % i, paths(g).search([g.entry], lambda q: q is n, stop_edge=big) is None, n.loc, "it is not known to have been given")


def enough(e, t, i):
    size = lambda x: strip_cast(x)[0] == "c" and short(strip_cast(x)[1]).endswith("::size")
    a, b, op = e[2], e[3], e[1]
    if size(b):
        a, b, op = b, a, flip(op)
    k = const_of(b)
    if not size(a) or not isinstance(k, int):
        return False
    if not t:
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
    return op == ">" and k >= i or op in (">=", "==") and k > i or op == "!=" and k == 0 and i == 0
