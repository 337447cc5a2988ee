"""Points and the time range they belong to: partitions, pages, queries."""
from common import *
import common
from order import Eval, Frame, Unknown, cases, evaluate
from p17 import terms, merge, tkey, lit_of, CONV

ASSUMPTIONS = [
    "partitions do not overlap (they are whole days)",
    "the clock functions of the C library are right",
    "the end of a query's range belongs to it within a partition, but not if it is the start of the next partition",
]

PARTS = "Tsdb::m_tsdbs"


def check(ctx):
    p = ctx.prog
    ctx.rule("range", "tests on a time range tell inside from outside", 8)
    ctx.rule("day", "a new partition is the day that contains the point", 2)
    ctx.rule("name", "the directory of a partition gives its range", 2)
    ctx.rule("sorted", "the list of partitions is kept in the order of time", 3)
    ctx.rule("find", "the partition of a time is found wherever it is in the list", 3)
    ctx.rule("all", "a query gets every partition its range touches", 4)
    ctx.rule("place", "a point goes into a page of the partition of its time", 3)
    ctx.rule("page", "the range of a page covers its points", 3)
    ctx.rule("start", "a query starts at a page no later than the first it needs", 2)
    ctx.rule("chain", "a query passes over a page, or ends, only if the range says so", 4)
    ctx.rule("memory", "a query takes in the pages not filed yet", 4)
    ctx.rule("point", "a query takes over every point in its range", 4)
    ranges(ctx, p)
    day(ctx, p)
    name(ctx, p)
    in_order(ctx, p)
    find(ctx, p)
    every(ctx, p)
    place(ctx, p)
    page(ctx, p)
    start(ctx, p)
    chain(ctx, p)
    memory(ctx, p)
    point(ctx, p)


# ---- time ranges

def tr(o, d):
    return {o + ".m_from": d["f"], o + ".m_to": d["e"]}


SPEC = {
    "TimeRange::in_range": lambda t, f, e: -1 if t < f else 1 if t > e else 0,
    "TimeRange::in_range_strictly": lambda t, f, e: -1 if t < f else 1 if t >= e else 0,
    "TimeRange::older_than_sec": lambda t, f, e: int(e <= t),
}
SPEC2 = {
    "TimeRange::has_intersection": lambda f, e, g, h: int(f < h and g < e),
    "TimeRange::contains": lambda f, e, g, h: int(f <= g and h <= e),
    "TimeRange::equals": lambda f, e, g, h: int(f == g and h == e),
}


def sign(x):
    return None if x is None else (x > 0) - (x < 0)


def ranges(ctx, p):
    def ob(f, bad):
        ctx.analysed(f)
        ctx.ob("range", f.short, not bad, f.loc(), "wrong for %s" % bad)
    for nm, spec in SPEC.items():
        for f in p.all(nm):
            if len(f.params) != 1:
                continue
            bad = None
            for d in cases("tfe", 4, lambda d: d["f"] < d["e"]):
                v = attempt(lambda: evaluate(p, f, "a", [("i", d["t"])], tr("a", d))[0])
                if sign(v) != spec(d["t"], d["f"], d["e"]):
                    bad = "time %d and range %d to %d" % (d["t"], d["f"], d["e"])
                    break
            ob(f, bad)
    for nm, spec in SPEC2.items():
        for f in p.all(nm):
            bad = None
            for d in cases("fegh", 4, lambda d: d["f"] < d["e"] and d["g"] < d["h"]):
                v = attempt(lambda: evaluate(p, f, "a", [("p", "b")], {"a.m_from": d["f"], "a.m_to": d["e"], "b.m_from": d["g"], "b.m_to": d["h"]})[0])
                if v is None or int(bool(v)) != spec(d["f"], d["e"], d["g"], d["h"]):
                    bad = "ranges %d to %d and %d to %d" % (d["f"], d["e"], d["g"], d["h"])
                    break
            ob(f, bad)
    for nm, spec in (("TimeRange::merge", lambda d: (min(d["f"], d["g"]), max(d["e"], d["h"]))), ("TimeRange::intersect", lambda d: (max(d["f"], d["g"]), min(d["e"], d["h"])))):
        for f in p.all(nm):
            bad = None
            for d in cases("fegh", 4, lambda d: d["f"] < d["e"] and d["g"] < d["h"]):
                st = attempt(lambda: evaluate(p, f, "a", [("p", "b")], {"a.m_from": d["f"], "a.m_to": d["e"], "b.m_from": d["g"], "b.m_to": d["h"]})[1])
                if st is None or (st.get("a.m_from"), st.get("a.m_to")) != spec(d):
                    bad = "ranges %d to %d and %d to %d" % (d["f"], d["e"], d["g"], d["h"])
                    break
            ob(f, bad)
    for f in p.all("TimeRange::add_time"):
        bad = None
        for d in cases("tfe", 4):
            st = attempt(lambda: evaluate(p, f, "a", [("i", d["t"])], tr("a", d))[1])
            if st is None or (st.get("a.m_from"), st.get("a.m_to")) != (min(d["f"], d["t"]), max(d["e"], d["t"] + 1)):
                bad = "time %d and range %d to %d" % (d["t"], d["f"], d["e"])
                break
        ob(f, bad)
    for f in p.all("TimeRange::get_middle"):
        bad = None
        for d in cases("fe", 6, lambda d: d["f"] < d["e"]):
            v = attempt(lambda: evaluate(p, f, "a", [], tr("a", d))[0])
            if v is None or not d["f"] <= v < d["e"]:
                bad = "range %d to %d" % (d["f"], d["e"])
        ob(f, bad)
    for nm in ("TimeRange::init", "TimeRange::<ctor>"):
        for f in p.all(nm):
            if len(f.params) == 2:
                g = Graph(p, f)
                for n in g:
                    fl = n.ev["lhs"][2] if n.k == "asg" and n.ev["lhs"][0] == "m" else n.ev.get("f") if n.k == "init" else None
                    if fl and fl.endswith(("m_from", "m_to")):
                        r = n.ev.get("rhs") or n.ev.get("e")
                        want = f.params[0 if fl.endswith("m_from") else 1]
                        ctx.ob("range", "%s sets %s" % (f.short, fl), any(s[0] == "v" and s[2] == (0, want["id"]) for s in walk(r)), n.loc, "it is set to another value")
    # methods of others that pass the question on
    for nm, spec in (("Tsdb::in_range_strictly", SPEC["TimeRange::in_range_strictly"]), ("PageInMemory::in_range_strictly", SPEC["TimeRange::in_range_strictly"]), ("Query::in_range", SPEC["TimeRange::in_range"])):
        for f in p.all(nm):
            if len(f.params) != 1 or "TimeRange" in f.params[0]["t"]:
                continue
            o = "a.m_tsdb.m_time_range" if nm.startswith("Page") else "a.m_time_range"
            bad = None
            for d in cases("tfe", 4, lambda d: d["f"] < d["e"]):
                v = attempt(lambda: evaluate(p, f, "a", [("i", d["t"])], tr(o, d))[0])
                if sign(v) != spec(d["t"], d["f"], d["e"]):
                    bad = "time %d and range %d to %d" % (d["t"], d["f"], d["e"])
                    break
            ob(f, bad)


def after(g, n):
    if n.k == "call" and any(l and l[0] == "cond" for s, l in n.succ):
        return [Leaving(n)]
    return [g.nodes[s] for s, l in n.succ if not (l and l[0] in ("eh", "throw"))]


def attempt(fn):
    try:
        return fn()
    except (Unknown, TypeError):
        return None


def implies(g, l, test):
    """does the branch establish what test(expression, truth) looks for?  Looks through variables that hold a condition."""
    return any(holds_if(g, e, t, test) for e, t in truths(l))


def holds_if(g, e, t, test, seen=()):
    e = strip_cast(e)
    if test(e, t):
        return True
    if e[0] == "u" and e[1] == "!":
        return holds_if(g, e[2], not t, test, seen)
    if e[0] == "b" and e[1] in ("&&", "||"):
        some = any if (e[1] == "&&") == t else all
        return some([holds_if(g, x, t, test, seen) for x in e[2:4]])
    if e[0] == "v" and e[3] == "l" and e[2] not in seen:
        ds = [d for d in common._defs(g).get(e[2], ())]
        rest = [d for d in ds if const_of(d) is None or bool(const_of(d)) == t]
        return bool(rest) and all(const_of(d) is None and holds_if(g, d, t, test, seen + (e[2],)) for d in rest)
    return False


def plain(g, l):
    """(expression, truth) pairs, with variables that hold a condition replaced by it"""
    out = []
    for e, t in truths(l):
        e = strip_cast(e)
        ds = common._defs(g).get(e[2], ()) if e[0] == "v" and e[3] == "l" and e[4] == "bool" else ()
        out += truths(("cond", ds[0], t)) if len(ds) == 1 and not (strip_cast(ds[0])[0] == "b" and strip_cast(ds[0])[1] in ("&&", "||") and (strip_cast(ds[0])[1] == "&&") != t) else [(e, t)]
    return out


def innermost(e):
    """what a chain of assignments assigns"""
    e = strip_cast(e)
    return innermost(e[3]) if e[0] == "b" and e[1] == "=" else e


# ---- partitions

def day(ctx, p):
    for f in p.all("Tsdb::get_range"):
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: fn.cls == "Tsdb")
        q = [n for n in g if is_call(n, "get_day_range")]
        w = [n for n in g if is_call(n, "TimeRange::init", "TimeRange::set_from", "TimeRange::set_to")]
        ok = bool(q) and bool(w)
        for n in q:
            a = args(n)
            ok = ok and any(s[0] == "v" and s[2] == (0, f.params[0]["id"]) for o in origins(g, a[0], ("to_sec",)) for s in walk(o))
            b, e = [strip_cast(x)[2] if strip_cast(x)[0] == "v" else None for x in a[1:3]]
            for m in w:
                if is_call(m, "TimeRange::init"):
                    got = [[s[2] for o in origins(g, x, ("validate_resolution",)) for s in walk(o) if s[0] == "v"] for x in args(m)]
                    ok = ok and got == [[b], [e]]
        ctx.ob("day", "%s takes the day of the point" % f.short, ok, f.loc(), "the range is not that of the day")
    for f in p.all("get_day_range"):
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: fn.file == f.file and not fn.cls)
        sets = [n for n in g if n.k == "asg" and any(is_ext_call(s, "timegm", "mktime") for s in walk(n.ev["rhs"]))]
        for fld in ("tm_sec", "tm_min", "tm_hour"):
            for n in sets:
                z = lambda m: m.k == "asg" and m.ev["lhs"][0] == "m" and m.ev["lhs"][2].endswith(fld) and const_of(innermost(m.ev["rhs"])) == 0
                r = paths(g).search([m for m in g if is_ext(m, "gmtime_r", "localtime_r")], lambda m: m is n, stop=z)
                ctx.ob("day", "%s: %s of day starts" % (f.short, fld), r is None, n.loc, "it is not set to 0")
        # the second time looked at is in the next day
        b = next((x for x in f.params if x["n"] == "begin"), f.params[1] if len(f.params) > 2 else None)
        nxt = [m for m in g if (m.k == "asg" or m.k == "decl" and m.ev.get("init")) and any(s[0] == "v" and s[2] == (0, b["id"]) for s in walk(m.ev.get("rhs") or m.ev.get("init") or ("n",)))]
        ok = False
        for m in nxt:
            t = terms(g, m.ev.get("rhs") or m.ev["init"], keep={(0, b["id"])})
            c = t.pop((), 0)
            ok = ok or len(t) == 1 and list(t.values()) == [1] and 86400 <= c < 2 * 86400
        ctx.ob("day", "%s ends at the next day" % f.short, ok, f.loc(), "it may not be the next day")
        for n in g:
            if is_ext(n, "localtime_r", "mktime"):
                ctx.ob("day", "%s uses the same days everywhere" % f.short, False, n.loc, "days depend on the time zone")


def dist(g, m):
    """nodes from which m can be reached"""
    seen, todo = {m.id}, [m.id]
    while todo:
        for x in g.nodes[todo.pop()].pred:
            x = x[0] if isinstance(x, tuple) else x
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return seen


def is_ext_call(s, *names):
    return s[0] == "c" and short(s[1]) in names


def name(ctx, p):
    for f in p.all("Tsdb::get_tsdb_dir_name"):
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: fn.cls == "Tsdb" and fn.id != f.id)
        for n in g:
            if is_ext(n, "snprintf", "sprintf"):
                a = args(n)
                at = 2 if is_ext(n, "snprintf") else 1
                fmt = lit_of(g, a[at])
                if fmt is None:
                    continue
                conv = [m.group(0) for m in CONV.finditer(fmt) if m.group(2) != "%"]
                last = fmt.split("/")[-1]
                k = len([m for m in CONV.finditer(last)])
                av = a[at + 1:]
                got = []
                for x in av[len(conv) - k:]:
                    o = origins(g, x)
                    got.append("from" if any(mentions_call(y, "TimeRange::get_from_sec") for y in o) else "to" if any(mentions_call(y, "TimeRange::get_to_sec") for y in o) else "?")
                ok = got[:2] == ["from", "to"] and last.count(".") == 1 and len(conv) == len(av)
                ctx.ob("name", "%s names start and end" % f.short, ok, n.loc, "the last part of the name is not start and end in seconds")
    for f in p.all("Tsdb::restore_tsdb"):
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: fn.cls == "Tsdb" and fn.short != "Tsdb::create")
        ctor = [n for n in g if n.k == "ctor" and n.ev["e"][1] == "TimeRange" and len(n.ev["e"][3]) == 2] + [n for n in g if is_call(n, "TimeRange::init") and len(args(n)) == 2]
        for n in ctor:
            a = n.ev["e"][3] if n.k == "ctor" else args(n)
            idx = []
            for x in a:
                ix = set()
                for o in origins(g, x):
                    for s in walk(o):
                        if s[0] == "c" and ("operator[]" in s[1] or short(s[1]).endswith("::at")):
                            ix.add(const_of(s[3][0]))
                idx.append(ix)
            # in milliseconds exactly if partitions are
            first = [m for m in g if m.k in ("decl", "asg") and any(s[0] == "c" and short(s[1]).startswith("std::sto") for s in walk(m.ev.get("init") or m.ev.get("rhs") or ("n",)))]
            scaled = bool(first)
            for unit in (0, 1):
                def known(fr, e, unit=unit):
                    if is_global(e, "g_tstamp_resolution_ms"):
                        return unit
                    if e[0] == "c" and short(e[1]).startswith("std::sto"):
                        ix = [const_of(s[3][0]) for s in walk(e) if s[0] == "c" and ("operator[]" in s[1] or short(s[1]).endswith("::at"))]
                        return 5 + ix[0] if ix and ix[0] is not None else None
                    if e[0] == "c" and short(e[1]) in ("validate_resolution", "to_ms"):
                        return fr.val(e[3][0]) * (1000 if unit or short(e[1]) == "to_ms" else 1)
                    return None
                fr = Frame(Eval(p, {}, known), g, "this", 1, 0)
                def go():
                    fr.run(min(first, key=lambda m: len(dist(g, m))), lambda m: m is n)
                    return [fr.val(x) for x in a]
                got = attempt(go)
                scaled = scaled and got == [5 * (1000 if unit else 1), 6 * (1000 if unit else 1)]
            ctx.ob("name", "%s takes start and end from the name" % f.short, idx == [{0}, {1}], n.loc, "they are taken from other parts of it")
            ctx.ob("name", "%s converts them" % f.short, scaled, n.loc, "they are not in the unit of the partitions")
        if not ctor:
            ctx.ob("name", "%s sets the range" % f.short, False, f.loc(), "no range is made of the name")


def changes_list(n):
    return n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and is_global(n.ev["e"][2], PARTS) and \
        any(short(n.ev["e"][1]).endswith(x) for x in ("::push_back", "::emplace_back", "::insert", "::emplace"))


def sorts_list(n):
    return n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) in ("std::sort", "std::stable_sort") and any(mentions_global(a, PARTS) for a in n.ev["e"][3])


def rel(g, e, t):
    """(smaller, larger, strict) in terms of what is compared"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return None
    a, b, op = e[2], e[3], e[1]
    if op in (">", ">="):
        a, b, op = b, a, "<" if op == ">" else "<="
    if not t:
        a, b, op = b, a, "<=" if op == "<" else "<"
    return end_of(g, a), end_of(g, b), op == "<"


def end_of(g, e):
    """(whose, 'from' or 'to') for the end of a range: whose is 'query' for a parameter of the function, else the expression's partition"""
    out = set()
    for o in origins(g, e):
        o = strip_cast(o)
        if o[0] == "c" and short(o[1]) in ("TimeRange::get_from", "TimeRange::get_to"):
            w, base = ("from" if short(o[1]).endswith("from") else "to"), o[2]
        elif o[0] == "m" and o[2] in ("TimeRange::m_from", "TimeRange::m_to"):
            w, base = ("from" if o[2].endswith("from") else "to"), o[1]
        else:
            return None
        base = strip_cast(base)
        if base[0] == "v" and base[3] == "p":
            out.add(("query", w))
        elif mentions_field(base, "Tsdb::m_time_range") or mentions_call(base, "Tsdb::get_time_range"):
            out.add(("part", w))
        else:
            out.add(("?", w))
    return out.pop() if len(out) == 1 else None


def in_order(ctx, p):
    for f in p.all("tsdb_less::operator()"):
        bad = None
        for d in cases("fegh", 4, lambda d: d["f"] < d["e"] and d["g"] < d["h"] and (d["e"] <= d["g"] or d["h"] <= d["f"])):
            v = attempt(lambda: evaluate(p, f, None, [("p", "a"), ("p", "b")], {"a.m_time_range.m_from": d["f"], "a.m_time_range.m_to": d["e"], "b.m_time_range.m_from": d["g"], "b.m_time_range.m_to": d["h"]})[0])
            if v is None or bool(v) != (d["f"] < d["g"]):
                bad = "%d to %d and %d to %d" % (d["f"], d["e"], d["g"], d["h"])
                break
        ctx.ob("sorted", "%s orders partitions by time" % f.short, bad is None, f.loc(), "wrong for %s" % bad)
    ce, cr = p.callgraph()
    adds = {}
    for f in p.funcs.values():
        if any(ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][2] is not None and is_global(ev["e"][2], PARTS) for ev in f.events()):
            g = Graph(p, f)
            for n in g:
                if changes_list(n):
                    adds[f.id] = (f, g, n)
    need_some(adds, "functions adding a partition to the list")
    for f, g, n in adds.values():
        ctx.analysed(f)
        old = {x["id"] for x in f.params if x["t"] == "bool"}
        def made(x, r):
            """is it the new partition whose end (start) is compared?"""
            out = {}
            for y in x[2:4]:
                out[end_of(g, y)[1]] = any(s[0] == "new" for o in origins(g, y) for q in walk(o) if q[0] == "v" for o2 in origins(g, q) for s in walk(o2))
            return out.get("to"), out.get("from")
        def fits(x, t):
            r = rel(g, x, t)
            if r:
                return r[0] == ("part", "to") and r[1] == ("part", "from") and made(x, r) == (False, True)
            if x[0] == "v" and x[2] in {(0, i) for i in old}:
                return t
            y = strip_cast(x[2]) if x[0] == "b" else x
            return False if y[0] != "v" or y[4] != "Tsdb *" else null_test(x, t) and all(strip_cast(o)[0] == "n" or mentions_global(o, PARTS) for o in origins(g, y))
        fine = lambda s, l: implies(g, l, fits)
        r = paths(g).search([g.entry], lambda m: m is g.exit, stop=sorts_list, stop_edge=fine, via=lambda m: m is n)
        ctx.ob("sorted", "%s keeps the list sorted" % f.short, r is None, n.loc, "a partition may be added out of place")
        # reading existing ones: sorted when all were read
        seen, todo = set(), [f.id]
        while todo:
            x = todo.pop()
            for c in set(cr.get(x, ())) | set(p.refs.get(x, ())):
                if c in seen or c not in p.funcs:
                    continue
                h = Graph(p, p.funcs[c])
                cs = [m for m in h if m.k == "call" and m.ev["e"][0] == "c" and (m.ev["e"][1] == x or any(s == ("fn", x) for a in args(m) for s in walk(a)))]
                if x == f.id:
                    cs = [m for m in cs if any(const_of(a) == 1 for a in args(m)[1:2])]
                if not cs:
                    continue
                seen.add(c)
                if all(escapes(h, m, sorts_list) is None for m in cs):
                    ctx.ob("sorted", "%s sorts what it read" % p.funcs[c].short, True, p.funcs[c].loc())
                elif not [y for y in set(cr.get(c, ())) | set(p.refs.get(c, ())) if y in p.funcs and y != c]:
                    ctx.ob("sorted", "%s sorts what it read" % p.funcs[c].short, False, cs[0].loc, "partitions stay in the order of the directory")
                else:
                    todo.append(c)


def elem(e):
    """an element of the list of partitions"""
    return any(s[0] == "c" and s[2] is not None and is_global(s[2], PARTS) and (any(k in short(s[1]) for k in ("::at", "::front", "::back")) or "operator[]" in s[1]) for s in walk(e))


def find(ctx, p):
    fs = [f for f in p.funcs.values() if f.ret == "Tsdb *" and any(x["t"] == "unsigned long" for x in f.params) and
          any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "Tsdb::in_range_strictly" for ev in f.events())]
    need_some(fs, "functions looking for the partition of a time")
    for f in fs:
        ctx.analysed(f)
        g = Graph(p, f)
        test = [n for n in g if is_call(n, "Tsdb::in_range_strictly")]
        ts = next(x for x in f.params if x["t"] == "unsigned long")
        def says(l):
            """what an edge says about the result: set of signs possible"""
            out = {-1, 0, 1}
            for e, t in plain(g, l):
                x = strip_cast(e)
                if x[0] == "b" and const_of(x[3]) is not None and any(mentions_call(o, "Tsdb::in_range_strictly") for o in origins(g, x[2])):
                    out &= {v for v in (-1, 0, 1) if OPS[x[1]](v, const_of(x[3])) == t}
                elif x[0] in ("c", "v") and any(mentions_call(o, "Tsdb::in_range_strictly") for o in origins(g, x)):
                    out &= {v for v in (-1, 0, 1) if bool(v) == t}
            return out
        ctx.ob("find", "%s asks for the time given" % f.short, all(any(s[0] == "v" and s[2] == (0, ts["id"]) for o in origins(g, args(n)[0], ("validate_resolution",)) for s in walk(o)) for n in test), f.loc(), "another time is looked for")
        down = any(m.k == "asg" and m.ev["op"] in ("--", "-=") for m in g) or any(n.k == "call" and "rbegin" in call_name(n) for n in g)
        for n in test:
            lp = loop_of(g, n)
            ctx.ob("find", "%s looks at every partition" % f.short, lp is not None, n.loc, "only one is looked at")
            if not lp:
                continue
            h, body = lp
            whole(ctx, g, f, n, down)
            # leaving the loop: found, or the rest lies on the other side
            todo = [(s, frozenset((-1, 0, 1))) for s, l in n.succ if not (l and l[0] == "eh")]
            bad, wrong = None, None
            done = set()
            while todo:
                x, sg = todo.pop()
                if (x, sg) in done:
                    continue
                done.add((x, sg))
                m = g.nodes[x]
                if x not in body and (-1 in sg and down or 1 in sg and not down):
                    bad = m
                if x == h:
                    if 0 in sg:
                        bad = m
                    continue
                if m.k == "ret" and m.ev.get("e") is not None and sg != {0}:
                    v = strip_cast(m.ev["e"])
                    if v[0] == "v" and v[3] == "l" and not any(strip_cast(d)[0] == "n" for d in common._defs(g).get(v[2], ())) or v[0] == "c":
                        wrong = m
                for s, l in m.succ:
                    if l and l[0] in ("eh", "throw"):
                        continue
                    k = sg & frozenset(says(l)) if l and l[0] == "cond" else sg
                    if k:
                        todo.append((s, frozenset(k)))
            ctx.ob("find", "%s stops only where it must" % f.short, bad is None, n.loc, "the partition may be passed over, or the search ends before it")
            ctx.ob("find", "%s returns the one found" % f.short, wrong is None, n.loc, "the time may not be in its range")
        # the one made for it
        for f2 in p.funcs.values():
            if f2.ret == "Tsdb *" and any(ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][1] == f.id for ev in f2.events()) and any(x["t"] == "unsigned long" for x in f2.params):
                g2 = Graph(p, f2)
                t2 = next(x for x in f2.params if x["t"] == "unsigned long")
                mine = lambda e: any(s[0] == "v" and s[2] == (0, t2["id"]) for o in list(origins(g2, e, ("validate_resolution",))) + [e] for s in walk(o))
                for n in g2:
                    if is_call(n, "Tsdb::create"):
                        a = strip_cast(args(n)[0])
                        got = lambda m: is_call(m, "Tsdb::get_range") and strip_cast(args(m)[1]) == a and mine(args(m)[0])
                        ctx.ob("find", "%s makes the partition of the time" % f2.short, preceded(g2, n, got), n.loc, "the range is not that of the time asked for")
                        none = lambda s, l: any(null_test(e, t) for e, t in truths(l))
                        r = paths(g2).search([g2.entry], lambda m: m is n, stop_edge=none)
                        ctx.ob("find", "%s makes a partition only if there is none" % f2.short, r is None, n.loc, "there may be one already")


def whole(ctx, g, f, n, down):
    """the loop goes from one end of the list to the other"""
    h, body = loop_of(g, n)
    i = index_of(g, body)
    if i is None:
        return
    size = lambda e: len(terms(g, e)) == 1 and any(q[0] == "c" and "::size" in q[1] for o in origins(g, e) for q in walk(o))
    def last(e):
        t = dict(terms(g, e))
        return t.pop((), 0) == -1 and len(t) == 1 and any(q[0] == "c" and "::size" in q[1] for o in origins(g, e) for q in walk(o))
    dec = lambda m: m.k == "asg" and m.ev["op"] in ("--", "-=") and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == i
    # counted down before the element is taken
    before = down and paths(g).search([g.nodes[h]], lambda m: m is n, stop=dec) is None
    ok = True
    for m in g:
        e = m.ev["rhs"] if m.k == "asg" and m.ev["op"] == "=" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == i else m.ev.get("init") if m.k == "decl" and m.ev["id"] == i else None
        if e is not None:
            ok = ok and ((size(e) if before else last(e)) if down else terms(g, e) in ({}, {(): 0}))
    for x in body:
        for s, l in g.nodes[x].succ:
            if s in body:
                continue
            for e, t in truths(l) if l else ():
                e = strip_cast(e)
                if e[0] == "b" and e[1] in OPS and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[2] == i and down:
                    c = const_of(e[3])
                    # the first element is looked at
                    if c is None or OPS[e[1]](1 if before else 0, c) == t:
                        ok = False
    ctx.ob("find", "%s goes through the whole list" % f.short, ok, n.loc, "an end of the list is left out")


OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def every(ctx, p):
    fs = []
    for f in p.funcs.values():
        if f.cls == "Tsdb" and any("TimeRange" in x["t"] for x in f.params) and any("vector<Tsdb *" in x["t"] for x in f.params):
            fs.append(f)
    need_some(fs, "functions collecting the partitions of a range")
    for f in fs:
        ctx.analysed(f)
        g = Graph(p, f)
        out = next(x for x in f.params if "vector<Tsdb *" in x["t"])
        rng = next(x for x in f.params if "TimeRange" in x["t"])
        puts = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "v" and strip_cast(n.ev["e"][2])[2] == (0, out["id"]) and "push_back" in n.ev["e"][1]]
        put = lambda m: m in puts
        hit = lambda e: any(s[0] == "c" and short(s[1]) in ("Tsdb::in_range", "TimeRange::has_intersection") for o in origins(g, e) for s in walk(o))
        for n in puts:
            lp = loop_of(g, n)
            ctx.ob("all", "%s goes through the partitions" % f.short, lp is not None, n.loc, "only one is taken")
            if not lp:
                continue
            h, body = lp
            takes = [m for m in g if m.id in body and (m.k in ("asg", "decl")) and elem_or_iter(m)]
            for m in takes:
                r = paths(g).search([m], lambda q: q.id == h, stop=put, stop_edge=lambda s, l: edge_is(l, hit, False))
                ctx.ob("all", "%s takes those the range touches" % f.short, r is None, m.loc, "one may be passed over")
            if takes:
                le = [x for x, l in left_early(g, takes[0])]
                ctx.ob("all", "%s goes on to the last" % f.short, not le, n.loc, "the loop is left early")
            # where it starts and ends
            i = index_of(g, body)
            if i is None:
                continue
            for m in g:
                if m.k == "asg" and m.ev["op"] == "=" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == i and m.id not in body or m.k == "decl" and m.ev["id"] == i and m.ev.get("init") is not None:
                    bound(ctx, g, f, m, strip_cast(m.ev.get("rhs") or m.ev.get("init")), "from")
            for m in (g.nodes[x] for x in body):
                for s, l in m.succ:
                    for e, t in truths(l) if l else ():
                        e = strip_cast(e)
                        if e[0] == "b" and e[1] in ("<=", "<") and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[2] == i and t:
                            if e[1] == "<=":
                                bound(ctx, g, f, m, strip_cast(e[3]), "to")
                            else:
                                v = strip_cast(e[3])
                                sz = lambda y: y[0] == "c" and "::size" in y[1]
                                if v[0] == "b" and v[1] == "+" and const_of(v[3]) == 1:
                                    bound(ctx, g, f, m, strip_cast(v[2]), "to")
                                else:
                                    ctx.ob("all", "%s ends at the last" % f.short, all(sz(strip_cast(o)) for o in origins(g, v)) and len(terms(g, v)) == 1, m.loc, "the last one may be missing")
        # giving up at once
        def nothing(x, t):
            r = rel(g, x, t)
            if r and (r[0], r[1]) in ((("part", "to"), ("query", "from")), (("query", "to"), ("part", "from"))):
                return True
            if x[0] == "b" and x[1] in OPS and const_of(x[3]) is not None and any(q[0] == "c" and "::size" in q[1] and is_global(q[2], PARTS) for o in origins(g, x[2]) for q in walk(o)):
                return OPS[x[1]](0, const_of(x[3])) == t and OPS[x[1]](1, const_of(x[3])) != t
            return x[0] == "c" and "::empty" in x[1] and t
        none = lambda s, l: implies(g, l, nothing)
        hs = {loop_of(g, n)[0] for n in puts if loop_of(g, n)}
        r = paths(g).search([g.entry], lambda m: m is g.exit, stop=lambda m: m.id in hs or put(m), stop_edge=none)
        ctx.ob("all", "%s gives up only if there can be none" % f.short, r is None, f.loc(), "it returns without looking")
        # first and last of the list
        for n in g:
            for s, l in n.succ:
                for e, t in truths(l) if l and l[0] == "cond" else ():
                    x = strip_cast(e)
                    if x[0] == "b" and rel(g, e, t):
                        for y in x[2:4]:
                            y = strip_cast(y)
                            if y[0] == "v" and y[3] == "l":
                                k = end_of(g, y)
                                for o in origins(g, y):
                                    if k and k[0] == "part" and elem(o):
                                        first = any(q[0] == "c" and ("operator[]" in q[1] and const_of(q[3][0]) == 0 or "::front" in q[1]) for q in walk(o))
                                        ctx.ob("all", "%s: %s of the list" % (f.short, "start" if k[1] == "from" else "end"), first == (k[1] == "from"), n.loc, "it is taken from the wrong end")
    for f in p.all("Tsdb::in_range"):
        if len(f.params) == 1 and "TimeRange" in f.params[0]["t"]:
            bad = None
            for d in cases("fegh", 4, lambda d: d["f"] < d["e"] and d["g"] < d["h"]):
                v = attempt(lambda: evaluate(p, f, "a", [("p", "b")], {"a.m_time_range.m_from": d["f"], "a.m_time_range.m_to": d["e"], "b.m_from": d["g"], "b.m_to": d["h"]})[0])
                if v is None or bool(v) != (d["f"] < d["h"] and d["g"] < d["e"]):
                    bad = "%d to %d and %d to %d" % (d["f"], d["e"], d["g"], d["h"])
                    break
            ctx.ob("all", "%s tells whether they touch" % f.short, bad is None, f.loc(), "wrong for %s" % bad)


def elem_or_iter(m):
    e = m.ev.get("rhs") if m.k == "asg" else m.ev.get("init")
    return e is not None and (elem(e) or any(s[0] == "c" and "operator*" in s[1] for s in walk(e)))


def index_of(g, body):
    """the variable indexing the list in a loop"""
    for x in body:
        m = g.nodes[x]
        for e in event_exprs(m):
            for s in walk(e):
                if s[0] == "c" and s[2] is not None and is_global(s[2], PARTS) and "operator[]" in s[1] and strip_cast(s[3][0])[0] == "v":
                    return strip_cast(s[3][0])[2]
    return None


def bound(ctx, g, f, at, v, side):
    """the loop starts (ends) at v: before it lies nothing the range touches"""
    what = "%s %s" % (f.short, "starts early enough" if side == "from" else "ends late enough")
    last = lambda e: any(q[0] == "c" and "::size" in q[1] for o in origins(g, e) for q in walk(o))
    t = terms(g, v)
    if side == "from" and t == {(): 0}:
        ctx.ob("all", what, True, at.loc)
        return
    if v[0] != "v":
        ctx.ob("all", what, side == "to" and last(v), at.loc, "partitions may be left out")
        return
    def enough(x, t):
        r = rel(g, x, t)
        if r:
            if side == "from" and r[0] == ("part", "from") and r[1] == ("query", "from"):
                return True
            if side == "to" and r[0] == ("query", "to") and r[1] == ("part", "to"):
                return True
        if x[0] == "b" and x[1] in OPS and strip_cast(x[2]) == v:
            # nothing before the first, nothing behind the last
            if side == "from" and const_of(x[3]) is not None:
                return all(OPS[x[1]](k, const_of(x[3])) != t for k in (1, 2, 3))
            if side == "to" and last(x[3]):
                c = terms(g, x[3]).get((), 0)
                return all(OPS[x[1]](k, c) != t for k in (-2, -3, -4))
        return False
    def fine(s, l):
        return implies(g, l, enough)
    bad = None
    for m in g:
        if m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == v[2] or m.k == "decl" and m.ev["id"] == v[2] and m.ev.get("init") is not None:
            r = m.ev.get("rhs") or m.ev.get("init")
            fetch = lambda q: q.k in ("asg", "decl") and elem_or_iter(q) and any(s[0] == "v" and s[2] == v[2] for s in walk(q.ev.get("rhs") or q.ev.get("init")))
            if paths(g).search([m], lambda q: q is at, stop_edge=fine) is not None:
                bad = bad or m
            # compared is the partition it stands for
            for n in g:
                for s, l in n.succ:
                    if l and l[0] == "cond" and any(rel(g, e, t2) and {rel(g, e, t2)[0], rel(g, e, t2)[1]} == {("part", side), ("query", side)} and uses_var(g, e) for e, t2 in truths(l)):
                        if paths(g).search([m], lambda q: q is n, stop=fetch) is not None:
                            bad = bad or n
    ctx.ob("all", what, bad is None, at.loc, "partitions may be left out (see line %s)" % (bad.line if bad else ""))


def uses_var(g, e):
    """the partition compared is one held in a variable assigned more than once"""
    return any(s[0] == "v" and len(common._defs(g).get(s[2], ())) > 1 for s in walk(e))


# ---- pages

def place(ctx, p):
    fs = [f for f in p.funcs.values() if f.cls == "TimeSeries" and any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "PageInMemory::add_data_point" for ev in f.events())]
    need_some(fs, "functions adding a point to a page")
    for f in fs:
        ctx.analysed(f)
        callers = [x for x in p.funcs.values() if x.cls == "TimeSeries" and x.id != f.id and any(ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][1] == f.id for ev in x.events())]
        pub = f
        ids = {x.id for x in fs}
        g = Graph(p, f, inline=lambda fn, e, d: fn.cls == "TimeSeries" and fn.id not in ids)
        for n in g:
            if not is_call(n, "PageInMemory::add_data_point"):
                continue
            buf = page_of(n.ev["e"][2])
            ts = torig(g, args(n)[0])
            def same(x, t):
                for c in calls_in(g, x):
                    if short(c[1]) == "PageInMemory::in_range_strictly" and page_of(c[2]) == buf and torig(g, c[3][0]) == ts:
                        if x[0] == "b" and const_of(x[3]) == 0 and x[1] in ("==", "!="):
                            return (x[1] == "==") == t
                        if x[0] != "b" and not (x[0] == "v" and x[4] == "bool"):
                            return not t
                return False
            inside = lambda s, l: implies(g, l, same)
            def opened(m):
                # a page made, or set up, for the partition of the time
                if m.k == "asg" and page_of(m.ev["lhs"]) == buf:
                    nw = [s for s in walk(m.ev["rhs"]) if s[0] == "new" or s[0] == "k"]
                    return any(part_for(g, a, ts) for s in nw for q in walk(s) for a in (q[3] if q[0] == "k" else ()))
                if is_call(m, "PageInMemory::init") and page_of(m.ev["e"][2]) == buf:
                    return any(part_for(g, a, ts) for a in args(m))
                return False
            r = paths(g).search([g.entry], lambda m: m is n, stop=opened, stop_edge=inside)
            ctx.ob("place", "%s adds to %s" % (f.short, buf), r is None, n.loc, "the page may belong to another partition")
        # set up for another partition only through the partition of the time
        for m in g:
            if is_call(m, "PageInMemory::init"):
                a = [x for x in args(m) if any(strip_cast(o)[0] in ("n", "c", "v") for o in origins(g, x))][2:3]
                x = args(m)[2] if len(args(m)) > 2 else None
                if x is None:
                    continue
                o = origins(g, x)
                ok = all(strip_cast(y)[0] == "n" for y in o) or any(is_ext_call(y, "Tsdb::inst") for y in o)
                ctx.ob("place", "%s sets up a page" % f.short, ok, m.loc, "for a partition that was not looked up")


def page_of(e):
    e = strip_cast(e) if e is not None else ("n",)
    return e[2] if e[0] == "m" else repr(e) if e[0] == "v" else None


def torig(g, e):
    return frozenset(repr(o) if o[0] != "c" else (short(o[1]), repr(strip_cast(o[2]) if o[2] is not None else None)) for o in origins(g, e, ("validate_resolution",)))


def calls_in(g, x):
    seen = []
    for o in [x] + list(origins(g, x[2] if x[0] == "b" and x[1] in OPS else x)):
        for s in walk(o):
            if s[0] == "c" and s not in seen:
                seen.append(s)
    return seen


def part_for(g, e, ts):
    return any(o[0] == "c" and short(o[1]) == "Tsdb::inst" and torig(g, o[3][0]) == ts for o in origins(g, e))


def page(ctx, p):
    added = lambda fr, e: 1 if e[0] == "c" and short(e[1]).endswith("::compress") else None
    for f in p.all("PageInMemory::add_data_point"):
        ctx.analysed(f)
        bad = None
        for d in cases("tfe", 4):
            st = attempt(lambda: evaluate(p, f, "a", [("i", 10 + d["t"]), None], {"a.m_start": 10, "a.m_tstamp_from": d["f"], "a.m_page_header.m_tstamp_to": d["e"]}, added)[1])
            if st is None or (st.get("a.m_tstamp_from"), st.get("a.m_page_header.m_tstamp_to")) != (min(d["f"], d["t"]), max(d["e"], d["t"] + 1)):
                bad = "a point at %d, range %d to %d" % (d["t"], d["f"], d["e"])
                break
        ctx.ob("page", "%s widens the range" % f.short, bad is None, f.loc(), "wrong for %s" % bad)
        # compressed with the time that is compared
    for f in p.all("PageInMemory::restore"):
        g = Graph(p, f)
        ctx.analysed(f)
        w = [n for n in g if writes_field(n, "page_info_on_disk::m_tstamp_to")]
        lp = loop_of(g, w[0]) if w else None
        if not lp:
            ctx.ob("page", "%s widens the range" % f.short, False, f.loc(), "not for every point")
            continue
        h, body = lp
        dp = next((n for n in g if n.id in body and n.k == "decl" and n.ev.get("init") is not None and any(s[0] == "m" and s[2].endswith("::first") or s[0] == "c" and "operator*" in s[1] for s in walk(n.ev["init"]))), None)
        bad = None
        for d in cases("tfe", 4):
            ev = Eval(p, {"a.m_start": 10, "a.m_tstamp_from": d["f"], "a.m_page_header.m_tstamp_to": d["e"]},
                      lambda fr, e: 10 + d["t"] if e[0] == "m" and e[2].endswith("::first") else None)
            fr = Frame(ev, g, "a", 1, 0)
            fr.bind[(0, f.params[0]["id"])] = ("i", 10)
            r = attempt(lambda: fr.run(dp, lambda n: n.id == h)) if dp else None
            if r is None or (ev.store.get("a.m_tstamp_from"), ev.store.get("a.m_page_header.m_tstamp_to")) != (min(d["f"], d["t"]), max(d["e"], d["t"] + 1)):
                bad = "a point at %d, range %d to %d" % (d["t"], d["f"], d["e"])
                break
        ctx.ob("page", "%s widens the range" % f.short, bad is None, f.loc(), "wrong for %s" % bad)
    for f in p.all("PageInMemory::get_time_range"):
        g = Graph(p, f)
        ctx.analysed(f)
        k = [s for n in g if n.k == "ret" for s in walk(n.ev["e"]) if s[0] == "k" and s[1] == "TimeRange" and len(s[3]) == 2]
        if not k:
            k = [n.ev["e"] for n in g if n.k == "ctor" and n.ev["e"][1] == "TimeRange" and len(n.ev["e"][3]) == 2]
        ok = bool(k) and terms(g, k[0][3][0]) == {("m", "PageInMemory::m_tstamp_from"): 1, ("m", "PageInMemory::m_start"): 1} and \
            terms(g, k[0][3][1]) == {("m", "page_info_on_disk::m_tstamp_to"): 1, ("m", "PageInMemory::m_start"): 1}
        ctx.ob("page", "%s gives the range" % f.short, ok, f.loc(), "it is not that of the points")
    # the start that times in a page are relative to
    for f in p.all("PageInMemory::init"):
        g = Graph(p, f)
        for n in g:
            if writes_field(n, "PageInMemory::m_tsdb") and strip_cast(n.ev["rhs"])[0] != "n":
                sets = lambda m: writes_field(m, "PageInMemory::m_start") and any(mentions_call(o, "TimeRange::get_from") for o in origins(g, m.ev["rhs"]))
                ok = escapes(g, n, sets) is None or preceded(g, n, sets)
                ctx.ob("page", "%s, %d parameters, starts at the partition" % (f.short, len(f.params)), ok, n.loc, "times would be relative to another partition")


# ---- queries

def start(ctx, p):
    writer, reader = [], []
    for f in p.funcs.values():
        if f.cls != "Tsdb":
            continue
        evs = list(f.events())
        if any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "Tsdb::set_indices" for ev in evs):
            writer.append(f)
        if any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "IndexFile::get_indices2" for ev in evs) and any("TimeRange" in x["t"] for x in f.params):
            reader.append(f)
    need_some(writer, "functions filing a page")
    need_some(reader, "functions looking up the first page of a query")
    def middle(fr, e, m):
        return m if e[0] == "c" and short(e[1]) == "TimeRange::get_middle" else None
    W = []
    for f in writer:
        ctx.analysed(f)
        g = Graph(p, f)
        for n in g:
            if is_call(n, "Tsdb::set_indices"):
                c = args(n)[-1]
                def crossed(m, to, start_, c=c, g=g):
                    ev = Eval(p, {}, lambda fr, e: m if e[0] == "c" and short(e[1]) == "TimeRange::get_middle" else start_ if e[0] == "c" and short(e[1]) == "TimeRange::get_from" else
                              to - start_ if e[0] == "m" and e[2].endswith("m_tstamp_to") else subst(g, fr, e))
                    return ev_val(ev, g, c)
                W.append((f, n, crossed))
    R = []
    for f in reader:
        ctx.analysed(f)
        g = Graph(p, f)
        for n in g:
            if is_call(n, "IndexFile::get_indices2"):
                conds = []
                for m in g:
                    for s, l in m.succ:
                        if l and l[0] == "cond" and any(s2[0] == "c" and short(s2[1]) == "TimeRange::get_middle" for o in truths_orig(g, l) for s2 in walk(o)):
                            if paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda a, b: a is m and b == l) is None:
                                conds.append(l)
                for m in g:
                    for s, l in m.succ:
                        # a condition kept in a variable
                        if l and l[0] == "cond" and not conds and plain(g, l) != truths(l) and any(s2[0] == "c" and short(s2[1]) == "TimeRange::get_middle" for e, t in plain(g, l) for o in truths_orig(g, ("cond", e, t)) for s2 in walk(o)):
                            if paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda a, b: a is m and b == l) is None:
                                conds.append(l)
                R.append((f, g, n, conds))
                first = lambda q: is_call(q, "IndexFile::get_indices")
                if conds:
                    r = None
                    for m in g:
                        for s, l in m.succ:
                            if l and l[0] == "cond" and l[1] == conds[0][1] and l[2] != conds[0][2]:
                                r = r or paths(g).search([m, g.nodes[s]][1:], lambda q: is_call(q, "QueryTask::set_indices") or q is g.exit, stop=lambda q: is_call(q, "IndexFile::get_indices"))
                    ctx.ob("start", "%s starts at the first page otherwise" % f.short, r is None, n.loc, "no page is looked up")
    for f, g, n, conds in R:
        bad = None
        if not conds:
            bad = "any range: the start of the range is not compared"
        for fw, nw, crossed in W:
            for d in cases("mtqs", 4, lambda d: d["s"] <= d["m"] and d["t"] > d["s"]):
                if bad:
                    break
                use = True
                for l in conds:
                    for e, t in plain(g, l):
                        ev = Eval(p, {}, lambda fr, x: d["m"] if x[0] == "c" and short(x[1]) == "TimeRange::get_middle" else d["q"] if x[0] == "c" and short(x[1]) == "TimeRange::get_from" else subst(g, fr, x))
                        v = attempt(lambda: ev_val(ev, g, e))
                        if v is None:
                            bad = "any range: what is compared is not known"
                        elif bool(v) != t:
                            use = False
                if use and not bad and d["t"] > d["q"]:
                    c = attempt(lambda: crossed(d["m"], d["t"], d["s"]))
                    if not c:
                        bad = "a range from %d: a page up to %d, middle %d, comes before the page started at" % (d["q"], d["t"], d["m"])
        ctx.ob("start", "%s starts early enough" % f.short, bad is None, n.loc, "wrong for %s" % bad)


def truths_orig(g, l):
    out = []
    for e, t in truths(l):
        for s in walk(e):
            out.append(s)
            if s[0] == "v":
                out += list(origins(g, s))
    return out


def subst(g, fr, e):
    """value of a variable with one definition"""
    if e[0] == "v" and e[3] == "l":
        ds = common._defs(g).get(e[2], ())
        if len(ds) == 1:
            return fr.val(ds[0])
    return None


def ev_val(ev, g, e):
    return Frame(ev, g, "this", 1, 0).val(e)


def chain(ctx, p):
    for f in p.funcs.values():
        if f.cls != "Tsdb" or not any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "QueryTask::add_container" for ev in f.events()):
            continue
        ctx.analysed(f)
        g = Graph(p, f)
        got = [n for n in g if is_call(n, "HeaderFile::get_page_header")]
        k = [n for n in g if n.k == "ctor" and n.ev["e"][1] == "TimeRange" and len(n.ev["e"][3]) == 2]
        for n in k:
            a = n.ev["e"][3]
            t = terms(g, a[1])
            t2 = {x: v for x, v in t.items() if not (x and x[0] == "c" and x[1] == "TimeRange::get_from")}
            ctx.ob("chain", "%s: end of the page" % f.short, t2 == {("m", "page_info_on_disk::m_tstamp_to"): 1} and len(t) == 2, n.loc, "it is not where the page ends")
            low = True
            for o in origins(g, a[0]):
                c = const_of(o)
                if c is not None:
                    low = low and c == 0
                else:
                    low = low and all(not (s[0] == "m" and s[2].endswith("m_tstamp_to")) and not is_ext_call(s, "TimeRange::get_to") for s in walk(o))
            ctx.ob("chain", "%s: start of the page" % f.short, low, n.loc, "points before it would be missed")
        apart = lambda x, t: not t and x[0] == "c" and short(x[1]) == "TimeRange::has_intersection"
        for n in got:
            r = paths(g).search([n], lambda m: m is g.exit, stop=lambda m: is_call(m, "QueryTask::add_container"), stop_edge=lambda s, l: implies(g, l, apart))
            ctx.ob("chain", "%s reads pages the range touches" % f.short, r is None, n.loc, "a page may be passed over")
        nxt = lambda m: is_call(m, "QueryTask::set_indices") and all(mentions_call(a, x) or any(mentions_call(o, x) for o in origins(g, a)) for a, x in
                                                                    zip(args(m), ("page_info_on_disk::get_next_file", "page_info_on_disk::get_next_header")))
        # the page ends behind the range
        over = lambda s, l: implies(g, l, lambda x, t: rel2(g, x, t) == ("query", "page"))
        r = paths(g).search(got, lambda m: m is g.exit, stop=nxt, stop_edge=over)
        ctx.ob("chain", "%s goes on to the next page" % f.short, r is None, f.loc(), "the rest of the chain is not read")
        # with points out of order, the end of one page says nothing
        ooo = lambda e: any(is_ext_call(strip_cast(o), "Tsdb::get_out_of_order") for o in origins(g, e))
        ends = [m for m in g if is_call(m, "QueryTask::set_indices") and not nxt(m)]
        for m in ends:
            r = paths(g).search(got, lambda q: q is m, stop_edge=lambda s, l: implies(g, l, lambda x, t: not t and x[0] in ("c", "v") and ooo(x)))
            ctx.ob("chain", "%s reads all pages if points are out of order" % f.short, r is None, m.loc, "later pages may hold earlier points")
    # every task is taken up again until its chain ends
    for f in p.funcs.values():
        if f.cls == "Tsdb" and any("TimeRange" in x["t"] for x in f.params) and any("QueryTask" in x["t"] for x in f.params):
            g = Graph(p, f)
            ctx.analysed(f)
            read = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) == "Tsdb::query_for_data"]
            again = lambda m: m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).endswith(("::push", "::emplace"))
            bad = lambda s, l: any(invalid(e, t) for e, t in truths(l))
            for n in read:
                r = paths(g).search([n], lambda m: m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).endswith("::top") or m is g.exit, stop=again, stop_edge=bad)
                ctx.ob("chain", "%s goes on with the series" % f.short, r is None, n.loc, "its next page is not read")
            for n in g:
                if is_call(n, "IndexFile::get_indices", "IndexFile::get_indices2"):
                    r = paths(g).search([n], lambda m: m is g.exit, stop=again, stop_edge=bad)
                    ctx.ob("chain", "%s takes up every series" % f.short, r is None, n.loc, "one is left out")
                    given = lambda m: is_call(m, "QueryTask::set_indices")
                    r = paths(g).search([n], again, stop=given, stop_edge=bad)
                    ctx.ob("chain", "%s starts at the page looked up" % f.short, r is None, n.loc, "it starts elsewhere")


def invalid(e, t):
    """says that an index is invalid"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("==", "!="):
        return False
    c = const_of(e[3])
    return c is not None and c > 65000 and (e[1] == "==") == t


def rel2(g, e, t):
    """('query', 'page'): the end of the query range is before the end of the page"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return None
    a, b, op = e[2], e[3], e[1]
    if op in (">", ">="):
        a, b, op = b, a, "<" if op == ">" else "<="
    if not t:
        a, b, op = b, a, "<=" if op == "<" else "<"
    def side(x):
        for o in origins(g, x):
            o = strip_cast(o)
            if o[0] == "c" and short(o[1]) == "TimeRange::get_to":
                base = strip_cast(o[2])
                if any(mentions_call(y, "QueryTask::get_query_range") for y in origins(g, base)):
                    return "query"
                return "page"
            if o[0] == "m" and o[2].endswith("m_tstamp_to"):
                return "page"
        return None
    return (side(a), side(b)) if op == "<" else None


def memory(ctx, p):
    for f in p.funcs.values():
        if f.cls != "TimeSeries" or not any("DataPointContainer" in x["t"] for x in f.params) or not any("TimeRange" in x["t"] for x in f.params):
            continue
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: fn.file == f.file and fn.cls in ("TimeSeries", None, ""))
        bufs = [x["n"] for x in p.records["TimeSeries"]["fields"] if "PageInMemory" in x["t"]]
        for b in bufs:
            fl = "TimeSeries::" + b
            of = lambda e: any(s[0] == "m" and s[2] == fl for o in [e] + list(origins(g, e)) for s in walk(o))
            taken = lambda m: is_call(m, "DataPointContainer::collect_data") and any(of(a) for a in args(m))
            isbuf = lambda e: any(strip_cast(o)[0] == "m" and strip_cast(o)[2] == fl for o in origins(g, e))
            gets = lambda x: any(s2[0] == "c" and short(s2[1]) == "PageInMemory::get_tsdb" and of(s2[2]) for y in x[2:4] for o in origins(g, y) for s2 in walk(o))
            def lacks(x, t):
                if x[0] in ("m", "v") and isbuf(x) or x[0] == "b" and x[1] in ("==", "!=") and isbuf(x[2]):
                    return null_test(x, t)
                if x[0] == "c" and short(x[1]) == "PageInMemory::is_empty":
                    return of(x[2]) and t
                if x[0] == "b" and x[1] in ("==", "!=") and gets(x):
                    return (x[1] == "!=") == t
                return x[0] == "c" and short(x[1]) == "TimeRange::has_intersection" and in_reach(g, x, fl) and not t
            without = lambda s, l: implies(g, l, lacks)
            r = paths(g).search([g.entry], lambda m: m is g.exit, stop=taken, stop_edge=without)
            ctx.ob("memory", "%s looks at %s" % (f.short, fl), r is None, f.loc(), "its points may be missing")
            for n in g:
                if taken(n):
                    v = strip_cast(n.ev["e"][2])
                    kept = lambda m: m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).endswith(("::push_back", "::emplace_back")) and any(strip_cast(a) == v for a in args(m))
                    ctx.ob("memory", "%s returns the points of %s" % (f.short, fl), escapes(g, n, kept) is None, n.loc, "they are not passed on")
                    # only those of this partition
                    same = lambda s, l: implies(g, l, lambda x, t: x[0] == "b" and x[1] in ("==", "!=") and (x[1] == "==") == t and gets(x))
                    r = paths(g).search([g.entry], lambda m: m is n, stop_edge=same)
                    ctx.ob("memory", "%s asks for the partition of %s" % (f.short, fl), r is None, n.loc, "points would be returned for each partition")
    # from file and from memory, for each partition and series
    for f in p.funcs.values():
        if f.cls != "QuerySuperTask":
            continue
        g = Graph(p, f)
        for n in g:
            if is_call(n, "Tsdb::query_for_data"):
                ctx.analysed(f)
                tasks = args(n)[2]
                it = [m for m in g if is_call(m, "QueryTask::query_ts_data") and len(args(m)) == 2]
                ctx.ob("memory", "%s asks for pages in memory" % f.short, bool(it) and paths(g).search([n], lambda m: m is g.exit, stop=lambda m: loop_head_of(g, m, it)) is None, n.loc, "only filed pages are read")
                for m in it:
                    mg = lambda q: is_call(q, "QueryTask::merge_data")
                    r = paths(g).search(after(g, m), lambda q: q is g.exit or q is m, stop=mg)
                    ctx.ob("memory", "%s merges what it read" % f.short, r is None, m.loc, "it is not taken over")
                    ctx.ob("memory", "%s asks every series" % f.short, not left_early(g, m) and self_skip(g, m) is None, m.loc, "a series may be left out")
                    ok = same_arg(g, args(m)[0], n.ev["e"][2])
                    ctx.ob("memory", "%s asks for the same partition" % f.short, ok, m.loc, "another partition is asked for")


def same_arg(g, a, b):
    return strip_cast(a) == strip_cast(b)


def loop_head_of(g, m, it):
    return any(loop_of(g, x) and loop_of(g, x)[0] == m.id for x in it) or m in it


def self_skip(g, m):
    """an iteration of the loop around m that leaves m out"""
    lp = loop_of(g, m)
    if not lp:
        return None
    h, body = lp
    entry = [g.nodes[s] for s, l in g.nodes[h].succ if s in body]
    if not entry:
        entry = [g.nodes[s] for x in body for s, l in g.nodes[x].succ if s in body and l and l[0] == "cond" and any(s2 not in body for s2, _ in g.nodes[x].succ)]
    return paths(g).search(entry, lambda q: q.id == h, stop=lambda q: q is m)


def in_reach(g, c, fl):
    """has_intersection of the range of this page"""
    for x in [c[2]] + list(c[3]):
        for o in [x] + list(origins(g, x)):
            for s in walk(o):
                if s[0] == "c" and short(s[1]) == "PageInMemory::get_time_range" and page_of(s[2]) == fl:
                    return True
    return False


def point(ctx, p):
    fs = [f for f in p.funcs.values() if f.cls == "QueryTask" and any("TimeRange" in x["t"] for x in f.params) and
          any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "DataPointContainer::get_data_point" for ev in f.events())]
    need_some(fs, "functions taking over the points of a page")
    for f in fs:
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: fn.cls == "QueryTask" and fn.id != f.id)
        tests = [n for n in g if is_call(n, "TimeRange::in_range")]
        ctx.ob("point", "%s looks at the range" % f.short, bool(tests), f.loc(), "points outside the range are returned")
        keeps = lambda m: m.k == "call" and m.ev["e"][0] == "c" and (m.ev["e"][2] is not None and mentions_field(m.ev["e"][2], "QueryTask::m_dps") and short(m.ev["e"][1]).endswith(("push_back", "emplace_back"))
                                                                     or short(m.ev["e"][1]) == "Downsampler::add_data_point")
        def holds(m):
            # kept in a variable until the next one is seen
            return m.k == "asg" and m.ev["lhs"][0] in ("v", "m") and "pair" in (m.ev["lhs"][4] if m.ev["lhs"][0] == "v" else m.ev["lhs"][2]) or \
                m.k == "call" and m.ev["e"][0] == "c" and "pair" in m.ev["e"][1] and "operator=" in m.ev["e"][1]
        def where(x, t):
            """signs of the test that are possible"""
            out = {-1, 0, 1}
            if x[0] == "b" and x[1] in OPS and const_of(x[3]) is not None and any(mentions_call(o, "TimeRange::in_range") for o in origins(g, x[2])):
                out = {v for v in out if OPS[x[1]](v, const_of(x[3])) == t}
            elif x[0] in ("c", "v") and x[0] != "v" or x[0] == "v" and x[4] == "int":
                if any(mentions_call(o, "TimeRange::in_range") for o in origins(g, x)):
                    out = {v for v in out if bool(v) == t}
            return out
        outside = lambda s, l: implies(g, l, lambda x, t: 0 not in where(x, t))
        inside = lambda s, l: implies(g, l, lambda x, t: where(x, t) == {0})
        beyond = lambda s, l: implies(g, l, lambda x, t: where(x, t) == {1})
        for n in tests:
            lp = loop_of(g, n)
            goal = lambda m: m is g.exit or m is n
            r = paths(g).search(after(g, n), goal, stop=lambda m: keeps(m) or holds(m), stop_edge=outside)
            ctx.ob("point", "%s takes over points in the range" % f.short, r is None, n.loc, "one may be dropped")
            # and no others
            for m in g:
                if keeps(m) and lp and m.id in lp[1]:
                    r = paths(g).search([n], lambda q: q is m, stop_edge=inside)
                    ctx.ob("point", "%s takes over no others" % f.short, r is None, m.loc, "it may be outside the range")
            # and it looks at each of them
            for m in g:
                if is_call(m, "DataPointContainer::get_data_point") and lp and m.id in lp[1]:
                    each(ctx, g, f, m, n, beyond)
        # what is held back is passed on in the end
        if any(holds(m) for m in g):
            hv = {m.ev["lhs"][2] if m.k == "asg" and m.ev["lhs"][0] == "v" else None for m in g if holds(m)} | \
                 {strip_cast(m.ev["e"][2])[2] for m in g if m.k == "call" and holds(m) and strip_cast(m.ev["e"][2])[0] == "v"}
            hv.discard(None)
            unset = lambda s, l: any(strip_cast(e)[0] == "b" and any(q[0] == "v" and q[2] in hv for q in walk(strip_cast(e)[2])) and strip_cast(e)[1] in ("!=", "==") and
                                     (strip_cast(e)[1] == "==") == t and const_of(strip_cast(e)[3]) is not None for e, t in truths(l))
            for m in g:
                if holds(m):
                    r = paths(g).search([m], lambda q: q is g.exit, stop=lambda q: keeps(q) and loop_of(g, q) is None, stop_edge=unset)
                    ctx.ob("point", "%s passes on the last point" % f.short, r is None, m.loc, "it is dropped")
            for m in g:
                if holds(m) and m.k == "call":
                    # another one is held only after the one before was passed on
                    r = paths(g).search(after(g, m), lambda q: q is m, stop=keeps, stop_edge=unset)
                    ctx.ob("point", "%s passes on each point" % f.short, r is None, m.loc, "the one before is overwritten")


def each(ctx, g, f, m, n, beyond):
    """points are taken by their index: from the first, one after the other"""
    i = strip_cast(args(m)[0])
    cont = strip_cast(m.ev["e"][2])
    size = lambda e: any(q[0] == "c" and short(q[1]) == "DataPointContainer::size" for o in origins(g, e) for q in walk(o))
    h, body = loop_of(g, n)
    put = [q for q in g if q.k == "call" and q.ev["e"][0] == "c" and short(q.ev["e"][1]).endswith(("::emplace", "::push")) and len(args(q)) == 2 and strip_cast(args(q)[0])[0] == "v"]
    if put:
        # a queue of containers, each with the point it is at
        first = [q for q in put if const_of(args(q)[1]) is not None]
        nxt = [q for q in put if q not in first]
        ctx.ob("point", "%s starts at the first point" % f.short, bool(first) and all(const_of(args(q)[1]) == 0 for q in first) and
               all(not left_early(g, q) and self_skip(g, q) is None for q in first), n.loc, "points are left out")
        ok = bool(nxt)
        for q in nxt:
            t = dict(terms(g, args(q)[1]))
            ok = ok and t.pop((), 0) == 1 and {k: v for k, v in t.items()} == {k: v for k, v in terms(g, i).items() if k != ()}
        def end(x, t):
            if x[0] != "b" or x[1] not in OPS or not size(x[3]) or size(x[2]):
                return False
            a, b = dict(terms(g, x[2])), dict(terms(g, i))
            c = a.pop((), 0) - b.pop((), 0)
            # i + c compared with the size: says that i is the last
            return a == b and all(OPS[x[1]](k + c, 0) != t for k in (-2, -3)) and OPS[x[1]](-1 + c, 0) == t
        r = paths(g).search(after(g, n), lambda q: q.id == h or q is g.exit, stop=lambda q: q in nxt, stop_edge=lambda s, l: implies(g, l, end))
        ctx.ob("point", "%s goes on to the next point" % f.short, ok and r is None, n.loc, "points are left out")
        return
    if i[0] != "v":
        return
    for q in g:
        e = q.ev["rhs"] if q.k == "asg" and q.ev["op"] == "=" and q.ev["lhs"][0] == "v" and q.ev["lhs"][2] == i[2] else q.ev.get("init") if q.k == "decl" and q.ev["id"] == i[2] else None
        if e is not None:
            ctx.ob("point", "%s starts at the first point" % f.short, const_of(e) == 0, q.loc, "points are left out")
    bad = None
    for x in body:
        for s, l in g.nodes[x].succ:
            if s in body or l and l[0] in ("eh", "throw"):
                continue
            if beyond(g.nodes[x], l):
                continue
            fine = False
            for e, t in truths(l) if l else ():
                e = strip_cast(e)
                if e[0] == "b" and e[1] in OPS and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[2] == i[2] and size(e[3]):
                    c = terms(g, e[3]).get((), 0)
                    fine = all(OPS[e[1]](k, c) != t for k in (-1, -2, -3)) and len(terms(g, e[3])) <= 2
            if not fine and (not l or l[0] == "cond") and paths(g).search(after(g, n), lambda q: q is g.nodes[x], stop=lambda q: q.id == h, stop_edge=beyond) is not None:
                bad = g.nodes[x]
            elif not fine and g.nodes[x].id == h:
                bad = g.nodes[x]
    ctx.ob("point", "%s goes on to the next point" % f.short, bad is None, n.loc, "points are left out (line %s)" % (bad.line if bad else ""))
