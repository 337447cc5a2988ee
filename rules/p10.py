"""Metrics and series keep their identity: unique ids, recorded and read back."""
import re
from common import *

ASSUMPTIONS = [
    "stdio writes buffered lines in order; a line that only partly reached the file in a crash is out of scope",
    "the series restored from one line of the registry are told apart by their field",
]

COUNTERS = {"TimeSeries": "TimeSeries::m_next_id", "Mapping": "Mapping::m_next_id"}
IDS = {"TimeSeries": "TimeSeries::m_id", "Mapping": "Mapping::m_id"}
FILES = {"MetaFile::m_ts_file": "series file", "MetaFile::m_metrics_file": "metric file"}
NAMES = {"MetaFile::m_ts_name": "MetaFile::m_ts_file", "MetaFile::m_metrics_name": "MetaFile::m_metrics_file"}
ADDERS = ("MetaFile::add_ts", "MetaFile::add_metric", "MetaFile::add_measurement")


def check(ctx):
    p = ctx.prog
    ctx.rule("unique", "ids come from one step of the counter, and a restored id raises the counter above it", 6)
    ctx.rule("recorded", "every new metric and series is recorded with its id", 4)
    ctx.rule("listed", "every metric and series created is entered where it is looked up", 6)
    ctx.rule("same-key", "a series is recorded under the ordered key it is looked up by", 3)
    ctx.rule("checked", "nothing is created without looking for it first under the lock", 4)
    ctx.rule("format", "each line is written the way it is read back", 8)
    ctx.rule("first-line", "the line that is skipped when reading is written to new files, first and at once", 4)
    ctx.rule("in-order", "metrics are read before series, both before the files are opened for appending", 3)
    ctx.rule("appended", "the registry files are only appended to", 2)
    ctx.rule("every-line", "every well-formed line read is restored", 3)
    ctx.rule("on-file", "a metric is on file before its series, and closing or flushing the registry covers both files", 5)
    counters(ctx, p)
    created(ctx, p)
    recorded(ctx, p)
    written(ctx, p)
    opened(ctx, p)
    reading(ctx, p)
    flushed(ctx, p)


# ---- ids

def on_counter(n, c):
    return n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and is_global(n.ev["e"][2], c)


def op_of(n):
    return n.ev["e"][1].split("(")[0].split("::")[-1]


def takes(e, c):
    """one step of the counter"""
    e = strip_cast(e)
    if e[0] == "c" and e[2] is not None and is_global(e[2], c):
        o = e[1].split("(")[0].split("::")[-1]
        if o == "fetch_add":
            return (const_of(e[3][0]) or 0) > 0
        return o == "operator++"
    return False


def reads(e, c):
    e = strip_cast(e)
    return e[0] == "c" and e[2] is not None and is_global(e[2], c) and e[1].split("(")[0].split("::")[-1].startswith(("load", "operator unsigned", "operator "))


def same_id(g, e, ids):
    """e is the restored id (the field or what was stored in it)"""
    e = strip_cast(e)
    return any(strip_cast(x) == e or origins(g, x) & origins(g, e) for x in ids)


def raised(g, cls, ids):
    """edges and nodes after which the counter is above the id"""
    c = COUNTERS[cls]
    def isid(e):
        e = strip_cast(e)
        return e[0] == "m" and e[2] == IDS[cls] or same_id(g, e, ids)
    def edge(s, l):
        for e, t in truths(l):
            if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
                continue
            a, b, op = e[2], e[3], e[1]
            def cnt(x):
                return any(reads(o, c) for o in origins(g, x))
            if cnt(b) and isid(a):
                a, b, op = b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
            if cnt(a) and isid(b):
                if not t:
                    op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
                if op == ">":
                    return True
        return False
    def node(n):
        if not on_counter(n, c) or op_of(n) not in ("operator=", "store"):
            return False
        v = strip_cast(args(n)[0])
        vs = [strip_cast(d) for d in _defs_of(g, v)] if v[0] == "v" and v[3] == "l" else [v]
        return any(v[0] == "b" and v[1] == "+" and (isid(v[2]) and (const_of(v[3]) or 0) >= 1 or isid(v[3]) and (const_of(v[2]) or 0) >= 1) for v in vs)
    return edge, node


def ctors(p, cls):
    return [f for f in p.funcs.values() if f.short == cls + "::<ctor>"]


def id_writes(g, cls):
    for n in g:
        if n.k == "init" and n.ev.get("f") == IDS[cls] and n.ev.get("written"):
            yield n, n.ev["e"]
        elif writes_field(n, IDS[cls]):
            yield n, n.ev["rhs"]


def cgraph(p, f):
    """a constructor with the member functions only constructors call"""
    ce, cr = p.callgraph()
    def only(fn, e, d):
        return fn.cls == f.cls and all(p.funcs[x].short.endswith("<ctor>") for x in cr.get(fn.id, ()) if x in p.funcs)
    return Graph(p, f, inline=only)


def counters(ctx, p):
    for cls, c in COUNTERS.items():
        cs = ctors(p, cls)
        seen = set()
        for f in cs:
            ctx.analysed(f)
            g = cgraph(p, f)
            ws = list(id_writes(g, cls))
            ctx.ob("unique", "%s gets an id" % f.id, bool(ws) and escapes(g, g.entry, lambda m: any(m is n for n, e in ws)) is None, f.loc(), "an object is created without an id")
            for n, e in ws:
                seen.add((n.func.id, n.line))
                os_ = origins(g, e)
                fresh = [o for o in os_ if takes(o, c)]
                given = [o for o in os_ if o[0] == "v" and o[3] == "p"]
                ctx.ob("unique", "id set in %s" % f.id, bool(os_) and len(fresh) + len(given) == len(os_), n.loc, "an id does not come from one atomic step of its counter: two objects can get the same one")
                if given:
                    edge, node = raised(g, cls, given)
                    ctx.ob("unique", "counter raised in %s" % f.id, escapes(g, g.entry, node, edge_stop=edge) is None, n.loc,
                           "the counter is not raised above a restored id: a new object can get the id of an existing one")
        for f in p.funcs.values():
            if not any(ev["k"] in ("acc", "call") and any(x[0] == "v" and x[1] == c for x in walk(ev["e"])) or
                       ev["k"] == "asg" and ev["lhs"][0] == "m" and ev["lhs"][2] == IDS[cls] for ev in f.events()):
                continue
            g = Graph(p, f)
            for n in g:
                if on_counter(n, c):
                    o = op_of(n)
                    if o.startswith("load") or o.startswith("operator unsigned") or o in ("fetch_add", "operator++") or o == "operator " :
                        if o == "fetch_add":
                            ctx.ob("unique", "step of %s in %s" % (c, f.short), takes(n.ev["e"], c), n.loc, "the counter of ids is not advanced")
                        continue
                    if o in ("operator=", "store"):
                        ok = f.cls == cls and only_ctor(p, f, cls)
                        if ok:
                            ids = [x[1] for x in _param_vals(f)]
                            edge, node = raised(g, cls, ids)
                            ok = node(n)
                            # never lowered: only reached when the counter is not above the id already
                            def low(s, l):
                                return _not_above(g, cls, ids, l)
                            ok = ok and paths(g).search([g.entry], lambda m: m is n, stop_edge=low) is None
                        ctx.ob("unique", "%s set in %s" % (c, f.short), ok, n.loc, "the counter of ids is set to a value that may have been given out already")
                    else:
                        ctx.ob("unique", "%s changed in %s" % (c, f.short), False, n.loc, "the counter of ids is changed by something other than one step up")
                if writes_field(n, IDS[cls]) and (f.id, n.line) not in seen:
                    ctx.ob("unique", "id of %s changed in %s" % (cls, f.short), only_ctor(p, f, cls), n.loc, "the id of an existing object is changed")


def only_ctor(p, f, cls):
    ce, cr = p.callgraph()
    if f.short == cls + "::<ctor>":
        return True
    up = [p.funcs[x] for x in cr.get(f.id, ()) if x in p.funcs]
    return bool(up) and all(u.short == cls + "::<ctor>" for u in up)


def _param_vals(f):
    return [(q, ("v", q["n"], (0, q["id"]), "p", q["t"])) for q in f.params]


def _not_above(g, cls, ids, l):
    c = COUNTERS[cls]
    for e, t in truths(l):
        if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
            continue
        a, b, op = e[2], e[3], e[1]
        if any(reads(o, c) for o in origins(g, b)):
            a, b, op = b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
        if any(reads(o, c) for o in origins(g, a)):
            if not t:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
            if op in ("<", "<="):
                return True
    return False


# ---- creation

def news(n, cls):
    return n.k == "new" and n.ev["e"][1] == cls


def made(g, e, n):
    """does e stand for the object made at n?"""
    return any(o[0] == "new" and o[-1] == n.ev["e"][-1] for o in origins(g, e))


def map_base(e):
    e = strip_cast(e)
    if e[0] == "m" and e[2] == "Mapping::m_map":
        return "Mapping::m_map"
    if is_global(e, "g_metric_map"):
        return "g_metric_map"
    return None


def puts(n):
    """(map, key, value) when n enters something in one of the maps"""
    if n.k == "asg":
        l = strip_cast(n.ev["lhs"])
        if l[0] == "c" and l[2] is not None and l[1].split("(")[0].endswith("operator[]") and map_base(l[2]):
            return map_base(l[2]), l[3][0], n.ev["rhs"]
    if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and map_base(n.ev["e"][2]):
        o = op_of(n)
        a = args(n)
        if o in ("insert_or_assign", "emplace", "try_emplace") and len(a) >= 2:
            return map_base(n.ev["e"][2]), a[0], a[1]
        if o == "insert" and a:
            kids = [x for x in walk(a[0])]
            return map_base(n.ev["e"][2]), a[0], a[0]
    return None


def finds(n):
    if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and map_base(n.ev["e"][2]) and op_of(n) in ("find", "count", "contains"):
        return True
    return is_call(n, "Measurement::get_ts_no_lock", "Measurement::get_ts")


def put_obj(g, n, new):
    """n enters the object made at new in one of the places it is looked up"""
    u = puts(n)
    if u:
        return made(g, u[2], new)
    if n.k == "call" and call_name(n) in ("Measurement::add_ts", "Measurement::append_ts"):
        return any(made(g, a, new) for a in args(n))
    if n.k == "asg":
        l = strip_cast(n.ev["lhs"])
        if l[0] == "x" and mentions_field(l[1], "Measurement::m_time_series"):
            return made(g, n.ev["rhs"], new)
    return False


def listed(g, n, new):
    return is_call(n, "Mapping::add_ts") and any(made(g, a, new) for a in args(n))


CREATED = ("TimeSeries", "Mapping", "Measurement")
KEEP = ("Measurement::add_ts", "Measurement::append_ts", "Mapping::add_ts", "Measurement::get_ts_no_lock", "Mapping::init_measurement")


def creators(p, cls):
    """functions that create objects of the class and keep them; one that only hands the object on is looked at in its callers"""
    ce, cr = p.callgraph()
    out = []
    def direct(f):
        return any(ev["k"] == "new" and ev["e"][1] == cls for ev in f.events())
    todo = [(f, ()) for f in p.funcs.values() if direct(f)]
    done = set()
    while todo:
        f, via = todo.pop()
        if f.id in done:
            continue
        done.add(f.id)
        g = Graph(p, f, inline=lambda fn, e, d, via=via: fn.id in via or fn.short in near_callees(p, f, KEEP))
        ups = [p.funcs[x] for x in cr.get(f.id, ()) if x in p.funcs and x != f.id]
        hand = [n for n in g if n.k == "ret" and n.frame == 0 and n.ev["e"] is not None and any(o[0] == "new" and o[1] == cls for o in origins(g, n.ev["e"]))]
        entered = any(put_obj(g, n, w) for w in g if news(w, cls) for n in g)
        if hand and not entered and ups and len(via) < 3:
            todo += [(u, via + (f.id,)) for u in ups]
            continue
        if not direct(f) and not via:
            continue
        # a helper only one function uses is looked at with it
        out.append((f, g))
    ids = {f.short for f, g in out}
    return [(f, g) for f, g in out if not (len(set(cr.get(f.id, ()))) == 1 and f.short in set().union(*[near_callees(p, h, KEEP) for h, _ in out if h is not f] or [set()]))]


def live(ctx, p):
    """functions reachable from the program's entry points, or handed on as pointers"""
    return callees_down(p, set(ctx.locks.all_reach) | set(getattr(p, "refs", ())))


def created(ctx, p):
    alive = live(ctx, p)
    for cls in CREATED:
        for f, g in creators(p, cls):
            if f.id not in alive:
                continue
            ctx.analysed(f)
            for n in g:
                if not news(n, cls):
                    continue
                what = {"TimeSeries": "series", "Mapping": "metric", "Measurement": "measurement"}[cls]
                ctx.ob("listed", "%s entered in %s" % (what, f.short), escapes(g, n, lambda m: put_obj(g, m, n)) is None and self_loop(g, n, lambda m: put_obj(g, m, n)) is None,
                       n.loc, "a %s can be created without being entered where it is looked up: another one is created for the same data later" % what)
                if cls == "TimeSeries":
                    ctx.ob("listed", "series listed in %s" % f.short, escapes(g, n, lambda m: listed(g, m, n)) is None and self_loop(g, n, lambda m: listed(g, m, n)) is None,
                           n.loc, "a series can be created without being added to its metric's list: it is never flushed and not found by queries")
                keys(ctx, p, f, g, n, cls)
            if cls == "TimeSeries" and any(is_call(n, "Measurement::add_ts", "Measurement::append_ts") or n.k == "asg" and mentions_field(n.ev["lhs"], "Measurement::m_time_series") for n in g) and not any(puts(n) for n in g):
                # fields of a measurement: looked up by the functions that call this one
                if measure_only(p, f):
                    continue
            bad = in_context(p, f, lambda h: unchecked(h, cls))
            ctx.ob("checked", "%s looked for in %s" % (cls, f.short), not bad, bad[0].loc if bad else f.loc(), "a %s can be created although it exists: it was not looked for since the lock was taken" % {"TimeSeries": "series", "Mapping": "metric", "Measurement": "measurement"}[cls])


def measure_only(p, f):
    """series made for the fields of a measurement that was itself just created or read"""
    g = Graph(p, f)
    return any(is_call(n, "MetaFile::add_measurement") for n in g) or any(is_call(n, "Mapping::get_measurement") for n in g)


def locks_at(n):
    t = n.ev.get("e") if n.k == "ctor" else None
    return n.k == "ctor" and n.ev["e"][0] == "k" and ("lock_guard" in n.ev["e"][1] or "unique_lock" in n.ev["e"][1] or n.ev["e"][1] in ("PThread_WriteLock", "WriteLock")) \
        or n.k == "call" and n.ev["e"][0] == "c" and (n.ev["e"][1].startswith("std::mutex::lock(") or n.ev["e"][1].startswith("pthread_rwlock_wrlock("))


def list_lock(n):
    return any(mentions_field(x, "Mapping::m_ts_lock", "MetaFile::m_lock") for x in event_exprs(n))


def unchecked(g, cls):
    out = []
    for n in g:
        if not news(n, cls):
            continue
        ls = [m for m in g if locks_at(m) and not list_lock(m)]
        r = paths(g).search(ls or [g.entry], lambda m: m is n, stop=lambda m: finds(m))
        if r is None and ls:
            r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: finds(m))
        if r is not None:
            out.append(n)
    return out


def strip_dup(g, e):
    e = strip_cast(e)
    if e[0] == "v" and e[3] == "l":
        ds = _defs_of(g, e)
        if len(ds) == 1 and strip_cast(ds[0])[0] == "c" and short(strip_cast(ds[0])[1]) == "strdup":
            e = strip_cast(ds[0])
    while e[0] == "c" and (short(e[1]) in ("strdup",) or e[1].split("(")[0].endswith("::c_str") or e[1].split("(")[0].endswith("::data")):
        e = strip_cast(e[3][0] if e[2] is None else e[2])
    return e


def keys(ctx, p, f, g, n, cls):
    """the key used in the map is the one recorded"""
    if cls == "Mapping":
        return
    ents = [m for m in g if puts(m) and puts(m)[0] == "Mapping::m_map" and made(g, puts(m)[2], n) and path_exists(g, n, lambda x: x is m)]
    if not ents:
        return
    # the first entry on every path is the one under the recorded key
    first = [m for m in ents if paths(g).search([n], lambda x: x is m, stop=lambda x: x is not m and x in ents) is not None]
    recs = []
    if cls == "TimeSeries":
        recs = [strip_dup(g, a) for a in (n.ev["e"][2][3] if n.ev["e"][2] else ())]
    else:
        for m in g:
            if is_call(m, "Mapping::init_measurement", "MetaFile::add_measurement"):
                recs += [strip_dup(g, a) for a in args(m)]
    recs = [r for x in recs for r in ({x} | origins(g, x))]
    if not recs:
        return
    for m in first:
        k = strip_dup(g, puts(m)[1])
        ks = {k} | set(origins(g, k))
        ctx.ob("same-key", "key of %s in %s" % (cls, f.short), any(x in recs for x in ks), m.loc, "a series is entered under a key other than the one it is recorded by: after a restart it is not found")
    k = strip_dup(g, puts(first[0])[1]) if first else None
    if k is not None and k[0] == "v" and k[3] == "l":
        def ordered(x):
            return x.k == "call" and (call_name(x) or "").endswith("::get_ordered_tags") and any(strip_cast(a) == k for a in args(x)) or \
                x.k == "asg" and strip_cast(x.ev["lhs"])[0] == "x" and strip_cast(strip_cast(x.ev["lhs"])[1]) == k
        ctx.ob("same-key", "ordered key of %s in %s" % (cls, f.short), preceded(g, n, ordered), n.loc, "a series is recorded under its tags in the order they came in: the same tags in another order make another series")


# ---- recording

def is_id_of(g, e, cls, this=True):
    for o in origins(g, e):
        if o[0] == "m" and o[2] == IDS[cls] or o[0] == "c" and short(o[1]) == cls + "::get_id" or takes(o, COUNTERS[cls]):
            return True
    return False


def recorded(ctx, p):
    alive = live(ctx, p)
    for cls, rec in (("TimeSeries", ("MetaFile::add_ts",)), ("Mapping", ("MetaFile::add_metric",))):
        for f in ctors(p, cls):
            g = cgraph(p, f)
            if not any(takes(o, COUNTERS[cls]) for n, e in id_writes(g, cls) for o in origins(g, e)):
                continue
            def done(n):
                return is_call(n, *rec) and any(is_id_of(g, a, cls) for a in args(n))
            ws = [n for n, e in id_writes(g, cls)]
            if any(is_call(n, *rec) for n in g):
                ctx.ob("recorded", "%s records itself" % f.id, escapes(g, g.entry, done) is None, f.loc(), "a new object can go unrecorded or be recorded under another id")
                ctx.ob("recorded", "%s has its id by then" % f.id, all(preceded(g, n, lambda m: m in ws) for n in g if is_call(n, *rec)), f.loc(), "an object is recorded before it has its id")
                continue
            # recorded by those who create it
            users = [u for u in p.funcs.values() if u.id in alive and any(ev["k"] == "ctor" and ev["e"][0] == "k" and ev["e"][2] == f.id for ev in u.events())]
            for u in users:
                ctx.analysed(u)
                h = Graph(p, u, inline=lambda fn, e, d: fn.short in near_callees(p, u, KEEP))
                for n in h:
                    if news(n, cls) and n.ev["e"][2] and n.ev["e"][2][2] == f.id:
                        def kept(m):
                            return m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1].split("(")[0].endswith(("::emplace_back", "::push_back")) and "std::pair" in m.ev["e"][1] and any(is_id_of_obj(h, a, n) for a in args(m))
                        def rec2(m):
                            return is_call(m, "MetaFile::add_measurement") or is_call(m, "MetaFile::add_ts") and any(is_id_of_obj(h, a, n) for a in args(m))
                        direct = any(is_call(m, "MetaFile::add_ts") for m in h)
                        ctx.ob("recorded", "%s created in %s" % (f.id, u.short), escapes(h, n, rec2) is None, n.loc, "a new series can go unrecorded")
                        if not direct:
                            ctx.ob("recorded", "id of %s in %s" % (f.id, u.short), escapes(h, n, kept) is None and self_loop(h, n, kept) is None, n.loc, "a new series is left out of the line recorded, or recorded under another id")
                            vecs = {strip_cast(m.ev["e"][2]) for m in h if kept(m)}
                            for m in h:
                                if is_call(m, "MetaFile::add_measurement"):
                                    ctx.ob("recorded", "fields recorded in %s" % u.short, any(strip_cast(a) in vecs for a in args(m)), m.loc, "the fields recorded are not those of the series created")
                                    ctx.ob("recorded", "all fields recorded in %s" % u.short, paths(h).search([m], lambda x: news(x, cls)) is None, m.loc, "a measurement is recorded before all its series are created")


def is_id_of_obj(g, e, n):
    for o in origins(g, e):
        if o[0] == "c" and short(o[1]) == "TimeSeries::get_id" and made(g, o[2], n) or o[0] == "m" and o[2] == IDS["TimeSeries"] and made(g, o[1], n):
            return True
    return False


# ---- lines

def file_of(g, e):
    for o in origins(g, e):
        if o[0] == "m" and o[2] in FILES:
            return o[2]
    return None


def prints(g, n):
    """(file, format, args) written by n to a registry file"""
    if is_ext(n, "fprintf"):
        a = args(n)
        f = file_of(g, a[0])
        return (f, a[1], a[2:]) if f else None
    if is_ext(n, "fputs", "fputc", "putc"):
        f = file_of(g, args(n)[1])
        return (f, ("s", "%s"), args(n)[:1]) if f else None
    if is_ext(n, "fwrite"):
        f = file_of(g, args(n)[3])
        return (f, ("s", "%s"), args(n)[:1]) if f else None
    return None


CONV = re.compile(r"%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z)?([a-zA-Z%])")


def header(fmt):
    return fmt[0] == "s" and fmt[1].startswith("#")


def composed(g, e):
    """formats of the pieces a buffer is put together from, in order of occurrence"""
    e = strip_cast(e)
    out = []
    for n in g:
        if is_ext(n, "snprintf", "sprintf"):
            a = args(n)
            if any(x == e for x in walk(a[0])):
                fi = 2 if is_ext(n, "snprintf") else 1
                if strip_cast(a[fi])[0] == "s":
                    out.append((n, strip_cast(a[fi])[1], a[fi + 1:]))
    return out


def written(ctx, p):
    """what the lines look like"""
    lines = []
    for f in p.funcs.values():
        if not any(ev["k"] == "acc" and ev["e"][0] == "m" and ev["e"][2] in FILES for ev in f.events()):
            continue
        g = AGraph(p, f, inline=lambda fn, e, d: fn.cls == "MetaFile" and fn.short in near_callees(p, f))
        for n in g:
            pr = prints(g, n)
            if not pr:
                continue
            ctx.analysed(f)
            fld, fmt, av = pr
            fmt = strip_cast(fmt)
            if fmt[0] != "s":
                ctx.ob("format", "%s written in %s" % (FILES[fld], f.short), False, n.loc, "what is written to the registry can't be told")
                continue
            if header(fmt):
                ctx.ob("first-line", "first line of the %s" % FILES[fld], fmt[1].endswith("\n") and fmt[1].count("\n") == 1, n.loc, "the line skipped when reading is not exactly one line")
                continue
            parts = [(n, fmt[1], av)]
            if fmt[1].strip() == "%s" and len(av) == 1:
                # a line put together in a buffer
                c = composed(g, av[0])
                if c:
                    heads = [x for x in c if not x[1].startswith(" ")]
                    tails = [x for x in c if x[1].startswith(" ")]
                    ctx.ob("format", "pieces of a line in %s" % f.short, len(heads) == 1 and not any("\n" in x[1] for x in c) and fmt[1] == "%s\n", n.loc, "the line is not put together of a head and fields separated by blanks")
                    for h in heads:
                        check_line(ctx, p, f, g, n, fld, h[1] + "".join(t[1] for t in tails) + "\n", list(h[2]) + [a for t in tails for a in t[2]])
                    for t in tails:
                        ctx.ob("format", "fields of a line in %s" % f.short, re.fullmatch(r" %s=%l*u", t[1]) is not None, t[0].loc, "a field is not written as name=id")
                        lp = loop_of(g, t[0])
                        ctx.ob("format", "each field in %s" % f.short, lp is not None, t[0].loc, "only one of the fields is recorded")
                    continue
            check_line(ctx, p, f, g, n, fld, fmt[1], list(av))


def check_line(ctx, p, f, g, n, fld, fmt, av):
    what = "line of the %s in %s" % (FILES[fld], f.short)
    toks = fmt.rstrip("\n").split(" ")
    ok = fmt.endswith("\n") and fmt.count("\n") == 1 and all(toks)
    ctx.ob("format", what, ok, n.loc, "the line does not consist of items separated by one blank and an end of line")
    if not ok:
        return
    convs = [[m.group(1) for m in CONV.finditer(t)] for t in toks]
    flat = [c for t in convs for c in t]
    if len(flat) != len(av):
        ctx.ob("format", what, False, n.loc, "the line's items do not match what is written")
        return
    it = iter(av)
    vals = [[next(it) for c in t] for t in convs]
    def is_id(v, t):
        return v and (strip_cast(v)[0] == "v" and strip_cast(v)[3] == "p" and "int" in strip_cast(v)[4] or "int" in typ(g, v))
    def is_param(v, i):
        v = strip_cast(v)
        ps = [q for q in f.params if "char" in q["t"]]
        return not (v[0] == "v" and v[3] == "p") or len(ps) <= i or v[1] == ps[i]["n"]
    if fld == "MetaFile::m_metrics_file":
        ctx.ob("format", "items of the " + what, len(toks) == 2 and convs[0] and convs[0][0] in "du" and convs[1] == ["s"] and toks[1] == "%s", n.loc, "the line is not read back: the id and the name are expected, in this order")
        return
    good = len(toks) >= 3 and toks[0] == "%s" and toks[1] == "%s"
    last = toks[2:]
    good = good and all(re.fullmatch(r"%l*u|%s=%l*u", t) for t in last) and (len(last) == 1 or all("=" in t for t in last))
    ctx.ob("format", "items of the " + what, good, n.loc, "the line is not read back: metric, tags and id, or metric, tags and fields with their ids, are expected in this order")
    if good:
        ctx.ob("format", "metric and tags of the " + what, is_param(vals[0][0], 0) and is_param(vals[1][0], 1), n.loc, "metric and tags are written in each other's place")


def typ(g, v):
    v = strip_cast(v)
    if v[0] == "v":
        return v[4] if len(v) > 4 else ""
    if v[0] == "m":
        return v[3] if len(v) > 3 else ""
    return ""


# ---- opening

def opened(ctx, p):
    fs = [f for f in p.funcs.values() if any(ev["k"] == "asg" and ev["lhs"][0] == "m" and ev["lhs"][2] in FILES and strip_cast(ev["rhs"])[0] == "c" for ev in f.events())]
    if not fs:
        raise AnalysisError("nothing opens the registry files")
    got = set()
    for f in fs:
        ctx.analysed(f)
        g = AGraph(p, f)
        for n in g:
            if is_ext(n, "open", "open64", "openat"):
                fl = [const_of(a) for a in args(n)][1]
                ctx.ob("appended", "registry opened in %s" % f.short, fl is not None and fl & 0o2000 and not fl & 0o1000, n.loc, "the registry is not opened for appending: what is recorded already is overwritten")
            if is_ext(n, "fdopen", "fopen"):
                m = strip_cast(args(n)[1])
                ctx.ob("appended", "registry stream in %s" % f.short, m[0] == "s" and m[1].startswith("a"), n.loc, "the registry is not opened for appending: what is recorded already is overwritten")
        for fld in FILES:
            sets = [n for n in g if writes_field(n, fld) and strip_cast(n.ev["rhs"])[0] == "c"]
            if not sets:
                continue
            got.add(fld)
            heads = [n for n in g if prints(g, n) and prints(g, n)[0] == fld and header(strip_cast(prints(g, n)[1]))]
            def opens(m):
                return is_ext(m, "open", "open64", "openat", "fopen")
            def fresh(e):
                """is e, when true, saying that there is no file yet?  None if unrelated"""
                e = strip_cast(e)
                if e[0] == "u" and e[1] == "!":
                    r = fresh(e[2])
                    return None if r is None else not r
                if e[0] == "c" and short(e[1]) == "file_exists":
                    other = [x for x in NAMES if NAMES[x] != fld]
                    return None if mentions_field(e, *other) else False
                if e[0] == "v" and e[3] == "l":
                    rs = {fresh(d) for d in _defs_of(g, e)} - {None}
                    return rs.pop() if len(rs) == 1 else None
                return None
            def is_new(l, want):
                return any(fresh(e) is not None and (fresh(e) == t) == want for e, t in truths(l))
            for s in sets:
                def stop_edge(src, l):
                    return is_new(l, False) or any(null_test(e, t) and (mentions_field(e, fld) or strip_cast(e)[0] == "v" and "FILE" in typ(g, strip_cast(e))) for e, t in truths(l))
                def fl(m):
                    return m in heads
                r = escapes(g, s, fl, edge_stop=stop_edge)
                ctx.ob("first-line", "written to a new %s" % FILES[fld], bool(heads) and r is None, s.loc, "a new file can be left without the line that is skipped when it is read: its first entry is lost at the next start")
            for h in heads:
                r = paths(g).search([g.entry], lambda m: m is h, stop_edge=lambda src, l: is_new(l, True))
                ctx.ob("first-line", "not written again to the %s" % FILES[fld], r is None, h.loc, "the first line is written again to a file that has entries: it is taken for an entry when the file is read")
                ctx.ob("first-line", "%s new or not is found out before it is opened" % FILES[fld], exists_before(g, h, fld, opens, fresh), h.loc, "whether the file is new is found out after it was created: its first line is never written")
                def fl(m):
                    return is_ext(m, "fflush", "fclose") and file_of(g, args(m)[0]) == fld
                ctx.ob("first-line", "first line of the %s on file at once" % FILES[fld], escapes(g, h, fl) is None, h.loc, "the first line stays in a buffer: a crash leaves an empty file that never gets one")
    for fld in FILES:
        ctx.ob("appended", "%s opened" % FILES[fld], fld in got, fs[0].loc(), "the file is never opened")


def _defs_of(g, e):
    from common import _defs
    return _defs(g).get(e[2]) or []


def exists_before(g, h, fld, opens, fresh):
    """between the existence test that decides and the header, the file is opened (not before the test)"""
    for n in g:
        if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) == "file_exists":
            names = mentions_field(n.ev["e"], "MetaFile::m_ts_name", "MetaFile::m_metrics_name")
            if paths(g).search([n], lambda m: m is h) is None:
                continue
            # same name as an open that came before: the file was created already
            for o in g:
                if opens(o) and same_name(g, o, n) and path_exists(g, o, lambda m: m is n) and not path_exists(g, n, lambda m: m is o):
                    return False
    return True


def same_name(g, a, b):
    fa = {x[2] for e in args(a) for x in walk(e) if x[0] == "m"}
    fb = {x[2] for e in args(b) for x in walk(e) if x[0] == "m"}
    return bool(fa & fb)


# ---- reading

def reading(ctx, p):
    f = None
    for c in p.funcs.values():
        if c.cls == "MetaFile" and sum("(*)" in q["t"] for q in c.params) >= 3:
            f = c
    if f is None:
        raise AnalysisError("the function restoring the registry is gone")
    ctx.analysed(f)
    g = AGraph(p, f, inline=lambda fn, e, d: fn.cls == "MetaFile")
    ps = [q for q in f.params if "(*)" in q["t"]]
    roles = {}
    for q in ps:
        roles[q["n"]] = "metric" if "*)(unsigned int" in q["t"] else "series" if q["t"].startswith("TimeSeries *") else "measurement"
    def role(n):
        if n.k != "call" or n.ev["e"][0] != "ci":
            return None
        c = strip_cast(n.ev["e"][1])
        while c[0] == "u":
            c = strip_cast(c[2])
        for o in origins(g, c):
            while o[0] == "u":
                o = strip_cast(o[2])
            for x in {o} | set(origins(g, o)):
                if x[0] == "v" and x[3] == "p" and x[1] in roles:
                    return roles[x[1]]
        return None
    calls = {n.id: role(n) for n in g if role(n)}
    for r in ("metric", "series", "measurement"):
        ctx.ob("every-line", "%s restored" % r, r in calls.values(), f.loc(), "recorded entries of this kind are not restored")
    def is_open(n):
        return is_ext(n, "open", "open64", "openat", "fopen") and n.func.cls == "MetaFile"
    opens = [n for n in g if is_open(n)]
    ctx.ob("in-order", "files opened for appending", bool(opens), f.loc(), "the registry files are not opened")
    for n in g:
        if calls.get(n.id):
            ctx.ob("in-order", "%s read before the files are opened" % calls[n.id], not path_from(g, opens, n), n.loc, "the registry is opened for appending before it has been read")
        if calls.get(n.id) == "metric":
            r = paths(g).search([m for m in g if calls.get(m.id) in ("series", "measurement")], lambda m: m is n)
            ctx.ob("in-order", "metrics read before series", r is None, n.loc, "series are restored before their metrics")
    # reading
    lines = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1].split("(")[0] == "std::getline"]
    for n in lines:
        lp = loop_of(g, n)
        if lp is None:
            continue
        body = [g.nodes[x] for x in lp[1]]
        kinds = {calls[m.id] for m in body if m.id in calls}
        if not kinds:
            continue
        what = "metric file" if "metric" in kinds else "series file"
        def malformed(s, l):
            return any(e[0] == "b" and any(x[0] == "c" and x[1].split("(")[0].endswith("::size") for x in walk(e)) for e, t in truths(l))
        r = self_loop(g, n, lambda m: m.id in calls, skip=malformed)
        ctx.ob("every-line", "each line of the %s" % what, r is None, n.loc, "a line of the registry can be skipped")
        # the loop ends with the file
        def eof(s, l):
            return any(x[0] == "c" and x[1].split("(")[0].split("::")[-1] in (("eof", "fail", "operator!") if t else ("getline", "operator bool", "good")) for e, t in truths(l) for x in walk(e))
        ctx.ob("every-line", "%s read to its end" % what, not left_early(g, n, excuse=eof), n.loc, "reading the registry can stop before its end")
        # well-formed lines are let through
        want = {2} if what == "metric file" else {3}
        for m in body:
            for s, l in m.succ:
                if malformed(m, l) and not any(g.nodes[x].id in calls for x in ahead(g, s, lp)):
                    for e, t in truths(l):
                        k = [const_of(x) for x in (e[2], e[3]) if const_of(x) is not None] if e[0] == "b" else []
                        if k:
                            ctx.ob("every-line", "lines dropped from the %s" % what, not accepts(e, t, want), m.loc, "well-formed lines are taken for malformed ones")
        # header
        before = [m for m in lines if m is not n and not loop_of(g, m) and m.frame == n.frame]
        ctx.ob("first-line", "skipped in the %s" % what, len(before) == 1 and preceded(g, n, lambda m: m in before), n.loc, "the number of lines skipped is not the number written to a new file")
        for m in body:
            r = calls.get(m.id)
            if r:
                idx = [token(g, a) for a in m.ev["e"][2]]
                exp = [0, 1] if r in ("metric", "measurement") else [0, 1, 2]
                ctx.ob("format", "items of a %s read back" % r, idx[:len(exp)] == exp, m.loc, "an item is read from another place than it is written to")
    for n in g:
        if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1].split("(")[0] in ("tokenize", "tt::tokenize") and n.func.cls == "MetaFile":
            d = const_of(args(n)[-1])
            tup = "tuple" in n.ev["e"][1]
            ctx.ob("format", "line taken apart (%s)" % ("field" if tup else "items"), d == (ord("=") if tup else ord(" ")), n.loc, "the line is taken apart at other characters than it is put together with")
        if n.k == "call" and n.ev["e"][0] == "c" and "std::pair" in n.ev["e"][1] and n.ev["e"][1].split("(")[0].endswith(("::emplace_back", "::push_back")) and loop_of(g, n):
            lp = loop_of(g, n)
            t = [m for m in (g.nodes[x] for x in lp[1]) if m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1].split("(")[0] == "tokenize"]
            if t and not any(calls.get(x) for x in lp[1]):
                for m in t:
                    i = [x for x in walk(m.ev["e"]) if x[0] == "v" and x[3] == "l" and x[4] in ("int", "unsigned int", "unsigned long", "size_t")]
                    inits = {const_of(d) for x in i for d in _defs_of(g, x)} - {None, 1}
                    ctx.ob("format", "first field read", not i or inits == {2}, m.loc, "fields are not read from where they are written")
                    ctx.ob("every-line", "each field of a line", not left_early(g, m), m.loc, "reading the fields of a line can stop early")


def path_from(g, starts, n):
    return bool(starts) and paths(g).search(starts, lambda m: m is n) is not None


def ahead(g, s, lp):
    seen, todo = {s}, [s]
    while todo:
        x = todo.pop()
        for t, l in g.nodes[x].succ:
            if l and l[0] in ("eh", "throw") or t == lp[0] or t not in lp[1] or t in seen:
                continue
            seen.add(t)
            todo.append(t)
    return seen


def accepts(e, t, sizes):
    """may the condition hold for one of the sizes?"""
    import operator
    ops = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
    if e[0] != "b" or e[1] not in ops:
        return False
    a, b = const_of(e[2]), const_of(e[3])
    for s in sizes:
        r = ops[e[1]](a, s) if a is not None else ops[e[1]](s, b) if b is not None else None
        if r is not None and bool(r) == t:
            return True
    return False


def token(g, e):
    for o in origins(g, e, through=("std::stoi", "std::stoul", "std::stoull", "std::stol", "std::stoll")):
        for x in walk(o):
            if x[0] == "c" and x[1].split("(")[0] in ("std::vector<std::basic_string<char>>::operator[]", "std::vector<std::basic_string<char>>::at"):
                return const_of(x[3][0])
    return None


# ---- on file

def flushed(ctx, p):
    for f in p.all("MetaFile::add_metric"):
        g = AGraph(p, f, inline=lambda fn, e, d: fn.short in near_callees(p, f))
        ctx.analysed(f)
        ws = [n for n in g if prints(g, n) and prints(g, n)[0] == "MetaFile::m_metrics_file"]
        ctx.ob("on-file", "metric written", escapes(g, g.entry, lambda m: m in ws) is None, f.loc(), "a new metric can go unrecorded")
        for n in ws:
            ctx.ob("on-file", "metric flushed", escapes(g, n, lambda m: is_ext(m, "fflush") and file_of(g, args(m)[0]) in (None, "MetaFile::m_metrics_file")) is None, n.loc,
                   "a new metric stays in a buffer while its series may reach their file: after a crash series are restored without their metric")
    for name in ("MetaFile::add_ts", "MetaFile::add_measurement"):
        for f in p.all(name):
            g = AGraph(p, f, inline=lambda fn, e, d: fn.short in near_callees(p, f))
            ctx.analysed(f)
            def long_(s, l):
                return any(e[0] == "b" and e[1] in ("<", "<=", ">", ">=") for e, t in truths(l)) and name.endswith("measurement")
            ctx.ob("on-file", "%s writes its line" % f.id, escapes(g, g.entry, lambda m: prints(g, m) is not None, edge_stop=long_) is None, f.loc(), "a new series can go unrecorded")
    for name, done in (("MetaFile::flush", ("fflush", "fclose")), ("MetaFile::close", ("fclose",))):
        fs = p.all(name)
        for f in fs:
            g = AGraph(p, f, inline=lambda fn, e, d: fn.short in near_callees(p, f))
            ctx.analysed(f)
            for fld in FILES:
                def null(s, l):
                    return any(mentions_field(e, fld) and null_test(e, t) for e, t in truths(l))
                ctx.ob("on-file", "%s: %s" % (name, FILES[fld]), escapes(g, g.entry, lambda m: is_ext(m, *done) and file_of(g, args(m)[0]) == fld, edge_stop=null) is None, f.loc(), "one of the registry files is left out")
    K = ctx.locks
    closers = [f for f in p.funcs.values() if f.id in K.all_reach and any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "MetaFile::close" for ev in f.events())]
    ctx.ob("on-file", "registry closed at shutdown", bool(closers), closers[0].loc() if closers else p.funcs[min(x for x in p.funcs if p.funcs[x].cls == "MetaFile")].loc(), "the registry is not closed at shutdown: what is still buffered is lost")
