"""Queries are taken as they were asked, and answered completely: parameters by
name, times and zones, every query of a request, whole and well formed answers,
and lookups of names."""
import re

from common import *
import common
from along import each_path
from p18 import after, implies
from p22 import local, nm, V, behind, each, ends
from whatif import explore

ASSUMPTIONS = [
    "what the aggregator, downsampler, rate, tags and filters named in a query do is judged by the properties on them",
    "how text is taken apart into a map of parameters is judged by the property on malformed text",
]


def check(ctx):
    p = ctx.prog
    ctx.rule("named", "each part of a query is taken from the parameter of its name", 8)
    ctx.rule("found", "a parameter is read only if it was found, and one that is required is asked for", 8)
    ctx.rule("words", "words in a query mean what they say, and are compared and cut at their own length", 4)
    ctx.rule("time", "times are counted back from now, and taken from their zone to UTC", 3)
    ctx.rule("all", "every query of a request is carried out, and a failure of one is told", 4)
    ctx.rule("answer", "an answer holds every result with points, well formed, or is refused", 6)
    ctx.rule("points", "every point of a result is put out with its own time and value", 4)
    ctx.rule("lookup", "lookups give the names that match, no more than asked for, whole or not at all", 6)
    named(ctx, p)
    words(ctx, p)
    times(ctx, p)
    every(ctx, p)
    answer(ctx, p)
    points(ctx, p)
    lookup(ctx, p)


def mentions(t, test):
    """is there such a part in a term?"""
    if not isinstance(t, tuple) or not t:
        return False
    return isinstance(t[0], str) and test(t) or any(mentions(x, test) for x in t if isinstance(x, tuple))


# ---- where values come from

def preds(g):
    if not hasattr(g, "_preds"):
        d = {}
        for n in g:
            for s, l in n.succ:
                d.setdefault(s, []).append(n)
        g._preds = d
    return g._preds


def key(e):
    e = strip_cast(e)
    return e[2] if e[0] == "v" and e[3] != "g" else ("m", e[2]) if e[0] == "m" and e[1] == ("t",) else None


def defines(n, k):
    """the expression assigned to k here"""
    if n.k == "decl" and n.ev["id"] == k:
        return n.ev["init"]
    if n.k == "asg" and key(n.ev["lhs"]) == k:
        return n.ev["rhs"]
    if n.k == "init" and k == ("m", n.ev["f"]):
        return n.ev["e"]
    if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and key(n.ev["e"][2]) == k and "::operator=(" in n.ev["e"][1] and n.ev["e"][3]:
        return n.ev["e"][3][0]
    return None


def reaching(g, n, k):
    """the nodes whose assignment to k may still hold at n"""
    seen, todo, out = {n.id}, list(preds(g).get(n.id, ())), []
    while todo:
        m = todo.pop()
        if m.id in seen and m is not n:
            continue
        seen.add(m.id)
        if m.ev and defines(m, k) is not None:
            out.append(m)
            continue
        if m is n:
            continue
        todo += preds(g).get(m.id, ())
    return out


def wanted(g, n, e):
    """the names looked for in a map by an iterator"""
    e = strip_cast(e)
    if e[0] == "c" and nm(e) == "find" and "JsonValue" in e[1]:
        a = e[3][0]
        if any(x[0] == "v" and x[1] == "METRIC_TAG_NAME" for o in [a] + list(origins(g, a)) for x in walk(o)):
            return {"metric"}
        return literals(g, a) or {"?"}
    out = set()
    if key(e) is not None:
        for d in reaching(g, n, key(e)):
            out |= wanted(g, d, defines(d, key(e)))
    if e[0] == "k" and e[3] and not out:
        return wanted(g, n, e[3][0])
    return out


def deref(e):
    """the iterator of it->second"""
    e = strip_cast(e)
    if e[0] == "m" and e[2].endswith("::second") and "JsonValue" in e[2]:
        b = strip_cast(e[1])
        if b[0] == "c" and "operator->" in b[1] or b[0] == "c" and "operator*" in b[1]:
            return b[2] if b[2] is not None else b[3][0]
        if b[0] == "u" and b[1] == "*":
            return b[2]
    return None


def names(g, n, e, seen=frozenset()):
    """what a value is made of: names of parameters, now, the zone, constants"""
    e = strip_cast(e)
    if (n.id, e) in seen:
        return set()
    seen = seen | {(n.id, e)}
    d = deref(e)
    if d is not None:
        return wanted(g, n, d)
    if e[0] == "i":
        return {e[1]}
    if e[0] == "c":
        w = nm(e)
        if w in ("operator!=", "operator==") and "JsonValue" in e[1]:
            return set().union(*[wanted(g, n, a) for a in list(e[3]) + ([e[2]] if e[2] is not None else [])])
        if w in ("ts_now", "ts_now_sec", "ts_now_ms"):
            return {"now"}
        if w == "parse_ts":
            return names(g, n, e[3][0], seen)
        out = set()
        for a in list(e[3]) + ([e[2]] if e[2] is not None else []):
            out |= names(g, n, a, seen)
        return out
    if e[0] == "v" and e[3] == "g":
        return {e[1]}
    if key(e) is not None:
        rs = reaching(g, n, key(e))
        out = set()
        for r in rs:
            out |= names(g, r, defines(r, key(e)), seen)
        if not rs and e[0] == "v" and e[3] == "p":
            out.add("param " + e[1])
        return out
    out = set()
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out |= names(g, n, x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    out |= names(g, n, y, seen)
    return out


def text_names(s):
    return {x for x in s if isinstance(x, str) and not x.startswith(("param", "g_"))}


FIELDS = {"Query::m_metric": "metric", "Query::m_aggregate": "aggregator", "Query::m_downsample": "downsample", "Query::m_tz": "tz", "Query::m_ms": "msResolution"}


def looks_up(f):
    """does it look for parameters, or compare words?"""
    return any(x[0] == "c" and (nm(x) == "find" and "JsonValue" in x[1] or nm(x) in ("strcmp", "strncmp")) for ev in f.events() if ev["k"] == "call" for x in walk(ev["e"]))


def graphs(p):
    """functions that look parameters up, with the helpers they share"""
    if hasattr(p, "_asked"):
        return p._asked
    ce, cr = p.callgraph()
    mine = lambda f: f.cls in ("Query", "QueryExecutor") or f.cls == "Tsdb" and "suggest" in f.short
    helper = lambda f: f.kind != "ctor" and not f.virt and f.file.startswith("src/") and looks_up(f) and cr.get(f.id) and all(c in p.funcs and (mine(p.funcs[c]) or p.funcs[c].file == f.file) for c in cr[f.id])
    out = []
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if not mine(f) or not f.file.startswith("src/") or helper(f):
            continue
        g = Graph(p, f, lambda x, e, d: not x.virt and x.file.startswith(("src/", "include/")) and ((x.cls == f.cls or not x.cls) and set(cr.get(x.id, ())) <= {f.id} or helper(x) and x.file == f.file), maxdepth=3)
        if any(n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "find" and "JsonValue" in n.ev["e"][1] for n in g):
            out.append((f, g))
    p._asked = out
    return out


def seen_through(g, l):
    """what a branch says, also of conditions kept in variables"""
    out = []
    for e, t in truths(l):
        e = behind(g, e)
        while e[0] == "u" and e[1] == "!":
            e, t = behind(g, e[2]), not t
        out.append((e, t))
    return out


def found_edge(g, s, l):
    """names a branch says are there"""
    out = set()
    for e, t in seen_through(g, l):
        if e[0] == "c" and nm(e) in ("operator!=", "operator==") and "JsonValue" in e[1]:
            a = list(e[3]) + ([e[2]] if e[2] is not None else [])
            it = [x for x in a if not (strip_cast(x)[0] == "c" and nm(x) == "end")]
            if len(it) == 1 and len(a) == 2 and (nm(e) == "operator!=") == t:
                out |= wanted(g, s, it[0])
    return out


def lost_edge(g, s, l):
    """names a branch says are missing"""
    out = set()
    for e, t in seen_through(g, l):
        if e[0] == "c" and nm(e) in ("operator!=", "operator==") and "JsonValue" in e[1]:
            a = list(e[3]) + ([e[2]] if e[2] is not None else [])
            it = [x for x in a if not (strip_cast(x)[0] == "c" and nm(x) == "end")]
            if len(it) == 1 and len(a) == 2 and (nm(e) == "operator==") == t:
                out |= wanted(g, s, it[0])
    return out


def subs(n):
    return [x for e in event_exprs(n) for x in walk(e)]


def named(ctx, p):
    have = set()
    for f, g in graphs(p):
        ctx.analysed(f)
        init = f.kind == "ctor"
        get = bool(V(g, "tokenize"))
        for n in g:
            for fld, want in FIELDS.items():
                v = defines(n, ("m", fld)) if n.ev and n.k in ("asg", "init", "call") else None
                if v is None or f.cls != "Query":
                    continue
                s = text_names(names(g, n, v))
                if s:
                    have.add((get, fld))
                    ctx.ob("named", "%s: %s" % (f.short, fld), s <= {want} or want == "msResolution" and s <= {want, "ms"} or want == "tz" and s <= {"tz", "g_timezone"}, n.loc, "it is taken from %s" % ", ".join(sorted(s)))
        # the range asked for
        for n in g:
            for x in subs(n) + ([("k", n.ev["e"][1], n.ev["e"][2], n.ev["e"][3])] if n.k == "ctor" and n.ev["e"][0] == "k" else []):
                if x[0] != "k" or x[1] != "TimeRange" or len(x[3]) != 2:
                    continue
                a, b = text_names(names(g, n, x[3][0])), text_names(names(g, n, x[3][1]))
                if not (a | b) - {"now"}:
                    continue
                ctx.ob("named", "%s: start of the range" % f.short, a == {"start"}, n.loc, "it is taken from %s" % ", ".join(sorted(a)))
                ctx.ob("named", "%s: end of the range" % f.short, b == {"end", "now"}, n.loc, "it is taken from %s, not from its parameter or else the present" % ", ".join(sorted(b)))
        # the zone and the present
        for n in V(g, "parse_ts"):
            a = args(n)
            if len(a) == 3:
                ctx.ob("named", "%s: relative to now" % f.short, text_names(names(g, n, a[1])) == {"now"}, n.loc, "a time is not taken relative to the present")
                z = names(g, n, a[2])
                ctx.ob("named", "%s: zone of a time" % f.short, text_names(z) == {"tz"} and "g_timezone" in z, n.loc, "the zone asked for, or else the server's, is not used")
        # resolution: said outright, or by its mere presence
        for n in g:
            v, k = None, None
            if n.k == "asg":
                v, k = n.ev["rhs"], n.ev["lhs"]
            if v is not None and strip_cast(v)[0] == "c" and nm(v) == "operator!=" and names(g, n, v) == {"ms"}:
                have.add((f.short, "ms"))
            if v is None or const_of(v) != 1 or not (strip_cast(k)[0] == "m" and strip_cast(k)[2] == "Query::m_ms" or strip_cast(k)[0] == "v" and strip_cast(k)[1] in ms_vars(g)):
                continue
            r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: found_edge(g, s, l) == {"ms"})
            ctx.ob("named", "%s: milliseconds by name" % f.short, r is None, n.loc, "times are in milliseconds without being asked for")
            have.add((f.short, "ms"))
        if any("ms" in wanted(g, n, x) for n in g for x in subs(n) if x[0] == "c" and nm(x) == "find"):
            ctx.ob("named", "%s: milliseconds asked for" % f.short, (f.short, "ms") in have, f.loc(), "milliseconds are not given although they are asked for")
        # handed on
        for n in g:
            if n.k == "ctor" and n.ev["e"][0] == "k" and n.ev["e"][1] == "Query" and len(n.ev["e"][3]) == 5:
                a = n.ev["e"][3]
                ms, tz = names(g, n, a[3]), names(g, n, a[4])
                ctx.ob("named", "%s: resolution handed on" % f.short, (text_names(ms) == {"msResolution"} and 1 in ms or text_names(ms) == {"msResolution", "ms"}), n.loc, "a query does not get the resolution asked for")
                ctx.ob("named", "%s: zone handed on" % f.short, text_names(tz) == {"tz"}, n.loc, "a query does not get the zone asked for")
        # options of a rate, by the name or the place they have
        for n in V(g, "init"):
            if "RateCalculator" not in n.ev["e"][1] or len(args(n)) != 4:
                continue
            for i, want in enumerate(("counter", "dropResets", "counterMax", "resetValue")):
                s = text_names(names(g, n, args(n)[i]))
                if s and not get:
                    ctx.ob("named", "%s: %s" % (f.short, want), s == {want}, n.loc, "it is taken from %s" % ", ".join(sorted(s)))
                at = token_at(g, n, args(n)[i])
                if at and get:
                    ctx.ob("named", "%s: %s" % (f.short, want), at == {{"counter": 0, "counterMax": 1, "resetValue": 2, "dropResets": 3}[want]}, n.loc, "an option of the rate is taken from the wrong place")
        # the text of a query
        for n in V(g, "url_unescape"):
            if args(n):
                ctx.ob("named", "%s: text of the query" % f.short, text_names(names(g, n, args(n)[0])) == {"m"}, n.loc, "the query is taken from another parameter")
        # what the request says for all its queries
        if f.kind == "ctor" and len(f.params) == 5:
            for fld in ("Query::m_tz", "Query::m_ms", "Query::m_time_range"):
                want = {"Query::m_tz": "tz", "Query::m_ms": "ms", "Query::m_time_range": "range"}[fld]
                par = [q["n"] for q in f.params if q["t"].startswith({"tz": "const char", "ms": "bool", "range": "TimeRange"}[want])]
                ds = [n for n in g if n.ev and n.k in ("asg", "init", "call") and defines(n, ("m", fld)) is not None]
                ok = bool(ds) and all(any(x[0] == "v" and x[1] in par for o in [defines(n, ("m", fld))] + list(origins(g, defines(n, ("m", fld)))) for x in walk(o)) for n in ds)
                ctx.ob("named", "%s: %s given" % (f.short, want), ok, f.loc(), "a query does not use what its request says")
        # only what was found
        for n in g:
            its = set()
            if n.k == "call" and n.ev["e"][0] == "c" and "JsonValue" in n.ev["e"][1] and ("operator->" in n.ev["e"][1] or "operator*" in n.ev["e"][1]):
                its = {n.ev["e"][2] if n.ev["e"][2] is not None else n.ev["e"][3][0]}
            for it in its:
                w = wanted(g, n, it)
                if not w:
                    continue
                r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: found_edge(g, s, l) & w)
                ctx.ob("found", "%s: %s" % (f.short, "/".join(sorted(w))), r is None, n.loc, "a parameter is read although it may be missing")
        # what is required
        need = {w for n in g for s, l in n.succ if l and l[0] == "cond" for w in found_edge(g, n, l) | lost_edge(g, n, l)}
        for w in sorted(need & {"start", "m", "metric", "queries", "type", "q"}):
            if init:
                bad = lambda q: q is g.exit
            else:
                bad = lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) in ("execute", "query_for_ts") or q.k == "call" and nm(q.ev["e"]) == "init" and "HttpResponse" in q.ev["e"][1] and args(q) and const_of(args(q)[0]) == 200
            for n in g:
                for s, l in n.succ:
                    if l and w in lost_edge(g, n, l):
                        r = explore(g, [g.nodes[s]], {}, lambda q, v: bad(q))
                        ctx.ob("found", "%s: %s is required" % (f.short, w), r is None, n.loc, "a request without it is carried out")
    for get, fld in ((False, "Query::m_metric"), (False, "Query::m_aggregate"), (False, "Query::m_downsample"), (True, "Query::m_tz"), (True, "Query::m_ms")):
        ctx.ob("named", "%s is taken over (%s)" % (fld, "get" if get else "post"), (get, fld) in have or not p.all("Query::<ctor>"), p.all("Query::<ctor>")[0].loc() if p.all("Query::<ctor>") else "include/query.h:1", "a parameter of a query is not taken over")


def token_at(g, n, e):
    """places in a list of options a value is taken from"""
    out = set()
    e = strip_cast(e)
    if key(e) is None:
        return out
    for d in reaching(g, n, key(e)):
        for x in walk(defines(d, key(e))):
            if x[0] == "c" and nm(x) == "operator[]" and "vector" in x[1] and const_of(x[3][0]) is not None:
                out.add(const_of(x[3][0]))
    return out


def ms_vars(g):
    out = set()
    for n in g:
        if n.k == "ctor" and n.ev["e"][0] == "k" and n.ev["e"][1] == "Query" and len(n.ev["e"][3]) == 5:
            a = strip_cast(n.ev["e"][3][3])
            if a[0] == "v":
                out.add(a[1])
    return out


# ---- words

def equal(e, t, g):
    """the literal a text is said to be equal to, or to start with"""
    e = strip_cast(e)
    neg = False
    if e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) == 0:
        neg = e[1] == "!="
        e = strip_cast(e[2])
        if e[0] == "c" and nm(e) in ("strcmp", "strncmp", "strcasecmp") and (t != neg):
            return {x[1] for a in e[3] for x in walk(a) if x[0] == "s"}
        return set()
    if e[0] == "c" and nm(e) in ("strcmp", "strncmp") and not t:
        return {x[1] for a in e[3] for x in walk(a) if x[0] == "s"}
    if e[0] == "c" and nm(e) == "operator==" and t:
        return {x[1] for a in e[3] for x in walk(a) if x[0] == "s"}
    return set()


def usage(e):
    """the word for a use of rolled up data"""
    e = strip_cast(e)
    return e[2].split("::")[-1].replace("RU_", "ROLLUP_") if e[0] == "i" and len(e) > 2 and isinstance(e[2], str) and "RU_" in e[2] and "RAW" in e[2] else None


def words(ctx, p):
    for f, g in graphs(p):
        if f.cls == "QueryExecutor":
            continue
        for n in g:
            for x in subs(n):
                if x[0] == "c" and nm(x) == "strncmp" and len(x[3]) == 3 and const_of(x[3][2]) is not None and n.k in ("call", "cmp"):
                    s = [strip_cast(a)[1] for a in x[3][:2] if strip_cast(a)[0] == "s"]
                    if s:
                        ctx.ob("words", "%s: %s" % (f.short, s[0]), const_of(x[3][2]) == len(s[0]), n.loc, "not the whole word is compared")
                # what follows a word
                if x[0] == "b" and x[1] == "+" and strip_cast(x[2])[0] == "v" and "char" in str(strip_cast(x[2])[4:]) and (const_of(x[3]) or 0) > 1:
                    v, k = strip_cast(x[2]), const_of(x[3])
                    ok = lambda s, l: any(len(w) == k for e, t in seen_through(g, l) for w in equal(e, t, g))
                    r = paths(g).search([g.entry], lambda q: q is n, stop_edge=ok)
                    ctx.ob("words", "%s: behind a word" % f.short, r is None, n.loc, "what follows a word is not looked at where the word ends")
        for n in g:
            l = strip_cast(n.ev["lhs"]) if n.k == "asg" else ("n",)
            fld = l[2] if l[0] == "m" else "Query::m_rollup" if n.k == "asg" and usage(n.ev["rhs"]) == "ROLLUP_RAW" else None
            if fld in ("Query::m_rollup", "Query::m_explicit_tags"):
                e = strip_cast(n.ev["rhs"])
                if fld == "Query::m_rollup" and not usage(e):
                    continue
                if fld == "Query::m_explicit_tags":
                    if const_of(e) != 1:
                        continue
                    want = {"explicit_tags"}
                else:
                    want = {usage(e)}
                r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: any(want & equal(x, t, g) for x, t in seen_through(g, l)))
                ctx.ob("words", "%s: %s" % (f.short, "/".join(want)), r is None, n.loc, "a word means something else")
        for w, fld in (("explicit_tags", "Query::m_explicit_tags"), ("ROLLUP_RAW", "Query::m_rollup"), ("rate{", "Query::m_rate_calculator"), ("rate", "Query::m_rate_calculator")):
            for n in g:
                for s, l in n.succ:
                    if l and l[0] == "cond" and any(w in equal(e, t, g) for e, t in seen_through(g, l)):
                        sets = lambda q: q.ev and defines(q, ("m", fld)) is not None and fld != "Query::m_rollup" and const_of(defines(q, ("m", fld))) != 0 or fld == "Query::m_rollup" and q.k == "asg" and usage(q.ev["rhs"]) == w
                        lp = loop_of(g, n)
                        r = paths(g).search([g.nodes[s]], lambda q: q is g.exit or lp is not None and q.id == lp[0], stop=sets)
                        ctx.ob("words", "%s: %s is taken over" % (f.short, w), r is None, n.loc, "a word in a query has no effect")


# ---- times

def times(ctx, p):
    for f in p.funcs.values():
        if f.short != "parse_ts" or not f.file.startswith("src/"):
            continue
        ctx.analysed(f)
        g = local(p, f, keep=("get_tz_diff", "to_time_unit", "convert_time"))
        kinds = set()
        for q in each_path(g):
            t = q.ret
            if t is None:
                continue
            t = norm(t)
            if mentions(t, lambda x: x[0] == "c" and x[1] == "convert_time"):
                kinds.add("ago")
                ok = t[0] == "b" and t[1] == "-" and t[2] == ("v", "now") and t[3][0] == "c" and t[3][1] == "convert_time"
                ctx.ob("time", "counted back from now", ok, f.loc(), "a time ago is not counted back from now")
                if ok:
                    c = t[3]
                    ctx.ob("time", "number given counts", mentions(c[3][0], lambda x: x[0] == "c" and x[1] in ("atoll", "strtoll", "stoll", "strtoull", "atol", "strtol")), f.loc(), "the number of units is not the one given")
                    ctx.ob("time", "unit given counts", mentions(c[3][1], lambda x: x[0] == "c" and x[1] == "to_time_unit"), f.loc(), "the unit is not the one given")
                    ctx.ob("time", "in the unit of time stamps", resolution(c[3][2], q), f.loc(), "the time ago is not in the unit time stamps have")
            elif mentions(t, lambda x: x[0] == "c" and x[1] in ("timegm", "mktime")):
                zone = mentions(t, lambda x: x[0] == "c" and x[1] == "get_tz_diff")
                kinds.add("zone" if zone else "utc")
                want = {"timegm": 1, "get_tz_diff": -1} if zone else {"timegm": 1}
                ok = True
                for ms in [tr for e, tr in plain(q) if e == ("v", "g_tstamp_resolution_ms")][:1] or (True, False):
                    w = weights(choose(t, ms))
                    # in seconds it is told by its size
                    ok = ok and w is not None and not w.get(1) and {k: v for k, v in w.items() if k != 1 and v} in [{k: v * m for k, v in want.items()} for m in ((1000, 1) if ms else (1,))]
                ctx.ob("time", "zone taken into account" if zone else "time in UTC", ok, f.loc(), "the time given and the difference to UTC are not put together in one unit")
        ctx.ob("time", "kinds of times", {"ago", "zone", "utc"} <= kinds, f.loc(), "a way to give a time is not known any more")
        # formats: as long as what is known to be there, and with the separator seen
        for n in V(g, "strptime"):
            fmt = [strip_cast(a)[1] for a in args(n) if strip_cast(a)[0] == "s"]
            if len(fmt) != 1:
                continue
            size = len(re.sub(r"%Y", "0000", re.sub(r"%[mdHMS]", "00", fmt[0])))
            long = lambda s, l: any(at_least(e, t) is not None and at_least(e, t) >= size for e, t in truths(l))
            ctx.ob("time", "format %s" % fmt[0], paths(g).search([g.entry], lambda q: q is n, stop_edge=long) is None, n.loc, "a time is read in a format longer than it is")
            if size > 10:
                c = ord(re.sub(r"%Y", "0000", re.sub(r"%[mdHMS]", "00", fmt[0]))[10])
                opp = lambda s, l: any(sep(e, t) is not None and sep(e, t)[0] != c and sep(e, t)[1] or sep(e, t) is not None and sep(e, t)[0] == c and not sep(e, t)[1] for e, t in truths(l))
                ctx.ob("time", "separator in %s" % fmt[0], paths(g).search([g.entry], lambda q: q is n, stop_edge=opp) is not None, n.loc, "a time is read in a format with another separator")


def plain(q):
    return [(norm(c[0]), c[1]) for c in q.conds if len(c) == 2]


def choose(t, ms):
    """a term for one resolution of time stamps"""
    if t[0] == "?" and t[1] == ("v", "g_tstamp_resolution_ms"):
        return choose(t[2] if ms else t[3], ms)
    if t[0] == "?" and t[1][0] == "u" and t[1][2] == ("v", "g_tstamp_resolution_ms"):
        return choose(t[3] if ms else t[2], ms)
    return t[:2] + tuple(choose(x, ms) for x in t[2:]) if t[0] == "b" else t


def weights(t):
    """a sum as {what: how many times}, constants under 1; None if it is not one"""
    if t[0] == "i":
        return {1: t[1]}
    if t[0] == "c" and t[1] in ("timegm", "get_tz_diff"):
        return {t[1]: 1}
    if t[0] == "b" and t[1] in ("+", "-", "*"):
        a, b = weights(t[2]), weights(t[3])
        if a is None or b is None:
            return None
        if t[1] == "*":
            if set(a) != {1}:
                a, b = b, a
            return {k: v * a[1] for k, v in b.items()} if set(a) == {1} else None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == "+" else -v)
        return out
    return None


def at_least(e, t):
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return None
    a, b, op = e[2], e[3], e[1]
    if const_of(a) is not None:
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
    if not t:
        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
    k = const_of(b)
    if k is None or op not in (">", ">="):
        return None
    return k + (op == ">")


def sep(e, t):
    """what a branch says of the character between date and time"""
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("==", "!=") and strip_cast(e[2])[0] == "x" and const_of(strip_cast(e[2])[2]) == 10 and const_of(e[3]) is not None:
        return const_of(e[3]), (e[1] == "==") == t
    return None


def norm(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "v":
        return ("v", t[1])
    if t[0] == "c":
        return ("c", t[1].split("::")[-1], None, tuple(norm(x) for x in t[3]))
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


def resolution(t, q):
    """milliseconds if time stamps are, else seconds"""
    if t[0] == "?":
        c, a, b = t[1:4]
        if c[0] == "u" and c[1] == "!":
            c, a, b = c[2], b, a
        return c == ("v", "g_tstamp_resolution_ms") and unit(a) == "MS" and unit(b) == "SEC"
    for e, tr in plain(q):
        if e == ("v", "g_tstamp_resolution_ms"):
            return unit(t) == ("MS" if tr else "SEC")
    return False


UNITS = {0: "MS", 1: "SEC"}


def unit(t):
    return UNITS.get(t[1]) if t[0] == "i" else None


# ---- every query

def every(ctx, p):
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls != "QueryExecutor":
            continue
        g = local(p, f, keep=("QueryExecutor::prepare_response",))
        ex = [n for n in V(g, "execute") if n.ev["e"][1].startswith("Query::")]
        pr = V(g, "prepare_response")
        if not ex:
            continue
        ctx.analysed(f)
        lp = loop_of(g, ex[0])
        if lp is not None:
            r = each(g, ex)
            ctx.ob("all", "%s: each query" % f.short, r is None, ex[0].loc, "not every query is carried out: %s" % r)
            h, body = lp
            iv = [x for n in g if n.id in body for x in subs(n) if x[0] == "c" and nm(x) == "operator[]" and strip_cast(x[3][0])[0] == "v"]
            for x in iv[:1]:
                ds = [const_of(d) for d in common._defs(g).get(strip_cast(x[3][0])[2], ()) if const_of(d) is not None]
                ctx.ob("all", "%s: from the first query on" % f.short, 0 in ds, ex[0].loc, "the first query is left out")
        for n in ex:
            # its results
            res = strip_cast(args(n)[0])
            direct = any(strip_cast(a) == res for m in pr for a in args(m))
            took = [m for m in g if m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("insert", "push_back", "emplace_back") and any(x == res for a in args(m) for o in [a] + list(origins(g, a)) for x in walk(o))]
            none = lambda s, l: any(e[0] == "c" and (nm(e) == "empty" and t or nm(e) == "operator!=" and not t and any(x == res for a in e[3] for o in origins(g, a) for x in deep(g, o))) for e, t in seen_through(g, l))
            end = lambda q: q in pr or q is g.exit or lp is not None and q.id == lp[0]
            r = None if direct else paths(g).search(after(g, n), end, stop=lambda q: q in took, stop_edge=none)
            ctx.ob("all", "%s: results of each query" % f.short, r is None, n.loc, "results of a query are lost")
            # its failure
            err = [m for m in g if m.ev and m.k in ("asg", "decl") and any(x[0] == "c" and nm(x) == "get_errno" for x in deep(g, m.ev.get("rhs") if m.k == "asg" else m.ev.get("init")))]
            err = [m for m in err if used_in(g, m, pr)]
            fine = lambda s, l: any(zero(e, t, lambda x: strip_cast(x)[0] == "c" and nm(x) == "get_errno" or any(strip_cast(o)[0] == "c" and nm(o) == "get_errno" for o in origins(g, x))) for e, t in truths(l))
            direct = any(strip_cast(a)[0] == "c" and nm(a) == "get_errno" for m in pr for a in args(m))
            r = None if direct else paths(g).search(after(g, n), end, stop=lambda q: q in err, stop_edge=fine)
            ctx.ob("all", "%s: failure of each query" % f.short, r is None, n.loc, "a query that failed is answered as if it had not")
            r = paths(g).search(after(g, n), lambda q: q is g.exit, stop=lambda q: q in pr)
            ctx.ob("all", "%s: answered" % f.short, r is None, n.loc, "queries carried out are not answered")
            # a later query does not make the failure good
            for m in err:
                v = strip_cast(m.ev["lhs"]) if m.k == "asg" else None
                if v is None or v[0] != "v" or lp is None:
                    continue
                r = paths(g).search([g.entry], lambda q: q is m, stop_edge=lambda s, l: any(zero(e, not t, lambda x: any(y[0] == "c" and nm(y) == "get_errno" for o in [x] + list(origins(g, x)) for y in walk(o))) for e, t in truths(l)))
                ctx.ob("all", "%s: failure is kept" % f.short, r is None or mentions_self(m), m.loc, "a later query hides the failure of an earlier one")
    for f in p.all("Query::execute"):
        g = local(p, f)
        do = V(g, "perform")
        sets = [n for n in g if n.k == "asg" and writes_field(n, "Query::m_errno") and any(x[0] == "c" and nm(x) == "get_errno" for o in [n.ev["rhs"]] + list(origins(g, n.ev["rhs"])) for x in walk(o))]
        for n in do:
            r = paths(g).search(after(g, n), lambda q: q is g.exit, stop=lambda q: q in sets)
            ctx.ob("all", "Query::execute: failure", r is None, n.loc, "the failure of a query is forgotten")
            for what in ("aggregate", "calculate_rate"):
                r = paths(g).search(after(g, n), lambda q: q is g.exit, stop=lambda q: q in V(g, what))
                ctx.ob("all", "Query::execute: %s" % what, r is None, n.loc, "a step of the query is left out")
    for f in p.all("QuerySuperTask::perform"):
        g = Graph(p, f)
        starts = [g.nodes[s] for n in g for s, l in n.succ if l and l[0] == "catch"]
        ok = lambda q: q.k == "asg" and writes_field(q, "QuerySuperTask::m_errno") and const_of(q.ev["rhs"]) != 0
        r = paths(g).search(starts, lambda q: q is g.exit, stop=ok)
        ctx.ob("all", "QuerySuperTask::perform: failure", bool(starts) and r is None, f.loc(), "the failure of a query is forgotten")


def deep(g, e):
    """parts of an expression, through locals with one value"""
    out = []
    for x in walk(e or ("n",)):
        out.append(x)
        if x[0] == "v" and behind(g, x) != x:
            out += walk(behind(g, x))
    return out


def mentions_self(m):
    v = strip_cast(m.ev["lhs"])
    return any(x == v for x in walk(m.ev["rhs"]))


def used_in(g, m, pr):
    v = m.ev["id"] if m.k == "decl" else key(m.ev["lhs"])
    return any(x[0] == "v" and x[2] == v for q in pr for a in args(q) for x in walk(a))


def zero(e, t, isx):
    e = strip_cast(e)
    if e[0] == "u" and e[1] == "!":
        return zero(e[2], not t, isx)
    if e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) == 0 and isx(e[2]):
        return (e[1] == "==") == t
    return e[0] != "b" and isx(e) and not t


# ---- answers

def inits(g):
    return [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "init" and "HttpResponse" in n.ev["e"][1] and args(n)]


def status(g, n):
    return {const_of(o) for o in origins(g, args(n)[0])}


def char_put(n, c):
    """a character put into a buffer"""
    return n.k == "asg" and const_of(n.ev["rhs"]) == ord(c) and strip_cast(n.ev["lhs"])[0] in ("x", "u")


def prints(n, *texts):
    if n.k != "call" or n.ev["e"][0] != "c" or nm(n.ev["e"]) not in ("snprintf", "sprintf"):
        return False
    f = [strip_cast(a)[1] for a in args(n) if strip_cast(a)[0] == "s"]
    return bool(f) and any(t in f[0] for t in texts)


def whole(g, acts, leave, excuse=None):
    """is one of acts done for every element, unless there is no room?"""
    lp = loop_of(g, acts[0])
    if lp is None:
        return "it is done once only"
    h, body = lp
    start = [g.nodes[s] for s, l in g.nodes[h].succ if s in body]
    no = lambda s, l: excuse is not None and excuse(s, l) or leave(s, l)
    if paths(g).search(start, lambda q: q.id == h, stop=lambda q: q in acts or q.id not in body, stop_edge=no) is not None:
        return "some are passed over"
    for x in body:
        for s, l in g.nodes[x].succ:
            if s in body or l and l[0] in ("eh", "throw"):
                continue
            if l and l[0] == "cond" and (leave(g.nodes[x], l) or any(ends(g, e, body) and nm(e) != "empty" and cmp_size(e, t) is None for e, t in truths(l))):
                continue
            if paths(g).search(start, lambda q: q.id == x, stop=lambda q: q.id not in body, stop_edge=leave) is None:
                continue
            return "the rest is left out"
    return None


def answer(ctx, p):
    for f in p.all("QueryExecutor::prepare_response"):
        g = local(p, f)
        ctx.analysed(f)
        js = [n for n in V(g, "to_json") if "QueryResults" in n.ev["e"][1]]
        good = [n for n in inits(g) if 200 in status(g, n)]
        ctx.ob("answer", "results are put out", bool(js), f.loc(), "no results are put out")
        ctx.ob("answer", "answered with success", bool(good), f.loc(), "no query is ever answered")
        r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in inits(g))
        ctx.ob("answer", "always answered", r is None, f.loc(), "a query is not answered")
        size = {q["n"] for q in f.params}
        full = lambda e, t: full_buffer(g, e, t)
        none = lambda s, l: any(e[0] == "c" and nm(e) == "empty" and t for e, t in seen_through(g, l)) or any(full(e, t) for e, t in seen_through(g, l))
        for n in js[:1]:
            r = whole(g, js, excuse=none, leave=lambda s, l: any(full(e, t) for e, t in seen_through(g, l)))
            ctx.ob("answer", "every result with points", r is None, n.loc, "not every result is put out: %s" % r)
            comma = lambda q: prints(q, ",") or char_put(q, ",")
            first = lambda s, l: any(is_char(e, t, "[") for e, t in seen_through(g, l))
            r = paths(g).search(after(g, n), lambda q: q in js, stop=comma, stop_edge=first)
            ctx.ob("answer", "results are kept apart", r is None, n.loc, "two results follow each other without a comma")
            r = paths(g).search([g.entry], lambda q: q in js, stop=lambda q: char_put(q, "[") or prints(q, "["))
            ctx.ob("answer", "begun as a list", r is None, n.loc, "the answer does not begin as a list")
        for n in good:
            r = paths(g).search([g.entry], lambda q: q is n, stop=lambda q: char_put(q, "]") or prints(q, "]"))
            ctx.ob("answer", "ended as a list", r is None, n.loc, "the answer does not end as a list")
            # not when it failed
            err = [q for q in f.params if q["t"] == "int"]
            for q in err:
                isx = lambda x: strip_cast(x)[0] == "v" and strip_cast(x)[1] == q["n"]
                fail = lambda s, l: any(zero(e, t, isx) for e, t in seen_through(g, l))
                r = paths(g).search([g.entry], lambda m: m is n, stop_edge=fail)
                ctx.ob("answer", "failure is told", r is None, n.loc, "a query that failed is answered as if it had not")
            fits = lambda s, l: any(room(e, t) for e, t in seen_through(g, l))
            r = paths(g).search([g.entry], lambda m: m is n, stop_edge=fits)
            ctx.ob("answer", "only if it fits", r is None, n.loc, "an answer that does not fit is sent cut off")


def is_char(e, t, c):
    e = strip_cast(e)
    return e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) == ord(c) and (e[1] == "==") == t


def full_buffer(g, e, t):
    """the position has reached the size"""
    r = cmp_size(e, t)
    return r is not None and r[0] in (">", ">=")


def room(e, t):
    """the position is below the size"""
    r = cmp_size(e, t)
    return r is not None and r[0] in ("<", "<=") and r[1]


def cmp_size(e, t):
    """(how a position compares with a size, strictly below it)"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return None
    a, b, op = e[2], e[3], e[1]
    isz = lambda x: any(y[0] == "v" and "size" in y[1] or y[0] == "c" and "size" in nm(y) or y[0] == "o" for y in walk(x))
    if isz(a) and not isz(b):
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
    if not isz(b) or isz(a):
        return None
    if not t:
        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
    return op, op == "<"


# ---- points

def data(n):
    """what is put in the places of a format"""
    a = [strip_cast(x) for x in args(n)]
    at = [i for i, x in enumerate(a) if x[0] == "s"]
    return a[at[0] + 1:] if at else []


def points(ctx, p):
    for f in p.all("QueryResults::to_json"):
        g = local(p, f, keep=("QueryResults::to_json_tags", "QueryResults::to_json_aggregate_tags", "to_json_tags", "to_json_aggregate_tags"))
        ctx.analysed(f)
        pr = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("snprintf", "sprintf")]
        pt = [n for n in pr if any(x[0] == "m" and x[2].endswith("::first") for a in data(n) for x in walk(behind(g, a)))]
        ctx.ob("points", "points are put out", bool(pt), f.loc(), "no points are put out")
        if not pt:
            continue
        r = whole(g, pt, leave=lambda s, l: any(full_buffer(g, e, t) for e, t in seen_through(g, l)))
        ctx.ob("points", "every point", r is None, pt[0].loc, "not every point is put out: %s" % r)
        lp = loop_of(g, pt[0])
        src = lp is not None and any(x[0] == "m" and x[2] == "QueryResults::m_dps" for n in g for x in subs(n))
        ctx.ob("points", "points of this result", src, f.loc(), "other points are put out")
        for n in pt:
            fmt = [strip_cast(a)[1] for a in args(n) if strip_cast(a)[0] == "s"]
            fmt = fmt[0] if fmt else ""
            has = [[x[2].split("::")[-1] for x in walk(behind(g, a)) if x[0] == "m" and x[2].endswith(("::first", "::second"))] for a in data(n)]
            has = [h[0] for h in has if h]
            if re.search("nan", fmt, re.I) or re.search("inf", fmt, re.I):
                fn = "isnan" if re.search("nan", fmt, re.I) else "isinf"
                is_ = lambda s, l: any(tests(e, t, fn) for e, t in seen_through(g, l))
                ctx.ob("points", "%s" % fmt, has == ["first"] and paths(g).search([g.entry], lambda q: q is n, stop_edge=is_) is None, n.loc, "a number is put out as none, or without its time")
                ctx.ob("points", "%s in quotes" % fmt, fmt.count('"') == 4, n.loc, "the answer is not well formed")
            else:
                ctx.ob("points", "%s" % fmt, has == ["first", "second"], n.loc, "a point is not put out as its time and its value")
                for fn in ("isnan", "isinf"):
                    not_ = lambda s, l: any(tests(e, not t, fn) for e, t in seen_through(g, l))
                    r = paths(g).search([g.entry], lambda q: q is n, stop_edge=not_)
                    ctx.ob("points", "numbers only (%s)" % fn, r is None, n.loc, "the answer is not well formed when a value is no number")
                ctx.ob("points", "time in quotes", bool(re.match(r'^,?"%[lz]?[lj]?u":%', fmt)), n.loc, "the answer is not well formed")
            comma = lambda q: prints(q, ",") and q in pr and q not in pt or char_put(q, ",")
            first = lambda s, l: any(is_char(e, t, "{") for e, t in seen_through(g, l))
            r = paths(g).search(after(g, n), lambda q: q in pt, stop=comma, stop_edge=first)
            ctx.ob("points", "points are kept apart", r is None or fmt.startswith(","), n.loc, "two points follow each other without a comma")
        # begun and ended
        head = [n for n in pr if prints(n, '"dps":{')]
        ctx.ob("points", "begun", bool(head) and paths(g).search([g.entry], lambda q: q in pt, stop=lambda q: q in head) is None, f.loc(), "points are put out before their result is begun")
        for n in head:
            fmt = [strip_cast(a)[1] for a in args(n) if strip_cast(a)[0] == "s"][0]
            order = []
            for a in data(n):
                for x in walk(behind(g, a)):
                    if x[0] == "m" and x[2] == "QueryResults::m_metric":
                        order.append("metric")
                    if x[0] == "c" and nm(x) in ("to_json_tags", "to_json_aggregate_tags"):
                        order.append(nm(x))
            order = [x for i, x in enumerate(order) if x not in order[:i]]
            ctx.ob("points", "what the points belong to", order[:1] == ["metric"] and set(order) == {"metric", "to_json_tags", "to_json_aggregate_tags"} and fmt.startswith('{"metric":"%s",%s,%s,"dps":{'), n.loc, "metric, tags and aggregated tags are not put out with the points")
            # room for the tags
            for a in data(n):
                for x in walk(behind(g, a)):
                    if x[0] == "c" and nm(x) in ("to_json_tags", "to_json_aggregate_tags"):
                        b = strip_cast(x[3][0])
                        m = re.search(r"\[(\d+)\]", b[4] if b[0] == "v" and len(b) > 4 else "")
                        if m:
                            ctx.ob("points", "room for %s" % nm(x), int(m[1]) >= 2 * tag_length(p) + 16 and (const_of(x[3][1]) is None or const_of(x[3][1]) <= int(m[1])), n.loc, "long tags are cut off and the answer is not well formed")
        done = lambda q: prints(q, "}}")
        ends = [n for n in g if n.k == "ret"]
        short_ = lambda s, l: any(full_buffer(g, e, t) for e, t in seen_through(g, l))
        r = paths(g).search([g.entry], lambda q: q is g.exit, stop=done, stop_edge=short_)
        ctx.ob("points", "ended", r is None, f.loc(), "the answer is not ended")
        # what does not fit is told: from there no way to an answer that looks whole
        for n in g:
            if lp is None or n.id not in lp[1]:
                continue
            for s, l in n.succ:
                if l and s not in lp[1] and any(full_buffer(g, e, t) for e, t in seen_through(g, l)) or l and any(full_buffer(g, e, t) for e, t in seen_through(g, l)) and paths(g).search([g.nodes[s]], lambda q: q in pt, stop=lambda q: q.id == lp[0]) is None:
                    r = paths(g).search([g.nodes[s]], done, stop=lambda q: q.id == lp[0])
                    if paths(g).search([g.nodes[s]], lambda q: q.id == lp[0], stop=lambda q: q.id not in lp[1]) is not None:
                        continue
                    ctx.ob("points", "points that do not fit", r is None, n.loc, "points that do not fit are left out and the answer looks whole")
        # zeros taken off the end
        for n in g:
            if n.k == "asg" and n.ev["op"] == "--" and strip_cast(n.ev["lhs"])[0] == "v" and lp is not None and n.id in lp[1]:
                zero_ = lambda s, l: any(is_char(e, t, "0") and back(e) in (None, 1) for e, t in truths(l))
                dot = lambda s, l: any(is_char(e, not t, ".") and back(e) in (None, 2) for e, t in truths(l))
                for what, ed in (("only zeros are taken off", zero_), ("a digit is left behind the point", dot)):
                    r = paths(g).search(after(g, n) + [g.entry], lambda q: q is n, stop_edge=ed)
                    ctx.ob("points", what, r is None, n.loc, "a value is put out changed")
    for f in p.all("QueryResults::add_dps"):
        g = local(p, f)
        put = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("insert", "push_back", "emplace_back", "append", "swap", "operator=") and n.ev["e"][2] is not None and any(x[0] == "m" and x[2] == "QueryResults::m_dps" for x in walk(n.ev["e"][2]))]
        empty = lambda s, l: any(strip_cast(e)[0] == "c" and (nm(e) == "empty" and t or nm(e) in ("operator!=",) and not t) for e, t in truths(l))
        r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in put, stop_edge=empty)
        ctx.ob("points", "points given are taken over", bool(put) and r is None, f.loc(), "points of a result are lost")


def back(e):
    """how far back from the end a character compared is"""
    x = strip_cast(strip_cast(e)[2])
    i = strip_cast(x[2]) if x[0] == "x" else ("n",)
    return const_of(i[3]) if i[0] == "b" and i[1] == "-" else None


def tests(e, t, fn):
    """is a value said to be one that fn looks for?"""
    e = strip_cast(e)
    for _ in range(4):
        if e[0] == "u" and e[1] == "!":
            e, t = strip_cast(e[2]), not t
        elif e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) in (0, 1):
            e, t = strip_cast(e[2]), t == ((e[1] == "==") == (const_of(e[3]) == 1))
        elif e[0] in ("c", "ci") and "builtin_expect" in str(e[1]):
            e = strip_cast(e[3][0] if e[0] == "c" else e[2][0])
    return t and any(x[0] in ("c", "ci") and fn in str(x[1]) for x in walk(e))


def tag_length(p):
    """the longest text tags are put together in"""
    out = 0
    for f in p.all("Query::get_query_tasks"):
        for ev in f.events():
            if ev["k"] == "decl":
                m = re.match(r"char\[(\d+)\]", ev["t"])
                if m:
                    out = max(out, int(m[1]))
    return out or 1024


# ---- lookups

SOURCES = {"metrics": None, "tagk": "get_keys", "tagv": "get_values"}


def lookup(ctx, p):
    for f in p.all("Tsdb::http_get_api_suggest_handler"):
        g = local(p, f)
        ctx.analysed(f)
        put = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("insert", "emplace") and n.ev["e"][2] is not None and "set<" in str(strip_cast(n.ev["e"][2])[4:])]
        js = V(g, "to_json")
        given = {x for n in js for a in args(n) for x in walk(a) if x[0] == "v"}
        put = [n for n in put if strip_cast(n.ev["e"][2]) in given]
        for w, src in SOURCES.items():
            es = [(n, s) for n in g for s, l in n.succ if l and l[0] == "cond" and any(w in equal(e, t, g) for e, t in seen_through(g, l))]
            ctx.ob("lookup", "names of %s are known" % w, bool(es), f.loc(), "a kind of name cannot be looked up any more")
            other = lambda s, l: any(equal(e, t, g) & (set(SOURCES) - {w}) for e, t in seen_through(g, l))
            for n, s in es:
                mine = [q for q in put if paths(g).search([g.nodes[s]], lambda m: m is q, stop_edge=other) is not None]
                ctx.ob("lookup", "names of %s are given" % w, bool(mine), n.loc, "names looked up are not given")
                got = {x for x in ("get_keys", "get_values") for q in V(g, x) if paths(g).search([g.nodes[s]], lambda m: m is q, stop_edge=other) is not None}
                ctx.ob("lookup", "source of %s" % w, got == ({src} if src else set()), n.loc, "names of another kind are given")
        for n in put:
            hit = lambda s, l: any(t and (strip_cast(e)[0] == "c" and nm(e) in ("starts_with", "strncmp", "strcmp") or star(g, e)) for e, t in truths(l) + seen_through(g, l))
            lp = loop_of(g, n)
            r = paths(g).search([g.nodes[lp[0]]] if lp else [g.entry], lambda q: q is n, stop_edge=lambda s, l: hit(s, l))
            ctx.ob("lookup", "only names that match", r is None, n.loc, "a name that does not match is given")
            for e in [e for q in V(g, "starts_with") for e in [q]]:
                a = args(e)
                ctx.ob("lookup", "matched against what was asked for", len(a) == 2 and "q" in names(g, e, a[1]) and "q" not in names(g, e, a[0]), e.loc, "names are not matched against what was asked for")
            # the number asked for
            many = lambda s, l: any(limit(g, s, e, not t) for e, t in seen_through(g, l))
            r = paths(g).search(after(g, n), lambda q: q in put, stop_edge=many)
            ctx.ob("lookup", "no more names than asked for", r is None, n.loc, "more names are given than were asked for")
        for n in [n for n in inits(g) if 200 in status(g, n)]:
            fits = lambda s, l: any(room(e, t) for e, t in seen_through(g, l))
            r = paths(g).search([m for m in js] or [g.entry], lambda m: m is n, stop_edge=fits)
            ctx.ob("lookup", "names only if they fit", r is None, n.loc, "names that do not fit are sent cut off")
    for f in p.all("QueryExecutor::http_get_api_search_lookup_handler"):
        g = local(p, f)
        ctx.analysed(f)
        ids = [n for n in g if prints(n, '"tsuid"')]
        for n in [n for n in inits(g) if 200 in status(g, n)]:
            fits = lambda s, l: any(room(e, t) for e, t in seen_through(g, l))
            r = paths(g).search(ids or [g.entry], lambda m: m is n, stop_edge=fits)
            ctx.ob("lookup", "series only if they fit", r is None, n.loc, "series that do not fit are sent cut off")
        for n in ids:
            for w, past in (("limit", True), ("startIndex", False)):
                ok = lambda s, l: any(counted(g, s, e, t, w) for e, t in seen_through(g, l))
                lp = loop_of(g, n)
                r = paths(g).search([g.nodes[lp[0]]] if lp else [g.entry], lambda q: q is n, stop_edge=ok)
                ctx.ob("lookup", "series by %s" % w, r is None, n.loc, "the first series asked for, or their number, is not kept to")


def star(g, e):
    e = strip_cast(e)
    return e[0] == "v" and any(is_char(x, True, "*") for d in common._defs(g).get(e[2], ()) for x in walk(d)) or is_char(e, True, "*")


def limit(g, s, e, t):
    """said to have reached the number asked for"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">=", "==", "!="):
        return False
    a, b, op = e[2], e[3], e[1]
    if "max" in names(g, s, a):
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if not any(x[0] == "c" and nm(x) == "size" for x in walk(a)) or "max" not in names(g, s, b):
        return False
    if not t:
        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
    return op in (">=", "==")


def counted(g, s, e, t, w):
    """a count said to be below the limit, or to have reached the first index"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return False
    a, b, op = e[2], e[3], e[1]
    if w in names(g, s, a):
        a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
    if w not in names(g, s, b):
        return False
    if not t:
        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
    return op == ("<" if w == "limit" else ">=")
