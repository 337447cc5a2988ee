"""Queries: every series that matches, every point of the range, once."""
from common import *
import common
from p18 import after
from along import *
from p18 import implies

ASSUMPTIONS = [
    "what a pattern matches is the regular expression library's business",
    "where the pages of a series are is the business of another property",
]

THIS = ("t",)


def check(ctx):
    p = ctx.prog
    ctx.rule("series", "every series that matches takes part, and no other", 8)
    ctx.rule("match", "a series matches when all its queried tags do", 10)
    ctx.rule("range", "points in the range are taken, others are not", 6)
    ctx.rule("page", "every page and buffer that may have points is looked at", 6)
    ctx.rule("order", "points come out in order, the newest value wins", 5)
    ctx.rule("all", "what was found is put together for every series", 8)
    ctx.rule("group", "each series is put in one group, its own", 6)
    choose(ctx, p)
    tasks(ctx, p)
    matcher(ctx, p)
    forms(ctx, p)
    lists(ctx, p)
    plain_points(ctx, p)
    mixed_points(ctx, p)
    pages(ctx, p)
    buffers(ctx, p)
    perform(ctx, p)
    groups(ctx, p)


# ---- helpers

def local(p, f, keep=(), depth=3):
    """the function with those helpers written out that only it uses"""
    ce, cr = p.callgraph()
    return Graph(p, f, lambda x, e, d: not x.virt and x.short not in keep and (x.cls == f.cls or not x.cls) and x.file.startswith(("src/", "include/")) and set(cr.get(x.id, ())) <= {f.id}, maxdepth=depth)


def nm(e):
    """last part of the name of what is called"""
    e = strip_cast(e)
    return short(e[1]).split("::")[-1] if e[0] == "c" else None


def V(g, *names):
    return [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in names]


def behind(g, e, depth=4):
    """an expression with single-valued locals replaced by what they hold"""
    e = strip_cast(e)
    while depth and e[0] == "v" and e[3] != "g":
        ds = common._defs(g).get(e[2], ())
        if len(ds) != 1:
            break
        e, depth = strip_cast(ds[0]), depth - 1
    return e


def ends(g, e, body):
    """a condition that says whether there are elements left"""
    e = strip_cast(e)
    if e[0] == "c":
        return nm(e) in ("operator!=", "operator==", "empty") and "thread::id" not in e[1]
    if e[0] == "u" and e[1] == "!":
        return ends(g, e[2], body)
    moved = lambda x: moved(x[2]) if x[0] == "u" and x[1] in ("++", "--", "p++", "p--", "post++", "post--") else strip_cast(x)[0] == "v" and strip_cast(x)[3] != "g" and any(m.k == "asg" and m.id in body and strip_cast(m.ev["lhs"]) == strip_cast(x) for m in g)
    if e[0] == "v":
        return len(e) > 4 and e[4].endswith("*") and moved(e)
    if e[0] == "b" and e[1] in ("<", "<=", ">", ">=", "==", "!="):
        return any(moved(x) for x in e[2:4])
    return False


def each(g, acts, excuse=None, leave=None, has=None):
    """does every time round the loop do one of acts, and is it left only when there is nothing more?"""
    if not acts:
        return "it is not done"
    lp = loop_of(g, acts[0], has)
    if lp is None:
        return "it is done once only"
    h, body = lp
    ids = {n.id for n in acts}
    bad = lambda s, l: excuse is not None and l is not None and excuse(s, l)
    first = {x for x in body if any(s not in body for s, l in g.nodes[x].succ) and any(l and l[0] == "cond" and any(ends(g, e, body) for e, t in truths(l)) for s, l in g.nodes[x].succ)}
    start = [g.nodes[s] for x in first for s, l in g.nodes[x].succ if s in body] or [g.nodes[s] for s, l in g.nodes[h].succ if s in body]
    r = paths(g).search(start, lambda q: q.id == h, stop=lambda q: q.id in ids or q.id not in body, stop_edge=bad)
    if r is not None:
        return "some are passed over"
    for x in body:
        for s, l in g.nodes[x].succ:
            if s in body or l and l[0] in ("eh", "throw"):
                continue
            if l and l[0] == "cond" and any(ends(g, e, body) for e, t in truths(l)):
                continue
            if l and leave is not None and leave(g.nodes[x], l):
                continue
            if l and l[0] == "cond" and leave is not None and any(told(g, e, t, start, body, leave) for e, t in truths(l)):
                continue
            # left by break or return: allowed when the way there is excused
            if leave is not None and paths(g).search(start, lambda q: q.id == x, stop=lambda q: q.id not in body, stop_edge=leave) is None:
                continue
            return "the rest is left out"
    return None


def told(g, e, t, start, body, leave):
    """a flag that is set only where the loop may be left"""
    e = strip_cast(e)
    while e[0] == "u" and e[1] == "!":
        e, t = strip_cast(e[2]), not t
    if e[0] != "v" or e[3] != "l":
        return False
    sets = [m for m in g if m.id in body and m.k == "asg" and strip_cast(m.ev["lhs"]) == e and (const_of(m.ev["rhs"]) is None or bool(const_of(m.ev["rhs"])) == t)]
    return bool(sets) and all(paths(g).search(start, lambda q: q is m, stop=lambda q: q.id not in body, stop_edge=leave) is None for m in sets)


def edge_test(g, test):
    return lambda s, l: implies(g, l, test)


def cmp0(g, e, t, isx):
    """values of x (of -1, 0, 1) the condition leaves"""
    e = strip_cast(e)
    if isx(e):
        return {-1, 1} if t else {0}
    if e[0] == "u" and e[1] == "!" and isx(strip_cast(e[2])):
        return {0} if t else {-1, 1}
    if e[0] == "b" and e[1] in ("<", "<=", ">", ">=", "==", "!="):
        op, a, b = e[1], strip_cast(e[2]), strip_cast(e[3])
        if isx(b):
            op, a, b = flip(op), b, a
        k = const_of(b)
        if isx(a) and k is not None:
            T = {"<": lambda v: v < k, "<=": lambda v: v <= k, ">": lambda v: v > k, ">=": lambda v: v >= k, "==": lambda v: v == k, "!=": lambda v: v != k}[op]
            return {v for v in (-1, 0, 1) if T(v) == t}
    return {-1, 0, 1}


def against(g, v, isx):
    """edges that cannot be taken when x is v"""
    return lambda s, l: any(v not in cmp0(g, e, t, isx) for e, t in truths(l))


# ---- which series

def choose(ctx, p):
    f = p.need("Mapping::query_for_ts")[0]
    ctx.analysed(f)
    g = local(p, f)
    put = [n for n in V(g, "insert", "emplace") if "set<TimeSeries" in n.ev["e"][1]]
    nexts = lambda n: acc_field(n, "TimeSeries::m_next")
    walks = [lp for lp in loops(g) if any(nexts(g.nodes[x]) for x in lp[1])]
    ctx.ob("series", "all series of the metric are looked at", bool(walks), f.loc(), "only a series found by its key can be found")
    matches = edge_test(g, lambda e, t: nm(e) == "match" and t)
    count = lambda e: mentions_call(e, "Tag_v2::get_count") or mentions_field(e, "Tag_v2::m_count")
    different = lambda e, t: e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "!=") == t and count(e)
    other = edge_test(g, different)
    explicit = edge_test(g, lambda e, t: e[0] == "v" and e[3] == "p" and e[4] == "bool" and t)
    none = edge_test(g, lambda e, t: null_of(e, t, lambda x: x[0] == "v" and x[3] == "p"))
    for h, body in walks:
        mine = [n for n in put if n.id in body]
        r = each(g, mine, edge_test(g, lambda e, t: nm(e) == "match" and not t or different(e, t))) if mine else "none is taken"
        ctx.ob("series", "series walked over: each is taken unless its tags do not match", r is None, g.nodes[h].loc, r)
        for n in mine:
            r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: matches(s, l) or none(s, l))
            ctx.ob("series", "series walked over: only those with matching tags are taken", r is None, n.loc, "a series is taken whose tags were not compared")
        # explicit tags
        cmps = [g.nodes[x] for x in body for s, l in g.nodes[x].succ if l and other(g.nodes[x], l)]
        for n in cmps:
            if all(explicit(n, l) for s, l in n.succ if l and other(n, l)):
                continue
            r = paths(g).search([g.entry], lambda q: q is n, stop_edge=explicit)
            ctx.ob("series", "number of tags is looked at only when asked for", r is None, n.loc, "series with more tags are left out")
    mine = [n for n in put if any(n.id in b for h, b in walks)]
    for h, body in walks:
        pass
    both = any(paths(g).search([g.entry], lambda q: q is n, stop_edge=none) is not None for n in mine)
    ctx.ob("series", "series with tags asked for are walked over", both, f.loc(), "nothing is found unless the key is known")
    ex = [n for n in mine if paths(g).search([g.entry], lambda q: q is n, stop_edge=none) is not None]
    for n in ex:
        lp = loop_of(g, n)
        r = paths(g).search([g.entry], lambda q: q is n, stop_edge=edge_test(g, lambda e, t: e[0] == "b" and e[1] in ("==", "!=") and count(e) and (e[1] == "==") == t or
                                                                                          e[0] == "v" and e[3] == "p" and e[4] == "bool" and not t))
        ctx.ob("series", "with explicit tags the number of tags is looked at", r is None, n.loc, "series with more tags than asked for are taken")
    # by key
    key = [n for n in put if n not in mine]
    same = edge_test(g, lambda e, t: e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "==") == t and any(mentions_field(x, "Mapping::m_tag_count") or mentions_field(behind(g, x), "Mapping::m_tag_count") for x in e[2:4]))
    for n in key:
        r = paths(g).search([g.entry], lambda q: q is n, stop_edge=same)
        ctx.ob("series", "looked up by key only when all series have as many tags", r is None, n.loc, "a series that has more tags is left out")
    grown = edge_test(g, lambda e, t: e[0] == "b" and any(nm(behind(g, x)) == "size" for x in e[2:4]) and (e[1] == "==" and not t or e[1] in ("!=", ">", "<") and t))
    heads = {h for h, b in walks}
    r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in put or q.id in heads, stop_edge=grown)
    ctx.ob("series", "nothing found by key: all are looked at", r is None, f.loc(), "a query that names tags by pattern finds nothing")
    # the number of tags all series have
    s = p.need("Mapping::set_tag_count")[0]
    ctx.analysed(s)
    gs = Graph(p, s)
    ps = each_path(gs)
    ok = bool(ps)
    for q in ps or ():
        C = ("m", THIS, "m_tag_count")
        v = [a[2] for a in q.acts if a[0] == "set"] + [a[3][0] for a in q.acts if a[0] == "call" and a[1].split("::")[-1] in ("operator=", "store") and a[3]]
        new = v[-1] if v else None
        cur = lambda x: mentions(x, lambda y: y == C)
        prm = lambda x: x[0] == "v" and x[1] == s.params[0]["n"]
        alts = alternatives(new, q) if new is not None else [(None, [])]
        for val, conds in alts:
            eq = fresh = None
            for c in list(q.conds) + conds:
                if len(c) == 2 and c[0][0] == "b" and c[0][1] in ("==", "!="):
                    a, b = c[0][2:]
                    tr = (c[0][1] == "==") == c[1]
                    if cur(a) and prm(b) or cur(b) and prm(a):
                        eq = tr
                    elif cur(a) and b == ("i", -1) or cur(b) and a == ("i", -1) or ("u", "-", ("i", 1)) in (a, b):
                        fresh = tr
            if eq:
                ok = ok and (val is None or prm(val))
            elif fresh:
                ok = ok and val is not None and prm(val)
            else:
                ok = ok and val is not None and not prm(val)
    ctx.ob("series", "series with different numbers of tags are noticed", ok, s.loc(), "a look up by key leaves out series with more tags")


def alternatives(t, q):
    if t[0] == "?":
        return [(v, [(t[1], tr)] + c) for x, tr in ((t[2], True), (t[3], False)) for v, c in alternatives(x, q)]
    return [(t, [])]


def null_of(e, t, isx):
    e = strip_cast(e)
    if isx(e) and len(e) > 4 and str(e[4]).endswith("*"):
        return not t
    if e[0] == "u" and e[1] == "!":
        return null_of(e[2], not t, isx)
    if e[0] == "b" and e[1] in ("==", "!="):
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            if strip_cast(a)[0] == "n" or const_of(a) == 0:
                return isx(strip_cast(b)) and (e[1] == "==") == t
    return False


def tasks(ctx, p):
    f = p.need("Query::get_query_tasks")[0]
    ctx.analysed(f)
    g = local(p, f)
    add = V(g, "add_task")
    r = each(g, add)
    ctx.ob("series", "each series found is queried", r is None, f.loc(), r)
    for n in V(g, "adjust_time_range"):
        r = paths(g).search(after(g, n), lambda q: q in add)
        ctx.ob("series", "the range is widened when the series are known", r is None, n.loc, "it is widened for none")
    ex = bool(V(g, "set_metric_id")) and paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in V(g, "set_metric_id")) is None
    ctx.ob("series", "the metric is told", ex, f.loc(), "nothing is read without it")
    f = p.need("QuerySuperTask::add_task")[0]
    ctx.analysed(f)
    g = local(p, f)
    push = [n for n in V(g, "push_back", "emplace_back") if mentions_field(n.ev["e"][2] or THIS, "QuerySuperTask::m_tasks")]
    r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in push)
    ctx.ob("series", "a series added has a task", bool(push) and r is None, f.loc(), "the series is left out")
    f = p.need("Query::execute")[0]
    ctx.analysed(f)
    g = local(p, f, keep=("Query::aggregate", "Query::calculate_rate", "Query::get_query_tasks"))
    seq = [V(g, x) for x in ("get_query_tasks", "perform", "aggregate", "calculate_rate")]
    nothing = edge_test(g, lambda e, t: nm(e) == "empty" and t or e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "==") == t and
                        any(nm(behind(g, x)) == "get_metric_id" or mentions_field(x, "QuerySuperTask::m_metric_id") for x in e[2:4]))
    for a, b in zip(seq, seq[1:]):
        name = nm(b[0].ev["e"]) if b else "a step"
        ok = bool(a) and bool(b) and all(paths(g).search(after(g, n), lambda q: q is g.exit, stop=lambda q: q in b, stop_edge=nothing) is None for n in a) \
            and all(paths(g).search([g.entry], lambda q: q is n, stop=lambda q: q in a) is None for n in b)
        ctx.ob("all", "a query goes through all steps: %s" % name, ok, f.loc(), "a step is left out or done too early")


# ---- do the tags match

def matcher(ctx, p):
    f = p.need("TagMatcher::match")[0]
    ctx.analysed(f)
    g = Graph(p, f, lambda x, e, d: x.cls == "TagMatcher" and x.id != f.id and x.short.split("::")[-1] != "next", maxdepth=2)
    if loops(g):
        return      # the others are walked over here
    ps = each_path(g)
    ctx.ob("match", "matching can be followed", bool(ps), f.loc(), "too many paths")
    for i, q in enumerate(x for x in ps or () if x.end is g.exit):
        mt = lambda t: t is not None and t[0] == "c" and t[1].split("::")[-1] == "match"
        own = lambda t: mt(t) and t[2] is not None and len(t[3]) == 2 and ("m", THIS, "m_key_id") in t[3] and ("m", THIS, "m_value_id") in t[3]
        rest = lambda t: mt(t) and len(t[3]) == 1
        rx = lambda t: t is not None and t[0] == "c" and t[1].split("::")[-1].startswith("regex_match") and mentions(t, lambda y: y == ("m", THIS, "m_regex"))
        fact = {}
        for c in q.conds:
            if len(c) != 2:
                continue
            e, t = c
            if own(e) or rx(e):
                fact["own"] = t
            elif rest(e):
                fact["rest"] = t
            elif e[0] == "b" and e[1] in ("==", "!="):
                a, b = e[2:]
                tr = (e[1] == "==") == t
                for x, y in ((a, b), (b, a)):
                    if x == ("m", THIS, "m_key_id"):
                        fact["nokey"] = tr
                    elif x == ("m", THIS, "m_regex") and y[0] in ("n", "i"):
                        fact["plain"] = tr
                    elif x[0] == "c" and x[1].split("::")[-1] == "next" and y[0] in ("n", "i"):
                        fact["last"] = tr
                    elif x[0] == "c" and x[1].split("::")[-1] == "get_value":
                        fact["novalue"] = tr
            elif e[0] == "c" and e[1].split("::")[-1] == "next":
                fact["last"] = not t
            elif e == ("m", THIS, "m_regex"):
                fact["plain"] = not t
        r = q.ret
        if r is not None and r[0] == "b" and r[1] == "&&":
            for x in r[2:]:
                if rest(x):
                    fact["rest"] = True
            r = [x for x in r[2:] if own(x) or rx(x)]
            r = r[0] if r else None
        yes = ("i", 1)
        bad = None
        if r == ("i", 0):
            if not (fact.get("nokey") or fact.get("rest") is False or fact.get("novalue") or fact.get("own") is False):
                bad = "a series is left out although nothing said it does not match"
        else:
            if fact.get("nokey") is not False:
                bad = "a key nobody knows matches"
            elif not (fact.get("last") or fact.get("rest")):
                bad = "the other tags are not compared"
            elif own(r) or r == yes and fact.get("own") and fact.get("plain"):
                if not fact.get("plain"):
                    bad = "the value is compared although there is a pattern"
            elif rx(r) or r == yes and fact.get("own") and fact.get("plain") is False:
                if fact.get("plain") is not False:
                    bad = "there may be no pattern"
                elif fact.get("novalue") is not False:
                    bad = "there may be no value"
                elif rx(r) and not mentions(r, lambda y: y[0] == "c" and y[1].split("::")[-1] == "get_value" and ("m", THIS, "m_key_id") in y[3]):
                    bad = "the value compared is not the tag's"
            else:
                bad = "the tag itself is not compared"
        ctx.ob("match", "all tags asked for match", bad is None, f.loc(), bad)


FORMS = [("literal_or(", "or", False), ("iliteral_or(", "or", True), ("not_literal_or(", "not", False), ("not_iliteral_or(", "not", True),
         ("wildcard(", "stars", False), ("iwildcard(", "stars", True), ("regexp(", "copy", False)]


def forms(ctx, p):
    f = p.need("TagMatcher::init")[0]
    ctx.analysed(f)
    g = Graph(p, f, lambda x, e, d: x.cls == "TagMatcher" and x.id != f.id and x.short.split("::")[-1] not in ("replace_stars", "replace_literal_or") and not loops(Graph(p, x)), maxdepth=2)
    ps = each_path(g, limit=4000)
    ctx.ob("match", "filters can be followed", bool(ps), f.loc(), "too many paths")
    if not ps:
        return
    bad = {}
    note = lambda k, m: bad.setdefault(k, m)
    seen = set()
    icase = p.globals.get("std::regex_constants::icase")
    for q in ps:
        if q.end is not g.exit:
            continue
        yes = [c[0] for c in q.conds if len(c) == 2 and c[1] and c[0][0] == "c" and c[0][1].split("::")[-1] == "starts_with"]
        pre = [x[3][1][1] for x in yes if len(x[3]) == 2 and x[3][1][0] == "s"]
        closed = any(len(c) == 2 and c[0][0] == "b" and ("i", 41) in c[0][2:] and (c[0][1] == "==") == c[1] for c in q.conds)
        closed = pre and closed
        nokey = any(len(c) == 2 and c[0][0] == "b" and c[0][1] in ("==", "!=") and (c[0][1] == "==") == c[1] and any(x[0] == "c" and x[1].split("::")[-1] == "get_id" for x in c[0][2:]) for c in q.conds)
        acts = [a for a in q.acts if a[0] == "call"]
        made = [a for a in q.acts if a[0] == "set" and a[1] == ("m", THIS, "m_regex")]
        vid = q.sets(("m", THIS, "m_value_id"))
        ids = [a for a in acts if a[1].endswith("Tag_v2::get_id")]
        if not any(x for x in ids):
            continue        # refused
        if nokey:
            continue
        # the other tags
        nx = [c for c in q.conds if len(c) == 2 and mentions(c[0], lambda y: y[0] == "c" and y[1].split("::")[-1] == "next")]
        more = None
        for c in nx:
            e, t = c
            if e[0] == "b" and e[1] in ("==", "!="):
                more = (e[1] == "!=") == t
            elif e[0] == "c":
                more = t
        sub = [a for a in acts if a[1].split("::")[-1] == "init" and a[1].startswith("TagMatcher")]
        if more is not False and not sub:
            note("rest", "the other tags are not compared")
        if sub and not any(a[3] and mentions(a[3][0], lambda y: y[0] == "c" and y[1].split("::")[-1] == "next") for a in sub):
            note("rest", "the same tag is compared again")
        # this one
        news = regexes(g, q)
        if closed:
            lit = [x for x in pre if x in [k for k, _, _ in FORMS]]
            if not lit:
                continue
            lit = lit[-1]
            seen.add(lit)
            how, ic = [(h, i) for k, h, i in FORMS if k == lit][0]
            if not news:
                note(lit, "no pattern is made of it")
                continue
            src, flags = news[-1]
            if flags is not None and has_icase(flags) != ic:
                note(lit, "case is looked at, or not, the other way round")
            off = None
            val = lambda t: offset(t)
            if how == "or":
                off, want = val(src), len(lit) - 1
            else:
                fn = {"not": ("replace_literal_or",), "stars": ("replace_stars",), "copy": ("strncpy", "strcpy", "memcpy")}[how]
                cs = [a for a in acts if a[1].split("::")[-1] in fn]
                if not cs:
                    note(lit, "it is not turned into a pattern")
                    continue
                off = val(cs[-1][3][1])
                want = len(lit) - 1 if how == "not" else len(lit)
            if off is None or off != want:
                note(lit, "the text starts at %s, not %d" % (off, want))
        else:
            star = any(len(c) == 2 and c[1] and c[0][0] == "c" and c[0][1].split("::")[-1] == "ends_with" for c in q.conds)
            alt = any(len(c) == 2 and mentions(c[0], lambda y: y[0] == "c" and y[1].split("::")[-1] == "strchr") and
                      (c[0][0] == "b" and (c[0][1] == "!=") == c[1] or c[0][0] == "c" and c[1]) for c in q.conds)
            if star or alt:
                if not news:
                    note("star" if star else "alternatives", "no pattern is made of it")
                elif star and not [a for a in acts if a[1].split("::")[-1] == "replace_stars"]:
                    note("star", "it is not turned into a pattern")
                seen.add("star" if star else "alternatives")
            elif not pre or not closed:
                seen.add("plain")
                if not (vid is not None and vid[0] == "c" and vid[1].split("::")[-1] == "get_id"):
                    note("plain", "the value is not known")
    for k in ["rest", "star", "alternatives", "plain"] + [x for x, _, _ in FORMS]:
        ctx.ob("match", "filter: %s" % k, k not in bad and (k in seen or k == "rest"), f.loc(), bad.get(k, "it is not understood any more"))


def offset(t):
    if t[0] == "b" and t[1] == "+" and t[3][0] == "i":
        return t[3][1]
    if t[0] == "b" and t[1] == "+" and t[3][0] == "c" and t[3][1].split("::")[-1] == "strlen" and t[3][3][0][0] == "s":
        return len(t[3][3][0][1])
    if t[0] == "b" and t[1] == "-" and t[3][0] == "i" and offset(t[2]) is not None:
        return offset(t[2]) - t[3][1]
    if t[0] == "u" and t[1] == "&" and t[2][0] == "x" and t[2][2][0] == "i":
        return t[2][2][1]
    return 0 if t[0] in ("v", "m") else None


def has_icase(t):
    return mentions(t, lambda y: y[0] == "v" and str(y[1]).endswith("icase"))


def regexes(g, q):
    """(text, flags) of the patterns made on the path"""
    out = []
    for a in q.acts:
        if a[0] == "set" and a[1] == ("m", THIS, "m_regex") and a[2][0] == "new":
            e = [x for x in walk(a[3].ev["rhs"]) if x[0] == "k" and "regex" in x[1]]
            if e:
                ar = [x for x in e[0][3] if isinstance(x, tuple)]
                out.append((term(ar[0], q), term(ar[1], q) if len(ar) > 1 else None))
    return out


def lists(ctx, p):
    """tags are kept as keys and values in turn"""
    M = "Tag_v2::m_tags"
    for f in sorted((x for x in p.funcs.values() if x.cls == "Tag_v2"), key=lambda x: (x.file, x.line)):
        g = Graph(p, f)
        subs = [n for n in g if n.k == "sub" and n.ev["rw"] != "w" and mentions_field(n.ev["e"][1], M)]
        for lp in loops(g):
            mine = [n for n in subs if n.id in lp[1] and loop_of(g, n)[0] == lp[0]]
            if not mine:
                continue
            ctx.analysed(f)
            iv = None
            for n in mine:
                for x in walk(n.ev["e"][2]):
                    if x[0] == "v" and any(m.k == "asg" and m.id in lp[1] and strip_cast(m.ev["lhs"]) == x for m in g):
                        iv = x
            if iv is None:
                continue
            step = [m for m in g if m.k == "asg" and m.id in lp[1] and strip_cast(m.ev["lhs"]) == iv]
            by = sum(const_of(m.ev["rhs"]) or 0 if m.ev["op"] == "+=" else 1 if m.ev["op"] == "++" else 99 for m in step)
            starts = [d for d in common._defs(g).get(iv[2], ()) if const_of(d) is not None and not any(d is m.ev["rhs"] for m in step)]
            keyed = any(idx(n, iv) == 1 for n in mine)
            # what is compared with a key, and what is taken
            eqs = [(n, x) for n in g if n.id in lp[1] and n.k == "cmp" and n.ev["e"][1] in ("==", "!=") for x in n.ev["e"][2:4] if strip_cast(x)[0] == "x" and mentions_field(x, M)]
            bound = bounds(g, lp, iv)
            if by == 2:
                ok = all(const_of(d) in (0, 1) for d in starts) and bound in (2, None)
                if ok and starts and const_of(starts[0]) == 0:
                    for n, x in eqs:
                        other_ = [y for y in n.ev["e"][2:4] if y is not x][0]
                        o = strip_cast(other_)
                        k = idx_e(x, iv)
                        if o[0] == "v" and o[3] == "p" and o == first_id(f, o):
                            ok = ok and k == 0
                        if k == 0:
                            continue
                    for r in returns(g):
                        for x in walk(r.ev["e"]) if r.ev.get("e") is not None and r.id in near(g, lp) else ():
                            if x[0] == "x" and mentions_field(x[1], M):
                                ok = ok and idx_e(x, iv) == 1
                ctx.ob("match", "keys and values in turn: %s" % f.short, ok, f.loc(), "a key is taken for a value, or tags are left out")
            elif by == 1:
                ok = bound in (1, None) and all(const_of(d) == 0 for d in starts) or all(const_of(d) == 0 for d in starts) and doubled(mine, iv)
                ctx.ob("match", "keys and values in turn: %s" % f.short, ok, f.loc(), "tags are left out")
    # nothing found says so
    for name in ("Tag_v2::match", "Tag_v2::get_value", "Tag_v2::get_value_id", "Tag_v2::exists"):
        for f in p.all(name):
            g = Graph(p, f)
            for lp in loops(g):
                if not any(n.k == "sub" and mentions_field(n.ev["e"][1], M) for n in g if n.id in lp[1]):
                    continue
                ctx.analysed(f)
                keq = edge_test(g, lambda e, t: e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "==") == t and any(mentions_field(behind(g, x), M) for x in e[2:4]))
                bad = False
                for r in returns(g):
                    if r.ev.get("e") is None:
                        continue
                    c = const_of(r.ev["e"])
                    null = strip_cast(r.ev["e"])[0] == "n"
                    inv = c is not None and (c == 0 or c == -1 or str(const_name(r.ev["e"])).startswith("TT_INVALID") or c in (0xFFFF, 0xFFFFFFFF))
                    found = paths(g).search([g.entry], lambda q: q is r, stop_edge=keq) is None
                    if not found and not (null or inv):
                        bad = True
                ctx.ob("match", "a tag that is not there is not found: %s" % f.short, not bad, f.loc(), "another tag's value is taken")


def near(g, lp):
    out = set(lp[1])
    for x in lp[1]:
        for s, l in g.nodes[x].succ:
            if l and l[0] == "cond" and any(mentions_field(e, "Tag_v2::m_tags") for e, t in truths(l)):
                todo = [s]
                while todo:
                    y = todo.pop()
                    if y in out or g.nodes[y] is g.exit:
                        continue
                    out.add(y)
                    todo += [z for z, _ in g.nodes[y].succ]
    return out


def first_id(f, o):
    return o if f.params and f.params[0]["n"] == o[1] else None


def doubled(subs, iv):
    return all(idx_e(n.ev["e"], iv, 2) in (0, 1) for n in subs)


def idx(n, iv):
    return idx_e(n.ev["e"], iv)


def idx_e(x, iv, scale=1):
    """index as an offset from the loop variable"""
    e = strip_cast(strip_cast(x)[2])

    def ev(e):
        e = strip_cast(e)
        if e == iv:
            return (scale and 1, 0)
        if const_of(e) is not None:
            return (0, const_of(e))
        if e[0] == "b" and e[1] in ("+", "-", "*"):
            a, b = ev(e[2]), ev(e[3])
            if a is None or b is None:
                return None
            if e[1] == "*":
                if a[0] and b[0]:
                    return None
                k, o = (a[1], b) if not a[0] else (b[1], a)
                return (k * o[0], k * o[1])
            s = 1 if e[1] == "+" else -1
            return (a[0] + s * b[0], a[1] + s * b[1])
        if e[0] == "u" and e[1] == "p++":
            return ev(e[2])
        return None
    r = ev(e)
    return r[1] if r is not None and r[0] == scale else None


def bounds(g, lp, iv):
    """how many times the number of tags the loop variable runs to; None if it cannot be told, 0 if wrong"""
    for x in lp[1]:
        for s, l in g.nodes[x].succ:
            if not l or l[0] != "cond" or s in lp[1]:
                continue
            for e, t in truths(l):
                e = strip_cast(e)
                if e[0] != "b" or e[1] not in ("<", "<=", ">", ">=", "!=", "=="):
                    continue
                op, a, b = e[1], strip_cast(e[2]), strip_cast(e[3])
                if b == iv:
                    op, a, b = flip(op), b, a
                if a != iv:
                    continue
                b = behind(g, b)
                if op not in ("<", "!=", ">=", "=="):
                    return 0
                if b[0] == "b" and b[1] == "*":
                    k = [const_of(y) for y in b[2:4] if const_of(y) is not None]
                    return k[0] if k and any(mentions_field(y, "Tag_v2::m_count") for y in b[2:4]) else None
                if b[0] == "b" and b[1] == "<<" and mentions_field(b[2], "Tag_v2::m_count"):
                    return 2 ** const_of(b[3]) if const_of(b[3]) is not None else None
                if b[0] == "b" and mentions_field(b, "Tag_v2::m_count"):
                    return 0
                if b[0] == "m" and b[2] == "Tag_v2::m_count":
                    return 1
    return None


# ---- which points

def adds(g, n):
    """n gives a point to the task's points or its downsampler"""
    if n.k != "call" or n.ev["e"][0] != "c":
        return False
    e = n.ev["e"]
    if nm(e) in ("push_back", "emplace_back") and e[2] is not None and mentions_field(e[2], "QueryTask::m_dps"):
        return True
    return nm(e) == "add_data_point" and e[2] is not None and mentions_field(behind(g, e[2]), "QueryTask::m_downsampler")


def chosen(ctx, g, f, what):
    """to the downsampler when there is one, else to the points"""
    D = lambda e, t: null_of(e, t, lambda x: x[0] == "m" and x[2] == "QueryTask::m_downsampler" or mentions_field(behind(g, x), "QueryTask::m_downsampler"))
    nul = edge_test(g, D)
    non = edge_test(g, lambda e, t: D(e, not t))
    for n in g:
        if not adds(g, n):
            continue
        down = nm(n.ev["e"]) == "add_data_point"
        r = paths(g).search([g.entry], lambda q: q is n, stop_edge=non if down else nul)
        ctx.ob("range", "%s: points go to the downsampler when there is one" % what, r is None, n.loc, "there may be none" if down else "points are not downsampled")


def in_range_of(g):
    return lambda e: nm(behind(g, e)) == "in_range" and "TimeRange" in behind(g, e)[1]


def plain_points(ctx, p):
    f = p.need("QueryTask::query_without_ooo")[0]
    ctx.analysed(f)
    g = local(p, f)
    isx = in_range_of(g)
    tests = [n for n in V(g, "in_range", "in_range_strictly")]
    ctx.ob("range", "in order: points are compared with the range", bool(tests), f.loc(), "all points are taken")
    for n in tests:
        lp = loop_of(g, n)
        ctx.ob("range", "in order: the end of the range is part of it", nm(n.ev["e"]) == "in_range", n.loc, "a point at the very end is left out")
        if lp is None:
            ctx.ob("range", "in order: all points are looked at", False, n.loc, "only one is")
            continue
        h, body = lp
        back = lambda q: q.id == h or q is n or q.id not in body
        a0 = paths(g).search(after(g, n), back, stop=lambda q: adds(g, q), stop_edge=against(g, 0, isx))
        ctx.ob("range", "in order: a point in the range is taken", a0 is None, n.loc, "it is passed over")
        for m in [x for x in g if adds(g, x) and x.id in body]:
            r = paths(g).search(after(g, m), lambda q: adds(g, q), stop=back)
            ctx.ob("range", "in order: a point is taken once", r is None, m.loc, "it may be taken twice")
            for v, w in ((-1, "before"), (1, "after")):
                r = paths(g).search(after(g, n), lambda q: q is m, stop=back, stop_edge=against(g, v, isx))
                ctx.ob("range", "in order: a point %s the range is not taken" % w, r is None, m.loc, "it is taken")
        for v in (-1, 0):
            r = paths(g).search(after(g, n), lambda q: q.id not in body, stop=lambda q: q.id == h or q is n, stop_edge=against(g, v, isx))
            ctx.ob("range", "in order: points that follow one %s are looked at" % ("in the range" if v == 0 else "before the range"), r is None, n.loc, "they are left out")
        full_index(ctx, g, f, lp, "in order")
        outer = [l for l in loops(g) if l[0] != h and n.id in l[1]]
        r = each_container(g, outer)
        ctx.ob("range", "in order: all containers are looked at", r is None, f.loc(), r)
    chosen(ctx, g, f, "in order")


def each_container(g, outer):
    if not outer:
        return "only one is"
    h, body = outer[0]
    for x in body:
        for s, l in g.nodes[x].succ:
            if s in body or l and l[0] in ("eh", "throw"):
                continue
            if l and l[0] == "cond" and any(ends(g, e, body) for e, t in truths(l)):
                continue
            return "the rest is left out"
    return None


def full_index(ctx, g, f, lp, what):
    """the loop runs over all positions"""
    h, body = lp
    get = [n for n in V(g, "get_data_point") if n.id in body]
    for n in get:
        i = strip_cast(args(n)[0])
        if i[0] != "v":
            continue
        ds = [d for d in common._defs(g).get(i[2], ())]
        st = [m for m in g if m.k == "asg" and m.id in body and strip_cast(m.ev["lhs"]) == i]
        c = [const_of(d) for d in ds if const_of(d) is not None and not any(d is m.ev["rhs"] for m in st)]
        by1 = all(m.ev["op"] == "++" or m.ev["op"] == "+=" and const_of(m.ev["rhs"]) == 1 or m.ev["op"] == "=" and is_plus1(m.ev["rhs"], i) for m in st)
        bad = None
        if c and c[0] != 0:
            bad = "the first is left out"
        elif not by1:
            bad = "some are left out"
        else:
            for x in body:
                for s, l in g.nodes[x].succ:
                    if s in body or not l or l[0] != "cond":
                        continue
                    for e, t in truths(l):
                        e = strip_cast(e)
                        if e[0] == "b" and e[1] in ("<", "<=", ">", ">=", "!=", "==") and i in [strip_cast(y) for y in e[2:4]]:
                            op, a, b = e[1], strip_cast(e[2]), strip_cast(e[3])
                            if b == i:
                                op, b = flip(op), a
                            b = behind(g, b)
                            if op not in ("<", "!=", "==", ">=") or nm(b) != "size":
                                bad = "the last is left out"
        ctx.ob("range", "%s: all points of a container are looked at" % what, bad is None, n.loc, bad)


def is_plus1(e, i):
    e = strip_cast(e)
    return e[0] == "b" and e[1] == "+" and {const_of(e[2]), const_of(e[3])} >= {1} and i in (strip_cast(e[2]), strip_cast(e[3]))


def mixed_points(ctx, p):
    f = p.need("QueryTask::query_with_ooo")[0]
    ctx.analysed(f)
    g = local(p, f)
    isx = in_range_of(g)
    tests = [n for n in V(g, "in_range", "in_range_strictly")]
    ctx.ob("range", "out of order: points are compared with the range", bool(tests), f.loc(), "all points are taken")
    emp = V(g, "emplace", "push")
    emp = [n for n in emp if "priority_queue" in n.ev["e"][1]]
    for n in tests:
        ctx.ob("range", "out of order: the end of the range is part of it", nm(n.ev["e"]) == "in_range", n.loc, "a point at the very end is left out")
        lp = loop_of(g, n)
        if lp is None:
            ctx.ob("range", "out of order: all points are looked at", False, n.loc, "only one is")
            continue
        h, body = lp
        inside = [m for m in emp if m.id in body]
        start = [m for m in emp if m.id not in body]
        r = each(g, start) if start else "none is"
        ctx.ob("range", "out of order: all containers are looked at", r is None, f.loc(), r)
        for m in start:
            a = args(m)
            k = const_of(a[1]) if len(a) > 1 else 0
            ctx.ob("range", "out of order: containers are begun at their first point", k == 0, m.loc, "the first points are left out")
        # next position
        full = edge_test(g, lambda e, t: over(g, e, t))
        late = against(g, 0, isx)
        back = lambda q: q.id == h
        r = paths(g).search(after(g, n), back, stop=lambda q: q in inside, stop_edge=lambda s, l: full(s, l) or gone(g, l, isx))
        ctx.ob("range", "out of order: the next point of a container follows", bool(inside) and r is None, n.loc, "the rest of the container is left out")
        for m in inside:
            a = args(m)
            nx = strip_cast(a[1]) if len(a) > 1 else None
            ok = nx is None or nx[0] == "b" and nx[1] == "+" and 1 in (const_of(nx[2]), const_of(nx[3])) or nx[0] in ("v", "u") and not const_of(nx)
            ctx.ob("range", "out of order: the next point is the one after", ok, m.loc, "points are left out or come twice")
        # the point held back
        held = {}
        for x in g:
            if x.id in body and x.k in ("asg", "call"):
                l = strip_cast(x.ev["lhs"]) if x.k == "asg" else strip_cast(x.ev["e"][2]) if x.ev["e"][0] == "c" and nm(x.ev["e"]) == "operator=" and x.ev["e"][2] is not None else None
                if l is not None and l[0] == "m" and l[2].endswith("::second"):
                    l, part = strip_cast(l[1]), True
                else:
                    part = False
                if l is not None and l[0] == "v" and len(l) > 4 and "pair" in l[4].lower() and "Container" not in l[4] and l[4].find("&") < 0:
                    held.setdefault(l, []).append((x, part))
        hold = [v for v in held if any(not part for _, part in held[v]) and any(d is not None for d in [1])]
        hold = [v for v in hold if any(adds(g, m) and mentions(m.ev["e"], lambda y: y == v) for m in g)]
        if not hold:
            # points are given on at once
            r = paths(g).search(after(g, n), lambda q: q.id == h, stop=lambda q: adds(g, q), stop_edge=against(g, 0, isx))
            ctx.ob("order", "out of order: a point in the range is taken", r is None, n.loc, "it is lost")
            continue
        v = hold[0]
        whole = [x for x, part in held[v] if not part]
        value = [x for x, part in held[v] if part]
        take = lambda q: q in whole or q in value
        r = paths(g).search(after(g, n), lambda q: q.id == h or q.id not in body, stop=take, stop_edge=against(g, 0, isx))
        ctx.ob("order", "out of order: a point in the range is taken", r is None, n.loc, "it is lost")
        for s in (-1, 1):
            r = paths(g).search(after(g, n), take, stop=lambda q: q.id == h, stop_edge=against(g, s, isx))
            ctx.ob("order", "out of order: a point outside the range is not taken", r is None, n.loc, "it is taken")
        same = lambda e, t: e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "==") == t and held_first(e, v) and not any(const_of(x) is not None for x in e[2:4])
        same_e, diff_e = edge_test(g, same), edge_test(g, lambda e, t: same(e, not t))
        none_e = edge_test(g, lambda e, t: e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "==") == t and held_first(e, v) and any(const_of(x) is not None for x in e[2:4]))
        for x in value:
            r = paths(g).search(after(g, n), lambda q: q is x, stop=lambda q: q.id == h, stop_edge=same_e)
            ctx.ob("order", "out of order: a value is replaced only by one of the same time", r is None, x.loc, "a point gets the value of another")
        for x in whole:
            r = paths(g).search(after(g, n), lambda q: q is x, stop=lambda q: q.id == h or adds(g, q), stop_edge=lambda s, l: same_e(s, l) or none_e(s, l))
            ctx.ob("order", "out of order: the point before is given on first", r is None, x.loc, "it is lost")
            # the newest wins: not the same time again as a point of its own
            r = [m for m in g if adds(g, m) and m.id in body and paths(g).search(after(g, n), lambda q: q is m, stop=lambda q: q.id == h, stop_edge=diff_e) is not None]
            ctx.ob("order", "out of order: one point for each time", not r, x.loc, "the same time comes twice")
        out = [m for m in g if adds(g, m) and m.id not in body]
        r = paths(g).search([g.nodes[s] for y in body for s, l in g.nodes[y].succ if s not in body and not (l and l[0] in ("eh", "throw"))], lambda q: q is g.exit, stop=lambda q: q in out, stop_edge=none_e)
        ctx.ob("order", "out of order: the last point is given on", bool(out) and r is None, f.loc(), "it is lost")
    chosen(ctx, g, f, "out of order")
    # the comparator: earliest first; written before out of order; earlier pages first
    lam = {x[1] for n in g if n.ev for e in event_exprs(n) for x in walk(e) if x[0] == "lam"}
    for q in sorted((p.funcs[x] for x in lam if x in p.funcs), key=lambda x: x.line):
        if len(q.params) != 2:
            continue
        ctx.analysed(q)
        gq = Graph(p, q)
        ps = each_path(gq)
        bad = compare(q, gq, ps) if ps else "it cannot be followed"
        ctx.ob("order", "out of order: earliest first, then as they came", bad is None, q.loc(), bad)


def held_first(e, v):
    return any(strip_cast(x)[0] == "m" and strip_cast(x)[2].endswith("::first") and strip_cast(strip_cast(x)[1]) == v for x in e[2:4])


def over(g, e, t):
    """no more points in the container"""
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">=", "==", "!="):
        return False
    size = lambda x: nm(behind(g, x)) == "size"
    op, a, b = e[1], strip_cast(e[2]), strip_cast(e[3])
    if size(a):
        op, a, b = flip(op), b, a
    if not size(b):
        return False
    inc = a[0] == "b" and a[1] == "+" and 1 in (const_of(a[2]), const_of(a[3])) or a[0] == "u" and a[1] == "++" or a[0] == "v"
    return inc and ((op == "<" and not t) or (op == ">=" and t) or (op == "==" and t) or (op == "!=" and not t))


def gone(g, l, isx):
    """the edge says the point is after the range"""
    return any(cmp0(g, e, t, isx) == {1} for e, t in truths(l))


def compare(f, g, ps):
    L, R = f.params[0]["n"], f.params[1]["n"]
    side = lambda t: L if mentions(t, lambda y: y[0] == "v" and y[1] == L) else R if mentions(t, lambda y: y[0] == "v" and y[1] == R) else None
    what = lambda t: "ooo" if t[0] == "c" and t[1].endswith("is_out_of_order") else "page" if t[0] == "c" and t[1].endswith("get_page_index") else "time" if t[0] == "m" and t[2] == "first" and mentions(t, lambda y: y[0] == "c" and y[1].endswith("get_data_point")) else None
    for lt in (-1, 0, 1):
        for lo in (0, 1):
            for ro in (0, 1):
                for pg in (-1, 1):
                    def val(t):
                        k = what(t)
                        if k == "time":
                            return lt if side(t) == L else 0
                        if k == "ooo":
                            return lo if side(t) == L else ro
                        if k == "page":
                            return pg if side(t) == L else 0
                        if t[0] == "i":
                            return t[1]
                        if t[0] == "u" and t[1] == "!":
                            x = val(t[2])
                            return None if x is None else int(not x)
                        if t[0] == "b":
                            a, b = val(t[2]), val(t[3])
                            if t[1] == "&&":
                                return 0 if a == 0 or b == 0 else None if a is None or b is None else 1
                            if t[1] == "||":
                                return 1 if a or b else None if a is None or b is None else 0
                            if a is None or b is None:
                                return None
                            fn = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}.get(t[1])
                            return None if fn is None else int(fn)
                        if t[0] == "?":
                            c = val(t[1])
                            return None if c is None else val(t[2] if c else t[3])
                        return None
                    want = lt > 0 or lt == 0 and (lo > ro or lo == ro and pg > 0)
                    for q in ps:
                        if q.end is not g.exit or q.ret is None:
                            continue
                        if any(len(c) == 2 and val(c[0]) is not None and bool(val(c[0])) != c[1] for c in q.conds):
                            continue
                        v = val(q.ret)
                        if v is not None and bool(v) != want:
                            return "points come out of order, or an older value wins"
    return None


# ---- pages and buffers

def pages(ctx, p):
    fs = p.need("Tsdb::query_for_data")
    one = [f for f in fs if len(f.params) == 2]
    many = [f for f in fs if len(f.params) > 2]
    for f in one:
        ctx.analysed(f)
        g = local(p, f)
        coll, addc, setx = V(g, "collect_data"), V(g, "add_container"), V(g, "set_indices")
        inter = edge_test(g, lambda e, t: nm(e) == "has_intersection" and not t)
        nometric = edge_test(g, lambda e, t: null_of(e, t, lambda x: x[0] == "v" and x[3] == "p"))
        r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in addc, stop_edge=lambda s, l: inter(s, l) or nometric(s, l))
        ctx.ob("page", "a page in the range is read", bool(addc) and r is None, f.loc(), "its points are left out")
        for n in addc:
            r = paths(g).search([g.entry], lambda q: q is n, stop=lambda q: q in coll)
            ctx.ob("page", "a page is read before it is handed over", r is None, n.loc, "it is empty")
        r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in setx)
        ctx.ob("page", "the next page is told", bool(setx) and r is None, f.loc(), "the same page is read again for ever")
        nxt = [n for n in g if n.k == "call" and nm(n.ev["e"]) in ("get_next_file", "get_next_header") or acc_field(n, "page_info_on_disk::m_next_file", "page_info_on_disk::m_next_header")]
        ooo = lambda e: nm(behind(g, e)) == "get_out_of_order"
        ordered = edge_test(g, lambda e, t: ooo(e) and not t)
        beyond = edge_test(g, lambda e, t: e[0] == "b" and e[1] in ("<", "<=", ">", ">=") and sum(1 for x in e[2:4] if nm(behind(g, x)) == "get_to") == 2 and past(g, e, t))
        for w, ed in (("in order", ordered), ("up to the end of the range", beyond)):
            r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in nxt, stop_edge=lambda s, l: ed(s, l) or nometric(s, l))
            ctx.ob("page", "reading ends only for a series %s" % w, r is None, f.loc(), "later pages are left out")
        ctx.ob("page", "the next page comes from this one", bool(nxt), f.loc(), "only the first page is read")
        flag = V(g, "set_ooo")
        isoo = edge_test(g, lambda e, t: ooo(e) and not t)
        r = paths(g).search([g.entry], lambda q: q in addc, stop=lambda q: q in flag, stop_edge=isoo)
        ctx.ob("page", "a series with points out of order is known as one", bool(flag) and r is None, f.loc(), "its points come out of order")
        oo = V(g, "set_out_of_order")
        for n in addc:
            r = paths(g).search([g.entry], lambda q: q is n, stop=lambda q: q in oo)
            ctx.ob("page", "a page out of order is known as one", bool(oo) and r is None, n.loc, "an older value wins")
    for f in many:
        ctx.analysed(f)
        g = local(p, f, keep=tuple(x.short for x in one))
        push = [n for n in V(g, "push", "emplace") if "priority_queue" in n.ev["e"][1]]
        take = [n for n in V(g, "query_for_data")]
        first = [n for n in push if not any(t.id in b for h, b in loops(g) for t in take if n.id in b)]
        again = [n for n in push if n not in first]
        noidx = edge_test(g, lambda e, t: e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "==") == t and any(str(const_name(x)).startswith("TT_INVALID") or const_of(x) is not None for x in e[2:4]))
        r = each(g, first, noidx)
        ctx.ob("page", "every series that has pages is read", r is None, f.loc(), r)
        for n in take:
            lp = loop_of(g, n)
            r = paths(g).search(after(g, n), lambda q: lp is not None and q.id == lp[0] or lp is None and q is g.exit, stop=lambda q: q in again, stop_edge=noidx)
            ctx.ob("page", "a series with more pages is read again", bool(again) and r is None, n.loc, "its later pages are left out")
            got = V(g, "get_indices")
            for m in again:
                r = paths(g).search(after(g, n), lambda q: q is m, stop=lambda q: q in got)
                ctx.ob("page", "the next page is looked up", r is None, m.loc, "it is read again")
            r = each_container(g, [lp] if lp else [])
            ctx.ob("page", "pages are read until there are no more", r is None, n.loc, r)
            mg = V(g, "merge_data")
            outord = edge_test(g, lambda e, t: nm(behind(g, e)) == "get_out_of_order" and not t)
            for m in mg:
                r = paths(g).search(after(g, n), lambda q: q is m, stop_edge=outord)
                ctx.ob("page", "page by page only when in order", r is None, m.loc, "points come out of order, or twice")


def past(g, e, t):
    """the page ends after the range asked for"""
    q = lambda x: any(y[0] == "v" and "query" in str(y[1]) or nm(y) == "get_query_range" for y in list(walk(behind(g, x))) + [z for w in walk(behind(g, x)) if w[0] == "v" for z in walk(behind(g, w))])
    op, a, b = e[1], e[2], e[3]
    if q(a) and not q(b):
        op, a, b = flip(op), b, a
    elif not q(b):
        return False
    return op in ("<=", "<") and not t or op in (">", ">=") and t


def buffers(ctx, p):
    f = p.need("TimeSeries::query_for_data")[0]
    ctx.analysed(f)
    g = local(p, f)
    for fld, what in (("m_buff", "buffer"), ("m_ooo_buff", "out of order buffer")):
        F = "TimeSeries::" + fld
        is_ = lambda x: mentions_field(behind(g, x), F) or mentions_field(x, F)
        coll = [n for n in V(g, "collect_data") if any(is_(a) for a in args(n))]
        ok = bool(coll)
        skip = edge_test(g, lambda e, t: null_of(e, t, is_) or nm(e) == "is_empty" and t and is_(e) or
                         e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "!=") == t and any(nm(x) == "get_tsdb" and is_(x) for x in e[2:4]))
        mine = lambda x: is_(x) or any(is_(z) for z in walk(behind(g, x)) if z[0] == "v") or any(is_(behind(g, z)) for z in walk(x) if z[0] == "v")
        inr = in_range_of(g)
        outside = lambda e, t: ranged(g, e, t, mine, "get_from", "get_to") or ranged(g, e, t, mine, "get_to", "get_from")
        apart = edge_test(g, lambda e, t: outside(e, t) or nm(e) == "has_intersection" and not t and any(mine(a) for a in (e[2],) + tuple(e[3])))
        begins = edge_test(g, lambda e, t: outside(e, t) or any(0 not in cmp0(g, e, t, inr) and mine(x) for x in (e[2:4] if e[0] == "b" else (e,))))
        for w, ed in (("apart from the range", apart), ("after the end of the range", begins)):
            r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in coll, stop_edge=lambda s, l: skip(s, l) or ed(s, l))
            ctx.ob("page", "the %s is read unless it is %s" % (what, w), ok and r is None, f.loc(), "points not written yet are left out")
        push = V(g, "push_back", "emplace_back")
        for n in coll:
            r = paths(g).search(after(g, n), lambda q: q is g.exit or q in coll, stop=lambda q: q in push)
            ctx.ob("page", "what was in the %s is handed over" % what, r is None, n.loc, "it is lost")
        if fld == "m_ooo_buff":
            rv = [r for r in returns(g) if r.ev.get("e") is not None]
            for n in coll:
                bad = False
                for r in rv:
                    e = strip_cast(r.ev["e"])
                    if e[0] == "v":
                        sets = [m for m in g if m.k == "asg" and strip_cast(m.ev["lhs"]) == e and const_of(m.ev["rhs"]) != 0]
                        bad = bad or paths(g).search(after(g, n), lambda q: q is r, stop=lambda q: q in sets) is not None and paths(g).search([g.entry], lambda q: q is n, stop=lambda q: q in sets) is not None
                    elif const_of(e) == 0:
                        bad = bad or paths(g).search(after(g, n), lambda q: q is r) is not None
                ctx.ob("page", "points out of order are told", not bad, n.loc, "they come out of order")
    f = [x for x in p.need("QueryTask::query_ts_data") if "Tsdb" in x.params[0]["t"]]
    for x in f:
        ctx.analysed(x)
        gx = Graph(p, x)
        sets = [n for n in gx if writes_field(n, "QueryTask::m_has_ooo") and const_of(n.ev["rhs"]) != 0]
        no = edge_test(gx, lambda e, t: nm(e) == "query_for_data" and not t)
        r = paths(gx).search([gx.entry], lambda q: q is gx.exit, stop=lambda q: q in sets, stop_edge=no)
        ctx.ob("page", "points out of order in memory are known", bool(V(gx, "query_for_data")) and r is None, x.loc(), "they come out of order")


def ranged(g, e, t, mine, ours, theirs):
    """range.ours against buffer.theirs: the buffer is outside"""
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return False
    op, a, b = e[1], behind(g, e[2]), behind(g, e[3])
    if mine(e[2]) and not mine(e[3]):
        op, a, b = flip(op), b, a
    if nm(a) != ours or nm(b) != theirs:
        return False
    if ours == "get_to":        # range.to ? buffer.from, outside when to < from
        return op == "<" and t or op == ">=" and not t
    return op in (">=",) and t or op == "<" and not t


# ---- putting it together

def perform(ctx, p):
    f = p.need("QueryTask::merge_data")[0]
    ctx.analysed(f)
    g = local(p, f, keep=("QueryTask::query_with_ooo", "QueryTask::query_without_ooo"))
    w, wo = V(g, "query_with_ooo"), V(g, "query_without_ooo")
    oo = lambda e: mentions_field(behind(g, e), "QueryTask::m_has_ooo")
    isoo = edge_test(g, lambda e, t: oo(e) and strip_cast(e)[0] != "b" and t)
    r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in w + wo)
    ctx.ob("all", "what was read is taken over", bool(w or wo) and r is None, f.loc(), "it is lost")
    for n in wo:
        r = paths(g).search([g.entry], lambda q: q is n, stop_edge=edge_test(g, lambda e, t: oo(e) and not t))
        ctx.ob("all", "points out of order are sorted in", r is None, n.loc, "they come out of order")
    cl = [n for n in V(g, "clear") if n.ev["e"][2] is not None and mentions_field(n.ev["e"][2], "QueryTask::m_data")]
    r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in cl)
    ctx.ob("all", "what was taken over is not taken again", bool(cl) and r is None, f.loc(), "points come twice")
    for n in cl:
        r = paths(g).search(after(g, n), lambda q: q in w + wo)
        ctx.ob("all", "it is taken over before it is forgotten", r is None, n.loc, "it is lost")
    # raw data
    f = p.need("QuerySuperTask::query_raw")[0]
    ctx.analysed(f)
    g = local(p, f)
    disk, mem, mg = V(g, "query_for_data"), V(g, "query_ts_data"), V(g, "merge_data")
    none = edge_test(g, lambda e, t: nm(e) == "empty" and t)
    r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in disk, stop_edge=none)
    ctx.ob("all", "pages are read", bool(disk) and r is None, f.loc(), "only points in memory are found")
    r = each(g, mem)
    ctx.ob("all", "points in memory are read for each series", r is None, f.loc(), r)
    r = each(g, mg)
    ctx.ob("all", "points of each series are taken over", r is None, f.loc(), r)
    for n in mem:
        lp = loop_of(g, n)
        r = paths(g).search(after(g, n), lambda q: q is g.exit or q in disk, stop=lambda q: q in mg)
        ctx.ob("all", "points in memory are taken over", r is None, n.loc, "they are lost")
    for n in mem + mg:
        r = paths(g).search([g.entry], lambda q: q is n, stop=lambda q: q in disk)
        ctx.ob("all", "pages are read before points in memory", r is None, n.loc, "points come out of order")
    # all partitions, then each series
    f = p.need("QuerySuperTask::perform")[0]
    ctx.analysed(f)
    g = local(p, f, keep=("QuerySuperTask::query_raw", "QuerySuperTask::query_rollup_daily", "QuerySuperTask::query_rollup_hourly", "QuerySuperTask::use_rollup"))
    q3 = V(g, "query_raw", "query_rollup_hourly", "query_rollup_daily")
    raw = V(g, "query_raw")
    for n in raw:
        r = each(g, [n])
        ctx.ob("all", "every partition is read", r is None, n.loc, r)
    inst = V(g, "insts")
    given = edge_test(g, lambda e, t: mentions_field(e, "QuerySuperTask::m_compact") and t)
    r = [n for n in q3 if paths(g).search([g.entry], lambda q: q is n, stop=lambda q: q in inst, stop_edge=given) is not None]
    ctx.ob("all", "partitions are looked up first", bool(inst) and not r, f.loc(), "nothing is read")
    D = lambda e, t: null_of(e, t, lambda x: mentions_field(behind(g, x), "QueryTask::m_downsampler") or nm(behind(g, x)) == "get_downsampler")
    nodown = edge_test(g, D)
    lastp = V(g, "add_last_point")
    r = each(g, lastp, nodown)
    ctx.ob("all", "the last interval of each series is given out", r is None, f.loc(), r)
    srt, fill = V(g, "sort_if_needed"), V(g, "fill")
    ctx.ob("all", "the points of each series are sorted", each(g, srt) is None, f.loc(), each(g, srt))
    ctx.ob("all", "gaps of each series are filled", each(g, fill) is None, f.loc(), each(g, fill))
    cv = V(g, "convert_to_ms", "convert_to_sec")
    ctx.ob("all", "times of each series are in the unit asked for", each(g, cv) is None, f.loc(), each(g, cv))
    ms = edge_test(g, lambda e, t: mentions_field(e, "QuerySuperTask::m_ms") and t)
    sec = edge_test(g, lambda e, t: mentions_field(e, "QuerySuperTask::m_ms") and not t)
    for n in cv:
        r = paths(g).search([g.entry], lambda q: q is n, stop_edge=ms if nm(n.ev["e"]) == "convert_to_ms" else sec)
        ctx.ob("all", "times are converted to the unit asked for", r is None, n.loc, "it is the other one")
    for a, b, m in ((lastp, srt, "sorted"), (lastp, fill, "filled"), (srt, fill, "filled"), (fill, cv, "converted")):
        for n in b:
            lp = loop_of(g, n)
            r = paths(g).search(after(g, n), lambda q: q in a, stop=lambda q: lp is not None and q.id == lp[0])
            ctx.ob("all", "the last interval is there before points are %s" % m if a is lastp else "steps in order: %s" % m, r is None, n.loc, "it comes too late")
    er = [n for n in V(g, "erase")]
    empty = edge_test(g, lambda e, t: nm(e) == "is_empty" and t)
    for n in er:
        r = paths(g).search([g.entry], lambda q: q is n, stop_edge=empty)
        ctx.ob("all", "only a series without points is left out", r is None, n.loc, "its points are lost")
    # what was read in place of rolled up data
    for name in ("QuerySuperTask::query_rollup_hourly", "QuerySuperTask::query_rollup_daily"):
        for f in p.need(name):
            g = local(p, f)
            made = V(g, "create_task")
            if not made:
                continue
            ctx.analysed(f)
            up = [n for n in V(g, "push_back", "emplace_back") if n.ev["e"][2] is not None and mentions_field(n.ev["e"][2], "QueryTask::m_dps")]
            fr = [n for n in V(g, "free_recyclable")]
            r = each(g, up)
            ctx.ob("all", "points read in place of rolled up ones are kept: %s" % f.short, bool(up) and r is None and all(mentions_field(n.ev["e"][2], "QueryTask::m_parent") for n in up), f.loc(), r or "they are lost")
            D = lambda e, t: null_of(e, t, lambda x: mentions_field(behind(g, x), "QueryTask::m_downsampler") or nm(behind(g, x)) == "get_downsampler")
            lastp = V(g, "add_last_point")
            r = each(g, lastp, edge_test(g, D))
            ctx.ob("all", "the last interval read in place of rolled up ones is kept: %s" % f.short, r is None, f.loc(), r)
            for n in fr:
                r = paths(g).search(after(g, n), lambda q: q in up + lastp, stop=lambda q: loop_of(g, n) is not None and q.id == loop_of(g, n)[0])
                ctx.ob("all", "they are kept before they are given up: %s" % f.short, r is None, n.loc, "they are lost")
            rm = V(g, "remove_dps")
            ctx.ob("all", "they take the place of rolled up ones: %s" % f.short, bool(rm), f.loc(), "points come twice")
            for n in rm:
                r = paths(g).search(after(g, n), lambda q: q in up, stop=lambda q: False)
                ctx.ob("all", "rolled up points are removed before: %s" % f.short, r is not None, n.loc, "what was read is removed")
    f = p.need("QueryTask::remove_dps")[0]
    ctx.analysed(f)
    g = local(p, f)
    isx = in_range_of(g)
    for n in V(g, "erase"):
        for v in (-1, 1):
            r = paths(g).search([g.entry], lambda q: q is n, stop_edge=against(g, v, isx))
            ctx.ob("all", "only points of the range are removed", r is None, n.loc, "others are lost")
    srt = [n for n in g if writes_field(n, "QueryTask::m_sort_needed") and const_of(n.ev["rhs"]) != 0]
    r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in srt)
    ctx.ob("all", "points are sorted when some were replaced", bool(srt) and r is None, f.loc(), "they come out of order")


# ---- groups

def groups(ctx, p):
    f = p.need("Query::create_query_results")[0]
    ctx.analysed(f)
    g = local(p, f, keep=("Query::create_one_query_results",))
    new, old = V(g, "create_one_query_results", "add_first_query_task"), V(g, "add_query_task")
    both = new + old
    lp = loop_of(g, both[0]) if both else None
    r = each(g, both) if both else "none is"
    ctx.ob("group", "each series is put in a group", r is None, f.loc(), r)
    if lp is None:
        return
    for n in both:
        r = paths(g).search(after(g, n), lambda q: q in both, stop=lambda q: q.id == lp[0])
        ctx.ob("group", "a series is put in one group", r is None, n.loc, "it is counted twice")
    push = [n for n in V(g, "push_back", "emplace_back")]
    for n in [x for x in new]:
        r = paths(g).search(after(g, n), lambda q: q.id == lp[0] or q is g.exit, stop=lambda q: q in push)
        ctx.ob("group", "a new group is part of the answer", bool(push) and r is None, n.loc, "it is lost")
    # joined only when the tags agree
    nomatch = lambda e, t: nm(e) == "match" and not t
    no_e = edge_test(g, nomatch)
    cmps = V(g, "match")
    non = lambda c: any(mentions_field(a, "Query::m_non_grouping_tags") for a in c[3])
    skipped = edge_test(g, lambda e, t: null_find(g, e, t, lambda c: not non(c)) or null_find(g, e, not t, non))
    ctx.ob("group", "tags of a group are compared", bool(cmps), f.loc(), "all series end up in one group")
    for n in cmps:
        il = loop_of(g, n)
        r = each(g, [n], skipped, leave=no_e)
        ctx.ob("group", "every tag asked for is compared, unless it is not for grouping", r is None, n.loc, r)
        for w, ed in (("asked for", edge_test(g, lambda e, t: null_find(g, e, not t, lambda c: not any(mentions_field(a, "Query::m_non_grouping_tags") for a in c[3])))),
                      ("for grouping", edge_test(g, lambda e, t: null_find(g, e, t, lambda c: any(mentions_field(a, "Query::m_non_grouping_tags") for a in c[3]))))):
            r = paths(g).search([g.nodes[il[0]]], lambda q: q is n, stop_edge=ed, stop=lambda q: q.id not in il[1]) if il else None
            ctx.ob("group", "only tags %s are compared" % w, il is not None and r is None, n.loc, "series that belong together are taken apart")
        # after a difference the group is not taken
        ol = [l for l in loops(g) if il is not None and l[0] != il[0] and n.id in l[1]]
        if ol:
            h, body = ol[0]
            res = [x for x in g if x.k == "asg" and strip_cast(x.ev["lhs"])[0] == "v" and "QueryResults" in str(strip_cast(x.ev["lhs"])[4:]) and strip_cast(x.ev["rhs"])[0] == "v" and x.id in lp[1]]
            bad = differs(g, n, body, h, lp[0], res, no_e)
            ctx.ob("group", "a series whose tag differs is not put in the group", bad is None, n.loc, bad)
    for name in ("QueryResults::add_query_task", "QueryResults::add_first_query_task"):
        x = p.need(name)[0]
        ctx.analysed(x)
        gx = local(p, x)
        push = [n for n in V(gx, "push_back", "emplace_back") if n.ev["e"][2] is not None and mentions_field(n.ev["e"][2], "QueryResults::m_qtv")]
        r = paths(gx).search([gx.entry], lambda q: q is gx.exit, stop=lambda q: q in push)
        r2 = any(paths(gx).search(after(gx, n), lambda q: q in push) is not None for n in push)
        ctx.ob("group", "a series put in a group is counted: %s" % name, bool(push) and r is None and not r2, x.loc(), "it is left out or counted twice")


def null_find(g, e, t, which):
    e = strip_cast(e)
    is_ = lambda x: nm(behind(g, x)) == "find_by_key" and which(behind(g, x))
    if is_(e):
        return not t
    if e[0] == "b" and e[1] in ("==", "!="):
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            if (strip_cast(a)[0] == "n" or const_of(a) == 0) and is_(b):
                return (e[1] == "==") == t
    return False


def differs(g, n, body, h, top, res, no_e):
    """from the comparison that fails to the assignment of the group in the same round, following flags"""
    start = []
    for x in body:
        for s, l in g.nodes[x].succ:
            if l and no_e(g.nodes[x], l):
                start.append(g.nodes[s])
    if not start:
        return "the outcome is not looked at"
    todo, seen = [(s.id, ()) for s in start], set()
    while todo:
        st = todo.pop()
        if st in seen:
            continue
        seen.add(st)
        x, env = g.nodes[st[0]], dict(st[1])
        if x in res:
            return "the group is taken all the same"
        if x.id == h or x.id == top:
            continue
        if x.k == "asg" and strip_cast(x.ev["lhs"])[0] == "v":
            v = strip_cast(x.ev["lhs"])[2]
            c = const_of(x.ev["rhs"])
            env.pop(v, None)
            if c is not None:
                env[v] = bool(c)
        elif x.k == "decl":
            env.pop(x.ev["id"], None)
            if x.ev["init"] is not None and const_of(x.ev["init"]) is not None:
                env[x.ev["id"]] = bool(const_of(x.ev["init"]))
        for s, l in x.succ:
            if l and l[0] in ("eh", "throw"):
                continue
            if l and l[0] == "cond":
                no = False
                for e, t in truths(l):
                    e = strip_cast(e)
                    while e[0] == "u" and e[1] == "!":
                        e, t = strip_cast(e[2]), not t
                    if e[0] == "v" and e[2] in env and env[e[2]] != t:
                        no = True
                if no:
                    continue
            todo.append((s, tuple(sorted(env.items(), key=str))))
    return None
