"""Points received are stored, or it is reported that they were not."""
from common import *
import common
from p17 import terms, merge
from p18 import after, implies, self_skip
from whatif import explore, truth, values, cid_of

ASSUMPTIONS = [
    "a page in memory that has just been set up has room for a point",
    "a list of points that was parsed is not empty",
]

ADD = "PageInMemory::add_data_point"
TEXT = ("DataPoint::from_plain", "DataPoint::from_json", "Tsdb::parse_line", "Tsdb::parse_line_safe")


def check(ctx):
    p = ctx.prog
    ctx.rule("stored", "a point that was parsed is added", 4)
    ctx.rule("told", "a point that could not be added or parsed makes the request fail", 4)
    ctx.rule("rest", "the text is gone through to its end, or the request fails", 3)
    ctx.rule("true", "adding reports success only if the page took the point", 5)
    ctx.rule("each", "every point of a list is added", 2)
    ctx.rule("field", "a point goes to the series of its field", 2)
    ctx.rule("own", "a line does not take over what the one before it left", 3)
    ctx.rule("time", "a point has a time when it is added", 2)
    ctx.rule("metric", "a point without a metric is rejected", 1)
    ctx.rule("lines", "what is left of a line is kept for the rest of it", 4)
    A = adders(p)
    handlers(ctx, p, A)
    chain(ctx, p, A)
    fields(ctx, p)
    metric(ctx, p)
    lines(ctx, p)


def adders(p):
    """functions returning bool through which a point reaches its page"""
    ce, cr = p.callgraph()
    P = {f.id for nm in TEXT for f in p.all(nm)}
    out, todo = set(), [f.id for f in p.need(ADD)]
    while todo:
        for c in cr.get(todo.pop(), ()):
            f = p.funcs.get(c)
            if f is not None and c not in out and f.ret == "bool" and f.cls and not P & set(ce.get(c, ())) and not takes_request(f) and f.file.startswith("src/core/") and \
                    (any("DataPoint &" in x["t"] or "vector<DataPoint>" in x["t"] for x in f.params)):
                out.add(c)
                todo.append(c)
    need_some(len(out), "functions that add points")
    return out


def takes_request(f):
    return any("HttpRequest" in x["t"] for x in f.params)


def calls_of(g, ids):
    return [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] in ids]


def helper(p, f, A, P):
    """parts of a handler: functions of the same file that are only called from here"""
    ce, cr = p.callgraph()
    def part(fn, e, d):
        return fn.id not in A and fn.id not in P and fn.file == f.file and not (takes_request(fn) and set(cr.get(fn.id, ())) - {f.id}) and \
            (not fn.cls or fn.cls == f.cls) and set(cr.get(fn.id, ())) <= {f.id} | {x for x in cr.get(fn.id, ()) if p.funcs.get(x) is not None and set(cr.get(x, ())) <= {f.id}}
    return part


# ---- requests with points

def handlers(ctx, p, A):
    P = {f.id for nm in TEXT for f in p.all(nm)}
    ce, cr = p.callgraph()
    hs = set()
    for x in P:
        for c in cr.get(x, ()):
            f = p.funcs.get(c)
            if f is not None and takes_request(f):
                hs.add(c)
            elif f is not None:
                hs |= {d for d in cr.get(c, ()) if p.funcs.get(d) is not None and takes_request(p.funcs[d])}
    need_some(len(hs), "handlers that parse points")
    for i in sorted(hs):
        f = p.funcs[i]
        ctx.analysed(f)
        g = AGraph(p, f, helper(p, f, A, P), maxdepth=2)
        ps, ads = calls_of(g, P), calls_of(g, A)
        answers = [n for n in g if is_call(n, "HttpResponse::init")]
        # what is answered in the end
        answers = [n for n in answers if paths(g).search(after(g, n), lambda q: q is g.exit, stop=lambda q: q in answers) is not None]
        fine = lambda n, env: n in answers and (values(args(n)[0], env) is None or bool({200, 204} & values(args(n)[0], env)))
        for n in ps:
            what = "%s after %s" % (f.short, call_name(n).split("::")[-1])
            # parsed: added before anything else is parsed, and before the end
            env = {("r", cid_of(n.ev["e"])): True}
            outs = {strip_cast(a)[2] for a in args(n) if strip_cast(a)[0] == "v"}
            def never(s, l):
                # what the parser fills in is there
                return any(null_test(strip_cast(e), t) == "null" or strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("==", "!=") and strip_cast(strip_cast(e)[3])[0] == "n" and
                           strip_cast(strip_cast(e)[2])[0] == "v" and strip_cast(strip_cast(e)[2])[2] in outs and (strip_cast(e)[1] == "==") == t for e, t in truths(l))
            lost = lambda q, v: fine(q, v) or q in ps and explore(g, [q], v, fine) is not None
            r = explore(g, after(g, n), env, lost, stop=lambda q: q in ads or q in ps, stop_edge=never)
            ctx.ob("stored", what, r is None, n.loc, "the point is dropped (line %s)" % (r[0].line if r else ""))
            # not parsed: told
            r = explore(g, after(g, n), {("r", cid_of(n.ev["e"])): False}, fine)
            ctx.ob("told", "%s fails" % what, r is None, n.loc, "the request is answered with success")
        for n in ads:
            r = explore(g, after(g, n), {("r", cid_of(n.ev["e"])): False}, fine)
            ctx.ob("told", "%s after %s" % (f.short, call_name(n).split("::")[-1]), r is None, n.loc, "the request is answered with success although a point was not stored")
        rest(ctx, p, g, f, ps, fine)
        own(ctx, p, g, f, ps, ads)
        times(ctx, p, g, f, ps, ads)


def at_end(g, curs):
    """edge: the text is at its end"""
    def cur(e):
        e = strip_cast(e)
        while e[0] == "b" and e[1] == "=":
            e = strip_cast(e[2])
        return e[0] == "v" and e[2] in curs
    def char(e):
        e = strip_cast(e)
        return e[0] == "u" and e[1] == "*" and cur(e[2]) or e[0] == "x" and cur(e[1]) and const_of(e[2]) == 0 or \
            e[0] == "v" and e[4] in ("char", "const char") and any(char(d) for d in common._defs(g).get(e[2], ()))
    def test(e, t):
        e = strip_cast(e)
        if cur(e) or char(e):
            return not t
        if e[0] == "b" and e[1] in ("==", "!="):
            a, b = strip_cast(e[2]), strip_cast(e[3])
            if const_of(a) is not None or a[0] == "n":
                a, b = b, a
            if cur(a) and (b[0] == "n" or const_of(b) == 0):
                return (e[1] == "==") == t
            if char(a) and const_of(b) in (0, ord("]")):
                return (e[1] == "==") == t
        if e[0] == "b" and e[1] in (">", ">=", "<", "<="):
            d = merge(terms(g, e[2], keep=curs), {k: -v for k, v in terms(g, e[3], keep=curs).items()})
            s = 1 if e[1] in (">", ">=") else -1
            m = [k for k, v in d.items() if k and k[0] == "v" and k[1] in curs and v * s > 0]
            n = [k for k, v in d.items() if k and k[0] == "m" and k[1] == "HttpRequest::length" and v * s < 0]
            return bool(m and n) and t
        return False
    return lambda s, l: implies(g, l, test)


def rest(ctx, p, g, f, ps, fine):
    for n in ps:
        lp = loop_of(g, n)
        if lp is None:
            continue
        # the outermost loop: the one over the lines
        ls = [(h, b) for h, b in loops(g) if n.id in b]
        h, body = max(ls, key=lambda x: len(x[1]))
        # the position: what is given to the parser, and what it is computed from
        curs, todo = set(), list(args(n)[:1])
        while todo:
            for x in walk(todo.pop()):
                if x[0] == "v" and "char *" in x[4] and x[2] not in curs:
                    curs.add(x[2])
                    todo += common._defs(g).get(x[2], ())
        end = at_end(g, curs)
        r = explore(g, [g.nodes[h]], {}, lambda q, v: q.id not in body and fine(q, v), stop_edge=lambda s, l: end(s, l))
        ctx.ob("rest", "%s goes on to the end" % f.short, r is None, n.loc, "the rest of the text may be dropped without a word (line %s)" % (r[0].line if r else ""))
        # and moves on
        moves = lambda q: q in ps or q.k == "asg" and q.ev["lhs"][0] == "v" and q.ev["lhs"][2] in curs
        r = explore(g, after(g, g.nodes[h]), {}, lambda q, v: q.id == h, stop=moves)
        ctx.ob("rest", "%s moves on" % f.short, r is None, n.loc, "it may stay at the same place for ever")


def assigned(p, fid, i):
    """does a parser set its i-th parameter whenever it succeeds"""
    f = p.funcs[fid]
    g = Graph(p, f)
    ids = {(0, f.params[i]["id"]), f.params[i]["id"]}
    sets = lambda q: q.k == "asg" and q.ev["op"] == "=" and q.ev["lhs"][0] == "v" and q.ev["lhs"][2] in ids
    r = explore(g, [g.entry], {}, lambda q, v: q.k == "ret" and q.ev.get("e") is not None and truth(q.ev["e"], v) is not False, stop=sets)
    return r is None


def own(ctx, p, g, f, ps, ads):
    for n in ps:
        fid = n.ev["e"][1]
        fn = p.funcs[fid]
        for i, (x, a) in enumerate(zip(fn.params, args(n))):
            a = strip_cast(a)
            if a[0] != "v" or not x["t"].strip().endswith("&") or "const &" in x["t"]:
                continue
            if "vector" in x["t"]:
                reset = lambda q: q.k == "call" and q.ev["e"][0] == "c" and q.ev["e"][2] is not None and strip_cast(q.ev["e"][2])[0] == "v" and strip_cast(q.ev["e"][2])[2] == a[2] and \
                    short(q.ev["e"][1]).endswith(("::clear", "::operator=", "::swap")) or q.k in ("decl", "dtor") and q.ev["id"] == a[2]
            elif i == 0 or assigned(p, fid, i):
                continue
            else:
                reset = lambda q: q.k == "asg" and q.ev["op"] == "=" and q.ev["lhs"][0] == "v" and q.ev["lhs"][2] == a[2] and not mentions_var(q.ev["rhs"], a[1]) or q.k == "decl" and q.ev["id"] == a[2]
            stale = []
            for m in ps:
                # after another line (or the same again)
                if not any(strip_cast(b)[0] == "v" and strip_cast(b)[2] == a[2] for b in args(m)):
                    continue
                r = explore(g, after(g, m), {}, lambda q, v: q is n, stop=reset)
                if r is not None:
                    stale.append(m)
            ctx.ob("own", "%s in %s before %s" % (a[1], f.short, fn.short.split("::")[-1]), not stale, n.loc, "it still has what the line before put there")
    # one point per object: a point made outside the loop keeps what was there
    for n in ps:
        o = n.ev["e"][2]
        if o is None or strip_cast(o)[0] != "v":
            continue
        o = strip_cast(o)
        r = explore(g, after(g, n), {}, lambda q, v: q is n, stop=lambda q: q.k in ("decl", "dtor", "ctor") and q.ev.get("id") == o[2] or is_call(q, "DataPoint::init", "DataPoint::recycle"))
        ctx.ob("own", "%s in %s" % (o[1], f.short), r is None, n.loc, "it still has what was parsed before")


def times(ctx, p, g, f, ps, ads):
    for n in ps:
        fid = n.ev["e"][1]
        fn = p.funcs[fid]
        for i, (x, a) in enumerate(zip(fn.params, args(n))):
            a = strip_cast(a)
            if a[0] != "v" or not x["t"].strip().endswith("&") or not x["t"].startswith(("Timestamp", "unsigned long", "uint64_t")):
                continue
            sets = lambda q: q.k == "asg" and q.ev["op"] == "=" and q.ev["lhs"][0] == "v" and q.ev["lhs"][2] == a[2] and const_of(q.ev["rhs"]) != 0
            given = lambda s, l: implies(g, l, lambda e, t: e[0] == "b" and e[1] in ("==", "!=", ">") and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[2] == a[2] and const_of(e[3]) == 0 and
                                         (e[1] != "==") == t or e[0] == "v" and e[2] == a[2] and t)
            for m in ads:
                if not any(strip_cast(b)[0] == "v" and strip_cast(b)[2] == a[2] for b in args(m)):
                    continue
                r = explore(g, after(g, n), {("r", cid_of(n.ev["e"])): True}, lambda q, v: q is m, stop=lambda q: sets(q) or q in ps, stop_edge=given)
                if paths(g).search(after(g, n), lambda q: q is m, stop=lambda q: q in ps and q is not n) is None:
                    continue
                ctx.ob("time", "%s gives a time to what %s parsed" % (f.short, fn.short.split("::")[-1]), r is None, m.loc, "the point may have no time")


# ---- functions that add

def chain(ctx, p, A):
    ids = set(A) | {f.id for f in p.need(ADD)}
    for i in sorted(A):
        f = p.funcs[i]
        ctx.analysed(f)
        g = Graph(p, f, helper(p, f, ids, ()), maxdepth=2)
        cs = calls_of(g, ids)
        may = lambda q, v: q.k == "ret" and q.frame == g.entry.frame and q.ev.get("e") is not None and truth(q.ev["e"], v) is not False
        for n in cs:
            r = explore(g, after(g, n), {("r", cid_of(n.ev["e"])): False}, lambda q, v: may(q, v), stop=lambda q: q in cs and not loop_of(g, q))
            ctx.ob("true", "%s after %s" % (f.short, call_name(n)), r is None, n.loc, "success is reported although the point was not taken")
        inloop = [n for n in cs if loop_of(g, n)]
        if not inloop:
            r = explore(g, [g.entry], {}, may, stop=lambda q: q in cs)
            ctx.ob("true", "%s adds the point" % f.short, r is None, f.loc(), "success is reported without it (line %s)" % (r[0].line if r else ""))
        else:
            heads = {loop_of(g, n)[0] for n in inloop}
            r = explore(g, [g.entry], {}, may, stop=lambda q: q in cs or q.id in heads)
            ctx.ob("true", "%s adds the points" % f.short, r is None, f.loc(), "success is reported without it (line %s)" % (r[0].line if r else ""))
        for n in inloop:
            h, body = loop_of(g, n)
            skip = explore(g, [g.nodes[s] for s, l in g.nodes[h].succ if s in body], {}, lambda q, v: q.id == h, stop=lambda q: q is n)
            leaves = left_early(g, n)
            part = [w for w in (partial(g, q) for q in g if q.id in body and q.k == "call") if w]
            ctx.ob("each", "%s takes every point" % f.short, skip is None and not leaves and not part, n.loc,
                   "points are left out" + (": " + part[0] if part else ""))
            # all at the time of the line
            ts = [x for x in f.params if x["t"] in ("Timestamp", "unsigned long", "uint64_t")]
            if ts:
                st = [q for q in g if is_call(q, "DataPoint::set_timestamp") and q.id in body and strip_cast(args(q)[0])[0] == "v" and strip_cast(args(q)[0])[2] in ((0, ts[0]["id"]), ts[0]["id"])]
                r = explore(g, [g.nodes[s] for s, l in g.nodes[h].succ if s in body], {}, lambda q, v: q is n, stop=lambda q: q in st)
                ctx.ob("time", "%s sets the time of each point" % f.short, bool(st) and r is None, n.loc, "it may have none")


# ---- fields

def matched(g, v):
    """edge: the series in v has the field looked for"""
    def test(e, t):
        e = strip_cast(e)
        if e[0] != "c" or not short(e[1]).endswith("::match_last") or not t or e[2] is None:
            return False
        for o in [e[2]] + list(common._defs(g).get(strip_cast(e[2])[2], ()) if strip_cast(e[2])[0] == "v" else ()):
            for x in walk(o):
                if x[0] == "v" and x[2] == v:
                    return True
        return False
    return lambda s, l: implies(g, l, test)


def fields(ctx, p):
    # functions that look up a series for a point or a field
    fs = [f for f in p.funcs.values() if f.cls == "Measurement" and any("vector<DataPoint>" in x["t"] or x["t"] == "const char *" for x in f.params) and
          any(ev["k"] in ("acc", "sub", "asg") and "Measurement::m_time_series" in repr(ev) for ev in f.events())]
    cnt = 0
    for f in fs:
        ctx.analysed(f)
        g = Graph(p, f)
        for n in g:
            v = None
            if n.k == "ret" and n.ev.get("e") is not None and strip_cast(n.ev["e"])[0] == "v" and "TimeSeries *" in f.ret:
                v = strip_cast(n.ev["e"])
            elif n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]).endswith(("::push_back", "::emplace_back")) and args(n) and strip_cast(args(n)[0])[0] == "v" and "TimeSeries" in strip_cast(args(n)[0])[4]:
                v = strip_cast(args(n)[0])
            if v is None:
                continue
            cnt += 1
            defs = [q for q in g if q.k == "decl" and q.ev["id"] == v[2] and q.ev.get("init") is not None and strip_cast(q.ev["init"])[0] != "n" or
                    q.k == "asg" and q.ev["lhs"][0] == "v" and q.ev["lhs"][2] == v[2] and strip_cast(q.ev["rhs"])[0] != "n"]
            took = lambda q: mentions_field((q.ev.get("init") if q.k == "decl" else q.ev["rhs"]), "Measurement::m_time_series")
            test = matched(g, v[2])
            r = None
            for d in filter(took, defs):
                r = r or paths(g).search(after(g, d), lambda q: q is n, stop=lambda q: q in defs, stop_edge=test)
            ctx.ob("field", "%s gives the series of the field" % f.short, r is None, n.loc, "it may be that of another field")
        # taken by position: same position for point and series
        for n in g:
            if n.k == "sub" and strip_cast(n.ev["e"])[0] == "x" and mentions_field(strip_cast(n.ev["e"])[1], "Measurement::m_time_series") and any("vector<DataPoint>" in x["t"] for x in f.params):
                i = terms(g, strip_cast(n.ev["e"])[2])
                dp = [q for q in g if q.k == "call" and q.ev["e"][0] == "c" and "vector<DataPoint" in q.ev["e"][1] and "operator[]" in q.ev["e"][1]]
                ctx.ob("field", "%s pairs points and series" % f.short, all(terms(g, args(q)[0]) == i for q in dp), n.loc, "they are not at the same position")
    ctx.ob("field", "series are looked up by field", cnt > 0, fs[0].loc() if fs else None, "nothing compares the field")
    for f in p.funcs.values():
        if f.cls == "Measurement" and any("vector<DataPoint>" in x["t"] for x in f.params):
            g = Graph(p, f)
            for n in g:
                if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) == "TimeSeries::add_data_point":
                    # series and point by position
                    s = [x for o in origins(g, n.ev["e"][2]) for x in walk(o) if x[0] == "c" and "operator[]" in x[1] and "TimeSeries" in x[1]]
                    d = [x for a in args(n) for o in origins(g, a) for x in walk(o) if x[0] == "c" and "operator[]" in x[1] and "DataPoint" in x[1]]
                    if s and d:
                        ctx.ob("field", "%s adds to the series of the point" % f.short, terms(g, s[0][3][0]) == terms(g, d[0][3][0]), n.loc, "they are not at the same position")
                    # series by field name of the point
                    s = [x for o in origins(g, n.ev["e"][2]) for x in walk(o) if x[0] == "c" and p.funcs.get(x[1]) is not None and p.funcs[x[1]].cls == "Measurement"]
                    for x in s:
                        ok = any(y[0] == "c" and short(y[1]) == "DataPoint::get_raw_tags" and same_point(g, y[2], args(n)[-1]) for a in x[3] for o in origins(g, a) for y in walk(o))
                        ctx.ob("field", "%s looks up the field of the point" % f.short, ok, n.loc, "it is not the point's field")


def same_point(g, a, b):
    a, b = strip_cast(a), strip_cast(b)
    if a == b:
        return True
    at = [[x for o in origins(g, e) for x in walk(o) if x[0] == "c" and "operator[]" in x[1]] for e in (a, b)]
    if at[0] and at[1]:
        return terms(g, at[0][0][3][0]) == terms(g, at[1][0][3][0])
    return not at[0] and not at[1] and bool(set(map(repr, origins(g, a))) & set(map(repr, origins(g, b))))


def metric(ctx, p):
    """a point of which no metric is known does not get to the table of metrics"""
    for f in p.funcs.values():
        if f.cls != "Tsdb" or not any(x["t"] == "DataPoint &" for x in f.params) or f.ret != "bool":
            continue
        g = Graph(p, f)
        for n in g:
            if not is_call(n, "Tsdb::get_or_add_mapping"):
                continue
            if not parsed_for(p, f):
                continue
            a = args(n)[0]
            if not any(mentions_call(o, "DataPoint::get_metric") for o in origins(g, a)):
                continue
            has = lambda s, l: implies(g, l, lambda e, t: (e[0] == "b" and e[1] in ("==", "!=") and strip_cast(e[3])[0] == "n" and (e[1] == "!=") == t and
                                                          any(mentions_call(o, "DataPoint::get_metric") for o in origins(g, e[2]))) or
                                       e[0] in ("v", "c") and t and any(mentions_call(o, "DataPoint::get_metric") for o in origins(g, e)))
            r = paths(g).search([g.entry], lambda q: q is n, stop_edge=has)
            inner = None
            if r is not None:
                h = Graph(p, p.funcs[n.ev["e"][1]])
                tests = [q for q in h if any(null_of(e, t) for s, l in q.succ for e, t in truths(l))]
                inner = tests and paths(h).search([h.entry], lambda q: q.k == "call", stop_edge=lambda s, l: any(null_of(e, t) for e, t in truths(l)))
                r = None if tests and inner is None else r
            ctx.ob("metric", f.short, r is None, n.loc, "the name of the metric may be null")


def null_of(e, t):
    e = strip_cast(e)
    return e[0] == "b" and e[1] in ("==", "!=") and strip_cast(e[3])[0] == "n" and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[3] == "p" and (e[1] == "!=") == t


def parsed_for(p, f):
    """points that were parsed come here"""
    ce, cr = p.callgraph()
    P = {x.id for nm in TEXT for x in p.all(nm)}
    return any(P & set(ce.get(c, ())) for c in callers_up(p, [f.id]))


# ---- lines over connections

def lines(ctx, p):
    OFF, BUF = "TcpConnection::offset", "TcpConnection::buff"
    fs = [f for f in p.funcs.values() if f.cls == "TcpServer" and any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "recv" for ev in f.events())]
    need_some(len(fs), "functions that receive lines")
    for f in fs:
        ctx.analysed(f)
        ce, cr = p.callgraph()
        g = Graph(p, f, lambda fn, e, d: fn.file == f.file and set(cr.get(fn.id, ())) <= {f.id} and fn.end - fn.line < 60 and not any(ev["k"] == "catch" for ev in fn.events()) and "HttpRequest" not in str(list(fn.events())), maxdepth=2)
        rs = [n for n in g if is_ext(n, "recv")]
        for n in rs:
            at = strip_cast(args(n)[1])
            idx = None
            if at[0] == "u" and at[1] == "&" and strip_cast(at[2])[0] == "x":
                base, idx = strip_cast(at[2])[1], strip_cast(at[2])[2]
            elif at[0] == "b" and at[1] == "+":
                base, idx = at[2], at[3]
            idx = strip_cast(idx) if idx else None
            if idx is None or idx[0] != "v":
                ctx.ob("lines", "%s receives behind what it has" % f.short, False, n.loc, "what is there already is overwritten")
                continue
            ln = idx[2]
            base = strip_cast(base)
            # starts with what was kept
            kept = [q for q in g if q.k in ("asg", "decl") and (q.ev["lhs"][0] == "v" and q.ev["lhs"][2] == ln if q.k == "asg" else q.ev["id"] == ln) and
                    mentions_field(q.ev["rhs"] if q.k == "asg" else q.ev.get("init") or ("n",), OFF)]
            taken = [q for q in g if q.k in ("asg", "decl") and (strip_cast(q.ev["lhs"])[0] == "v" and base[0] == "v" and q.ev["lhs"][2] == base[2] if q.k == "asg" else base[0] == "v" and q.ev["id"] == base[2]) and
                     mentions_field((q.ev["rhs"] if q.k == "asg" else q.ev.get("init")) or ("n",), BUF)]
            ctx.ob("lines", "%s goes on with the part of a line it kept" % f.short, bool(kept) and bool(taken), n.loc, "the beginning of the line is lost")
            for q in taken:
                both = kept and (paths(g).search(after(g, q), lambda x: x is n, stop=lambda x: x in kept) is None or paths(g).search([g.entry], lambda x: x is q, stop=lambda x: x in kept) is None)
                ctx.ob("lines", "%s knows how much it kept" % f.short, bool(both), q.loc, "the part kept is overwritten")
            # counts what it receives
            cnt = [d for d in g if d.k in ("decl", "asg") and cid_of((d.ev.get("init") if d.k == "decl" else d.ev["rhs"]) or ("n",)) == cid_of(n.ev["e"])]
            adds = lambda q: q.k == "asg" and q.ev["lhs"][0] == "v" and q.ev["lhs"][2] == ln and (
                q.ev["op"] == "+=" or q.ev["op"] == "=" and mentions_var(q.ev["rhs"], idx[1]) and strip_cast(q.ev["rhs"])[0] == "b" and strip_cast(q.ev["rhs"])[1] == "+")
            none = lambda s, l: implies(g, l, lambda e, t: e[0] == "b" and e[1] in ("<", "<=", "==", ">", ">=", "!=") and const_of(e[3]) in (0, -1, 1) and any(cid_of(o) == cid_of(n.ev["e"]) for o in origins(g, e[2])) and
                                        not_positive(e[1], const_of(e[3]), t))
            r = paths(g).search(after(g, n), lambda q: q is n or q is g.exit, stop=adds, stop_edge=none)
            ctx.ob("lines", "%s counts what it received" % f.short, r is None, n.loc, "it is overwritten by what comes next")
            given(ctx, p, g, f, n, base, ln, OFF, BUF)


def not_positive(op, c, t):
    import operator
    F = {"<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne, ">": operator.gt, ">=": operator.ge}[op]
    return not any(F(v, c) == t for v in (1, 2, 100))


def given(ctx, p, g, f, n, base, ln, OFF, BUF):
    """whole lines are processed, what is behind them is kept"""
    calls = [q for q in g if q.k == "call" and q.ev["e"][0] == "c" and q.ev["e"][1] in p.funcs and p.funcs[q.ev["e"][1]].cls == f.cls and
             len(args(q)) >= 2 and any(strip_cast(a) == base for a in args(q)) and any(x["t"] in ("int", "size_t", "unsigned long") for x in p.funcs[q.ev["e"][1]].params)]
    ctx.ob("lines", "%s hands on the lines" % f.short, bool(calls), n.loc, "they are not processed")
    for q in calls:
        fn = p.funcs[q.ev["e"][1]]
        a = [x for x, y in zip(args(q), fn.params) if y["t"] in ("int", "size_t", "unsigned long")]
        d = terms(g, a[0])
        c = d.pop((), 0)
        # up to and with the newline found
        pos = [k for k, v in d.items() if v == 1]
        neg = [k for k, v in d.items() if v == -1]
        bt = terms(g, base)
        okl = c == 1 and len(pos) == 1 and len(neg) == 1 and {neg[0]: 1} == bt
        nl = lambda v: any(newline(e, t) for m in g for s, l in m.succ for e, t in truths(l)) or \
            any(m.k == "call" and call_name(m).split("::")[-1] in ("memrchr", "strrchr") and const_of(args(m)[1]) == 10 for m in g)
        ctx.ob("lines", "%s hands on whole lines" % f.short, okl and nl(pos), q.loc, "they do not end with the last newline")
        # the rest is counted
        less = [m for m in g if m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == ln and (m.ev["op"] == "-=" and terms(g, m.ev["rhs"]) == terms(g, a[0]) or
                m.ev["op"] == "=" and terms(g, m.ev["rhs"], keep=(ln,)) == merge({("v", ln): 1}, {k: -v for k, v in terms(g, a[0]).items()}))]
        keeps = [m for m in g if writes_field(m, OFF)]
        good = [m for m in keeps if m.k == "asg" and strip_cast(m.ev["rhs"])[0] == "v" and strip_cast(m.ev["rhs"])[2] == ln]
        before = paths(g).search([g.entry], lambda m: m is q, stop=lambda m: m in less) is None
        later = paths(g).search(after(g, q), lambda m: m in good, stop=lambda m: m in less) is None
        ctx.ob("lines", "%s counts what is left" % f.short, bool(less) and (before or later), q.loc, "it does not know how much is left of the next line")
        # the rest goes to the front
        front = [m for m in g if m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).replace("std::", "") in ("memcpy", "memmove") and strip_cast(args(m)[0]) == base]
        mt = lambda s, l: implies(g, l, lambda e, t: e[0] == "b" and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[2] == ln and const_of(e[3]) == 0 and not_positive(e[1], 0, t) or e[0] == "v" and e[2] == ln and not t)
        r = paths(g).search(after(g, q), lambda m: m in good, stop=lambda m: m in front, stop_edge=mt)
        ctx.ob("lines", "%s keeps what is left" % f.short, bool(front) and r is None, q.loc, "the beginning of the next line is lost")
        for m in front:
            src, cnt = args(m)[1], args(m)[2]
            okc = terms(g, cnt, keep=(ln,)) == {("v", ln): 1}
            # copied aside before the lines are processed (their end is written to), from behind the newline
            srcs = [src]
            side = [x for x in g if x.k == "call" and x.ev["e"][0] == "c" and short(x.ev["e"][1]).replace("std::", "") in ("memcpy", "memmove") and strip_cast(args(x)[0]) == strip_cast(src)]
            direct = merge(terms(g, src), {k: -v for k, v in terms(g, a[0]).items()}) == bt
            aside = bool(side) and all(merge(terms(g, args(x)[1]), {k: -v for k, v in terms(g, a[0]).items()}) == bt and terms(g, args(x)[2], keep=(ln,)) == {("v", ln): 1} and
                                       paths(g).search([g.entry], lambda y: y is q, stop=lambda y: y is x) is None for x in side)
            ctx.ob("lines", "%s keeps all of what is left" % f.short, okc and (direct or aside), m.loc, "it is not what is behind the lines processed")
        # and stays with the connection
        some = lambda s, l: mt(s, l)
        for m in good:
            r = paths(g).search([m], lambda x: x is g.exit, stop=lambda x: writes_field(x, BUF)) if not any(writes_field(x, BUF) and paths(g).search(after(g, x), lambda y: y is m) is not None and strip_cast(x.ev["rhs"]) == base for x in g if writes_field(x, BUF)) else None
            ctx.ob("lines", "%s keeps the buffer with it" % f.short, r is None, m.loc, "what is left is lost")
        ctx.ob("lines", "%s stores how much is left" % f.short, bool(good), q.loc, "it is lost")
        over = lambda s, l: implies(g, l, lambda e, t: e[0] == "b" and e[1] in (">", ">=") and t and const_of(e[3]) is None and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[2] == ln)
        r = paths(g).search(after(g, q), lambda x: x is g.exit or x.k == "asg" and x.ev["lhs"][0] == "v" and x.ev["lhs"][2] == ln and const_of(x.ev["rhs"] or ("n",)) == 0, stop=lambda x: x in good, stop_edge=lambda s, l: mt(s, l) or over(s, l))
        ctx.ob("lines", "%s drops nothing" % f.short, r is None, q.loc, "what is left of a line may be dropped")


def newline(e, t):
    e = strip_cast(e)
    return e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) == 10
