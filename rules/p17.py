"""HTTP requests and responses: framing, routing, one answer to each request."""
from common import *
import common
import re

ASSUMPTIONS = [
    "the constants for line ends and content types keep the length they have in the sources",
    "an answer that could not be sent at once is sent again by the task queued for it",
    "requests sent without waiting for the answer to the one before are not supported",
]

COMPLETE, LENGTH = "HttpRequest::complete", "HttpRequest::length"
ERROR = 2       # TCS_ERROR


def check(ctx):
    p = ctx.prog
    ctx.rule("once", "a request is answered once", 2)
    ctx.rule("whole", "a request is processed only after all of it was received", 3)
    ctx.rule("room", "what is received leaves room for the marks put behind it", 3)
    ctx.rule("header", "the lines of the header set what they stand for", 4)
    ctx.rule("again", "a header parsed in part is put back before it is parsed again", 4)
    ctx.rule("fresh", "a request starts without what the one before left", 6)
    ctx.rule("route", "a request goes to the handler registered for its method and path", 8)
    ctx.rule("answer", "every handler prepares an answer before it returns", 12)
    ctx.rule("failed", "a request that failed is answered with an error", 2)
    ctx.rule("status", "every status sent has a reason to go with it", 4)
    ctx.rule("length", "the length announced is that of the body", 12)
    ctx.rule("frame", "the header has the length of the body and ends where the body starts", 4)
    ctx.rule("sent", "the answer is sent from where sending stopped to its end", 1)
    ctx.rule("close", "a connection is marked after an answer that ends it", 2)
    S = senders(p)
    P = processors(p)
    H = parsers(p)
    need_some(S, "functions sending an HTTP response")
    need_some(P, "functions calling the handler of a request")
    need_some(H, "functions parsing the header of a request")
    R = receivers(p, S, P, H)
    need_some(R, "tasks receiving HTTP requests")
    for f, g in R:
        once(ctx, p, g, S, P)
        whole(ctx, p, g, P)
        close(ctx, p, g, S, P)
    reserve = [r for f, g in R for r in room(ctx, p, g, H)]
    behind(ctx, p, min(reserve) if reserve else 0, H)
    header(ctx, p, H)
    again(ctx, p, H)
    fresh(ctx, p, R, S, H)
    route(ctx, p, P)
    answer(ctx, p, P)
    failed(ctx, p, P)
    status(ctx, p, S)
    length(ctx, p)
    frame(ctx, p)
    sent(ctx, p, S)


# ---- the functions concerned

def ptypes(f):
    return [x["t"].replace("const ", "").strip() for x in f.params]


def calls_ext(f, name):
    return any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == name for ev in f.events())


def part_of(fn):
    """a function of the server, or a helper next to it"""
    return fn.cls in ("HttpServer", "HttpRequest") or not fn.cls and fn.file.endswith("http.cpp")


def senders(p):
    """functions sending the response of a connection, or preparing one and sending it"""
    ce, cr = p.callgraph()
    P = processors(p)
    s = set()
    for f in p.funcs.values():
        if not any("HttpConnection *" in t for t in ptypes(f)):
            continue
        down, todo, far = set(), [f.id], False
        while todo:
            x = todo.pop()
            if x in down:
                continue
            down.add(x)
            todo += [c for c in ce.get(x, ()) if c in p.funcs and part_of(p.funcs[c])]
        fs = [p.funcs[x] for x in down]
        if any(calls_ext(x, "send") for x in fs) and not any(calls_ext(x, "recv") for x in fs) and not down & P:
            s.add(f.id)
    # parts of a sender do not count
    top = {i for i in s if any(c not in s for c in cr.get(i, ()))}
    return top or s


def handler_call(e):
    return e[0] == "ci" and len(e[2]) == 2 and any(s[0] == "v" and "HttpRequest &, HttpResponse &" in s[4] or s[0] == "m" and "HttpRequest &, HttpResponse &" in s[3] for s in walk(e[1]))


def processors(p):
    return {f.id for f in p.funcs.values() if any(ev["k"] == "call" and handler_call(ev["e"]) for ev in f.events())}


def parsers(p):
    """functions that take a request apart: they set its method to a place in the buffer"""
    return {f.id for f in p.funcs.values() if any(ev["k"] == "asg" and ev["lhs"][0] == "m" and ev["lhs"][2] == "HttpRequest::method" and strip_cast(ev["rhs"])[0] != "n" for ev in f.events())}


def receivers(p, S, P, H):
    stop = S | P | H
    inl = lambda fn, e, d: part_of(fn) and fn.id not in stop and fn.short != "HttpRequest::init"
    out = []
    for f in p.funcs.values():
        if any("TaskData" in t for t in ptypes(f)) and f.cls == "HttpServer":
            g = AGraph(p, f, inline=inl)
            if any(is_ext(n, "recv") for n in g):
                out.append((f, g))
    return out


def calls(n, ids):
    return n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] in ids


def code(g, n):
    """constant status a sender is given"""
    for a in args(n)[1:]:
        if const_of(a) is not None:
            return const_of(a)
    return None


# ---- receiving

def once(ctx, p, g, S, P):
    ends = [n for n in g if calls(n, S)]
    for n in ends:
        ctx.analysed(n.func)
        nxt = [g.nodes[s] for s, l in n.succ if not (l and l[0] == "eh")]
        r = paths(g).search(nxt, lambda m: calls(m, S))
        ctx.ob("once", "%s sends %s" % (n.func.short, code(g, n) or "the response"), r is None, n.loc,
               "another answer is sent at line %d" % r[-1].line if r else "")
    for n in g:
        if calls(n, P):
            r = escapes(g, n, lambda m: calls(m, S))
            ctx.ob("once", "%s answers what it processed" % n.func.short, r is None, n.loc, "no answer is sent")


def says_complete(g):
    def test(e):
        o = origins(g, e)
        return bool(o) and all(x[0] == "m" and x[2] == COMPLETE for x in o)
    return test


def recv_index(g):
    """variables saying how much was received"""
    out = set()
    for n in g:
        if is_ext(n, "recv"):
            for s in walk(args(n)[1]):
                if s[0] == "x":
                    out |= {v[2] for v in walk(s[2]) if v[0] == "v"}
                elif s[0] == "b" and s[1] == "+":
                    out |= {v[2] for v in walk(s[3]) if v[0] == "v"}
    return out


def whole(ctx, p, g, P):
    test = says_complete(g)
    idx = recv_index(g)
    for n in g:
        if calls(n, P):
            r = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: edge_is(l, test, True))
            ctx.ob("whole", "%s processes complete requests" % n.func.short, r is None, n.loc, "the request may not be complete")
    seen = set()
    for n in g:
        for s, l in n.succ:
            if l and l[0] == "cond" and edge_is(l, test, False) and (n.func.short, n.line) not in seen:
                seen.add((n.func.short, n.line))
                keep = lambda m: writes_field(m, "TcpConnection::offset") and m.ev["op"] == "=" and any(v[0] == "v" and v[2] in idx for v in walk(m.ev["rhs"]))
                r = paths(g).search([g.nodes[s]], lambda m: m is g.exit, stop=keep)
                ctx.ob("whole", "%s remembers how much it has" % n.func.short, r is None, n.func.loc(n.line or g.nodes[s].line), "the amount received so far is not kept")
    if not seen:
        ctx.ob("whole", "what was received in part is kept", False, g.func.loc(), "a request that is not complete is not told apart")
    # what complete means
    for f in p.funcs.values():
        if f.cls not in ("HttpServer", "HttpRequest"):
            continue
        if not any(ev["k"] == "asg" and ev["lhs"][0] == "m" and ev["lhs"][2] == COMPLETE for ev in f.events()):
            continue
        g2 = Graph(p, f)
        for n in g2:
            if writes_field(n, COMPLETE):
                rhs = strip_cast(n.ev["rhs"])
                while rhs[0] == "v" and len(common._defs(g2).get(rhs[2], ())) == 1:
                    rhs = strip_cast(common._defs(g2)[rhs[2]][0])
                c = const_of(rhs)
                if c == 0:
                    continue
                if c is not None:
                    none = lambda e, t: no_length(e, t)
                    r = paths(g2).search([g2.entry], lambda m: m is n, stop_edge=lambda s, l: any(none(e, t) for e, t in truths(l)))
                    ctx.ob("whole", "%s: complete without content" % f.short, r is None, n.loc, "content may be missing")
                else:
                    ctx.ob("whole", "%s: complete when the content is there" % f.short, enough(g2, n, rhs), n.loc, "it is not compared with what was received")


def no_length(e, t):
    """(e, t) says that there is no content"""
    e = strip_cast(e)
    if e[0] != "b":
        return False
    a, b, op = strip_cast(e[2]), strip_cast(e[3]), e[1]
    if b[0] == "m" and b[2] == LENGTH:
        a, b = b, a
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if a[0] != "m" or a[2] != LENGTH or const_of(b) is None:
        return False
    c = const_of(b)
    if not t:
        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}.get(op, op)
    return op == "<=" and c <= 0 or op == "<" and c <= 1 or op == "==" and c == 0


def terms(g, e, sign=1, depth=0, keep=()):
    """linear form: {term: factor}, () the constant"""
    e = strip_cast(e)
    if const_of(e) is not None:
        return {(): sign * const_of(e)}
    if e[0] == "b" and e[1] in ("+", "-"):
        return merge(terms(g, e[2], sign, depth, keep), terms(g, e[3], sign if e[1] == "+" else -sign, depth, keep))
    if e[0] == "u" and e[1] == "&" and strip_cast(e[2])[0] == "x":
        x = strip_cast(e[2])
        return merge(terms(g, x[1], sign, depth, keep), terms(g, x[2], sign, depth, keep))
    if e[0] == "v" and e[3] != "g":
        ds = common._defs(g).get(e[2], ())
        if len(ds) == 1 and depth < 6 and e[2] not in keep:
            return terms(g, ds[0], sign, depth + 1, keep)
        return {("v", e[2]): sign}
    if e[0] == "m":
        return {("m", e[2]): sign}
    if e[0] == "c":
        return {("c", short(e[1]), tuple(tkey(g, a) for a in ([e[2]] if e[2] is not None else []) + list(e[3]))): sign}
    return {("?", repr(e)): sign}


def tkey(g, e):
    return tuple(sorted(terms(g, e).items(), key=repr))


def merge(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
        if r[k] == 0:
            del r[k]
    return r


def enough(g, n, rhs):
    """received up to buff+len, content from curr on: len + buff - curr >= length"""
    if rhs[0] != "b" or rhs[1] not in ("<=", ">=", "<", ">"):
        return False
    a, b, op = rhs[2], rhs[3], rhs[1]
    if op in ("<=", "<"):
        a, b = b, a
    d = merge(terms(g, a), {k: -v for k, v in terms(g, b).items()})
    c = d.pop((), 0)
    strict = op in ("<", ">")
    if c != (1 if strict else 0):
        return False
    if d.pop(("m", LENGTH), 0) != -1:
        return False
    plus = [k for k, v in d.items() if v == 1]
    less = [k for k, v in d.items() if v == -1]
    if len(plus) != 2 or len(less) != 1 or len(d) != 3:
        return False
    k = less[0]
    return k == ("m", "HttpRequest::content") or any(writes_field(m, "HttpRequest::content") and terms(g, m.ev["rhs"]) == {k: 1} for m in g)


def size_reserve(g, e):
    """e is the size of a network buffer less a constant: the constant"""
    d = terms(g, e)
    c = d.pop((), 0)
    ks = list(d)
    if len(ks) == 1 and d[ks[0]] == 1 and ks[0][0] == "c" and ks[0][1].endswith("get_network_buffer_size"):
        return -c
    return None


def below(g, i, lim):
    """edge test: the index is below the limit"""
    def test(l):
        for e, t in truths(l):
            e = strip_cast(e)
            if e[0] != "b":
                continue
            a, b, op = terms(g, e[2], keep=i), terms(g, e[3], keep=i), e[1]
            if not t:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}.get(op)
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            if op != "<":
                continue
            if any(k[0] == "v" and k[1] in i for k in a if k) and len(a) == 1 and b == lim:
                return True
        return False
    return test


def room(ctx, p, g, H):
    out = []
    ends = lambda m: m.k == "asg" and m.ev["lhs"][0] == "x" and const_of(m.ev["rhs"]) == 0 and () not in terms(g, m.ev["lhs"][2], keep=idx) and \
        any(k[0] == "v" and k[1] in idx for k in terms(g, m.ev["lhs"][2], keep=idx))
    idx = recv_index(g)
    for n in g:
        if calls(n, H):
            r = paths(g).search([m for m in g if is_ext(m, "recv")], lambda m: m is n, stop=ends)
            ctx.ob("room", "%s ends what it received" % n.func.short, r is None, n.loc, "the header is parsed beyond what was received")
    for n in g:
        if not is_ext(n, "recv"):
            continue
        a = args(n)
        at = strip_cast(a[1])
        base = idx = None
        if at[0] == "u" and at[1] == "&" and strip_cast(at[2])[0] == "x":
            base, idx = strip_cast(at[2])[1], strip_cast(at[2])[2]
        elif at[0] == "b" and at[1] == "+":
            base, idx = at[2], at[3]
        what = "%s receives within its buffer" % n.func.short
        if base is None or strip_cast(idx)[0] != "v":
            ctx.ob("room", what, False, n.loc, "the place received to is not an offset into the buffer")
            continue
        i = {strip_cast(idx)[2]}
        d = terms(g, a[2], keep=i)
        left = d.pop(("v", strip_cast(idx)[2]), 0)
        lim = d
        c = lim.get((), 0)
        full = {k: v for k, v in lim.items() if k != ()}
        ok = left == -1 and len(full) == 1 and list(full.values()) == [1] and list(full)[0][0] == "c" and list(full)[0][1].endswith("get_network_buffer_size")
        ctx.ob("room", what, ok and c <= 0, n.loc, "the size received is not what is left of the buffer")
        if not ok:
            continue
        out.append(-c)
        test = below(g, i, lim)
        last = [g.entry] + [m for m in g if m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] in i]
        r = paths(g).search(last, lambda m: m is n, stop_edge=lambda s, l: test(l))
        ctx.ob("room", "%s receives only while there is room" % n.func.short, r is None, n.loc, "there may be no room left")
        for m in g:
            if m.k == "asg" and m.ev["lhs"][0] == "x":
                x = m.ev["lhs"]
                t = terms(g, x[2], keep=i)
                k = t.pop((), 0)
                if t != {("v", strip_cast(idx)[2]): 1}:
                    continue
                r = paths(g).search(last, lambda q: q is m, stop_edge=lambda s, l: test(l))
                ctx.ob("room", "%s marks byte %d behind" % (m.func.short, k), k < -c and r is None, m.loc,
                       "it is past the end of the buffer" if k >= -c else "the buffer may be full")
    return out


def behind(ctx, p, reserve, H):
    """marks that handlers put behind the content"""
    most = 0
    for f in p.funcs.values():
        if not any("HttpRequest" in t for t in ptypes(f)) and f.cls != "HttpRequest":
            continue
        if f.id in H:
            continue
        g = Graph(p, f)
        for n in g:
            if n.k == "asg" and n.ev["lhs"][0] == "x":
                t = terms(g, n.ev["lhs"][2])
                k = t.pop((), 0)
                if t == {("m", LENGTH): 1}:
                    most = max(most, k)
                    ctx.ob("room", "%s marks byte %d behind the content" % (f.short, k), k < reserve, n.loc, "only %d bytes are left behind the content" % reserve)
    for f in p.funcs.values():
        for ev in f.events():
            if ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "HttpRequest::uncompress":
                g = Graph(p, f)
                r = size_reserve(g, next(n for n in g if is_call(n, "HttpRequest::uncompress")).ev["e"][3][1])
                ctx.ob("room", "%s leaves room behind uncompressed content" % f.short, r is not None and r > most, f.loc(ev["l"]),
                       "handlers put marks behind the content")
                break


# ---- the header

FIELDS = {"Content-Length:": LENGTH, "Content-Encoding:": "HttpRequest::encoding", "Connection:": "HttpRequest::close", "X-Request-ID:": "HttpRequest::id"}


def prefix_tests(g):
    """(node, label, variable, literal, length compared) for each branch taken when a prefix matches"""
    for n in g:
        for s, l in n.succ:
            if not l or l[0] != "cond":
                continue
            for e, t in truths(l):
                e = strip_cast(e)
                c = None
                if e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) == 0 and (e[1] == "==") == t:
                    c = strip_cast(e[2])
                elif e[0] in ("c", "v") and not t:
                    c = e
                if c is not None and c[0] == "v":
                    d = common._defs(g).get(c[2], ())
                    c = strip_cast(d[0]) if len(d) == 1 else c
                if c is None or c[0] != "c" or short(c[1]) != "strncmp":
                    continue
                yield n, s, c


def lit_of(g, e):
    e = strip_cast(e)
    if e[0] == "s":
        return e[1]
    if e[0] == "v" and e[3] == "g":
        v = g.prog.globals.get(e[1])
        if v and v.get("init") and strip_cast(v["init"])[0] == "s":
            return strip_cast(v["init"])[1]
    if e[0] == "v":
        d = common._defs(g).get(e[2], ())
        if len(d) == 1:
            return lit_of(g, d[0])
    return None


def size_of_text(g, e, text):
    """value of a length expression if it is constant or the length of the text"""
    e = strip_cast(e)
    if const_of(e) is not None:
        return const_of(e)
    if e[0] == "c" and short(e[1]) == "strlen" and lit_of(g, e[3][0]) is not None:
        return len(lit_of(g, e[3][0]))
    if e[0] == "v":
        d = common._defs(g).get(e[2], ())
        if len(d) == 1:
            return size_of_text(g, d[0], text)
    if e[0] == "b" and e[1] in ("+", "-"):
        a, b = size_of_text(g, e[2], text), size_of_text(g, e[3], text)
        if a is not None and b is not None:
            return a + b if e[1] == "+" else a - b
    return None


def header(ctx, p, H):
    done = set()
    for fid in sorted(H):
        f = p.funcs[fid]
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: part_of(fn) and "char *" not in fn.ret)
        for n, s, c in prefix_tests(g):
            a = c[3]
            text = lit_of(g, a[1]) or lit_of(g, a[0])
            if text is None:
                continue
            k = size_of_text(g, a[2], text)
            ctx.ob("header", "%s compares all of '%s'" % (f.short, text), k == len(text), n.loc, "%s characters are compared" % k)
            if text not in FIELDS:
                continue
            done.add(text)
            var = strip_cast(a[0] if lit_of(g, a[1]) is not None else a[1])
            # moved past the name
            def moves(m):
                return m.k == "asg" and m.ev["lhs"][0] == "v" and var[0] == "v" and m.ev["lhs"][2] == var[2]
            seen, work, first = set(), [s], []
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                m = g.nodes[x]
                if moves(m):
                    first.append(m)
                    continue
                work += [y for y, l in m.succ if not (l and l[0] == "eh")]
            ok = False
            for m in first:
                r = strip_cast(m.ev["rhs"])
                if m.ev["op"] == "+=":
                    ok = size_of_text(g, r, text) == len(text)
                elif r[0] == "b" and r[1] == "+":
                    ok = size_of_text(g, r[3], text) == len(text)
                elif r[0] == "u" and r[1] == "&" and strip_cast(r[2])[0] == "x":
                    ok = size_of_text(g, strip_cast(r[2])[2], text) == len(text)
                elif r[0] in ("c", "ci"):
                    ok = any(size_of_text(g, x, text) == len(text) for x in (r[3] if r[0] == "c" else r[2]))
                if not ok:
                    break
            ctx.ob("header", "%s moves past '%s'" % (f.short, text), ok or not first, n.loc, "the value does not start there")
            sets = lambda m: writes_field(m, FIELDS[text])
            r = paths(g).search([g.nodes[s]], lambda m: m is g.exit, stop=sets)
            ctx.ob("header", "'%s' is taken over" % text, r is None, n.loc, "it is not stored")
            # and nothing else before the next line
            r = paths(g).search([g.nodes[s]], lambda m: m.k == "asg" and m.ev["lhs"][0] == "m" and m.ev["lhs"][2] in FIELDS.values() and m.ev["lhs"][2] != FIELDS[text],
                                stop=sets)
            ctx.ob("header", "'%s' sets only that" % text, r is None, n.loc, "another value is set")
    for x in FIELDS:
        if x not in done:
            ctx.ob("header", "'%s' is looked for" % x, False, p.funcs[sorted(H)[0]].loc() if H else "src/core/http.cpp:1", "it is not looked for")


def again(ctx, p, H):
    """the end of each part that was cut off in the buffer is put back"""
    undo = [f for f in p.funcs.values() if f.id not in H and f.cls in ("HttpServer", "HttpRequest") and f.short != "HttpRequest::init" and
            sum(1 for ev in f.events() if ev["k"] == "asg" and ev["lhs"][0] == "m" and ev["lhs"][2].startswith("HttpRequest::") and strip_cast(ev["rhs"])[0] == "n") > 1]
    cut = {}
    for fid in H:
        g = Graph(p, p.funcs[fid], inline=lambda fn, e, d: part_of(fn))
        for n in g:
            if n.k == "asg" and n.ev["lhs"][0] == "m" and n.ev["lhs"][2].startswith("HttpRequest::") and n.ev["lhs"][3].strip() == "char *" and strip_cast(n.ev["rhs"])[0] != "n":
                cut.setdefault(n.ev["lhs"][2], n)
    cut.pop("HttpRequest::content", None)
    if not undo:
        ctx.ob("again", "the header is put back", False, p.funcs[sorted(H)[0]].loc(), "nothing puts it back")
        return
    MARK = {"HttpRequest::method": " ", "HttpRequest::path": " ", "HttpRequest::params": "?", "HttpRequest::version": "\r", "HttpRequest::id": "\r"}
    for f in undo:
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: part_of(fn))
        puts = {}
        for n in g:
            if n.k == "asg" and n.ev["lhs"][0] in ("x", "u") and const_of(n.ev["rhs"]) is not None:
                fl = {s[2] for s in walk(n.ev["lhs"]) if s[0] == "m"}
                for s in walk(n.ev["lhs"]):
                    if s[0] == "v" and s[3] != "g":
                        for d in common._defs(g).get(s[2], ()):
                            fl |= {y[2] for y in walk(d) if y[0] == "m"}
                for x in fl:
                    if x in cut:
                        puts.setdefault(x, []).append(n)
        for x in sorted(cut):
            w = puts.get(x, [])
            ok = bool(w) and all(const_of(n.ev["rhs"]) == ord(MARK.get(x, " ")) for n in w)
            ctx.ob("again", "%s puts back the end of %s" % (f.short, x), ok, w[0].loc if w else f.loc(), "the character that was there is not put back")
            # only if it was cut off
            for n in w:
                r = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: any(field_set(e, t, x) for e, t in truths(l)))
                ctx.ob("again", "%s: %s was found" % (f.short, x), r is None, n.loc, "it may not have been found yet")
        # the path ends where the parameters start
        for n in puts.get("HttpRequest::path", []):
            for m in puts.get("HttpRequest::params", []):
                r = paths(g).search([n], lambda q: q is m)
                ctx.ob("again", "%s puts back the parameters first" % f.short, r is None, m.loc, "the end of the path would be looked for in front of them")
    # before parsing again
    for f in p.funcs.values():
        if f.cls != "HttpServer" or f.id in H:
            continue
        g = Graph(p, f)
        for n in g:
            if calls(n, H):
                done = lambda m: is_call(m, "HttpRequest::init") or calls(m, {u.id for u in undo})
                ctx.ob("again", "%s parses a header that is untouched" % f.short, preceded(g, n, done), n.loc, "a part parsed before may have been cut off")


def field_set(e, t, x):
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("==", "!=") and (strip_cast(e[3])[0] == "n" or const_of(e[3]) == 0):
        m = strip_cast(e[2])
        return m[0] == "m" and m[2] == x and (e[1] == "!=") == t
    return e[0] == "m" and e[2] == x and t


def fresh(ctx, p, R, S, H):
    for f in p.all("HttpRequest::init"):
        w = {ev["lhs"][2] for ev in f.events() if ev["k"] == "asg" and ev["lhs"][0] == "m"}
        for x in p.records["HttpRequest"]["fields"]:
            n = "HttpRequest::" + x["n"]
            ctx.ob("fresh", "%s is reset" % n, n in w, f.loc(), "it keeps the value of the request before")
    for f, g in R:
        for n in g:
            if is_call(n, "MemoryManager::alloc_network_buffer"):
                r = paths(g).search([n], lambda m: calls(m, S) or calls(m, H), stop=lambda m: is_call(m, "HttpRequest::init"))
                ctx.ob("fresh", "%s starts a request afresh" % n.func.short, r is None, n.loc, "the request before is still there at line %s" % (r[-1].line if r else ""))
        for n in g:
            if writes_field(n, "HttpResponse::id"):
                ok = from_field(g, n.ev["rhs"], "HttpRequest::id")
                ctx.ob("fresh", "%s answers under the id of the request" % n.func.short, ok, n.loc, "another id is used")
        for n in g:
            if calls(n, processors(p)):
                parsed = lambda m: writes_field(m, "HttpResponse::id") and strip_cast(m.ev["rhs"])[0] != "n"
                ctx.ob("fresh", "%s passes the id on" % n.func.short, preceded(g, n, parsed), n.loc, "the answer has the id of the request before")


# ---- handlers

def tables(p):
    """{function: (table, 'add' or 'get')}"""
    out = {}
    for f in p.funcs.values():
        if f.cls != "HttpServer":
            continue
        for ev in f.events():
            for k in ("e", "lhs", "rhs", "init"):
                x = ev.get(k)
                if not isinstance(x, tuple):
                    continue
                for s in walk(x):
                    if s[0] == "v" and s[3] == "g" and "HttpServer::m_" in s[1] and "map" in s[4] and "HttpRequestHandler" in s[4] or \
                            s[0] == "v" and s[3] == "g" and "HttpRequest &, HttpResponse &" in s[4] and "map" in s[4]:
                        out.setdefault(f.id, set()).add(s[1])
    return out


def route(ctx, p, P):
    T = tables(p)
    adders = {i for i in T if len(p.funcs[i].params) == 2}
    getters = {i for i in T if len(p.funcs[i].params) == 1}
    need_some(adders, "functions registering handlers")
    for i in sorted(adders | getters):
        f = p.funcs[i]
        ctx.analysed(f)
        verb = next((v for v in ("get", "post", "put") if "_%s_handler" % v in f.short), None)
        if verb is None:
            continue
        ctx.ob("route", "%s uses its own table" % f.short, all(verb in t for t in T[i]) and len(T[i]) == 1, f.loc(), "it uses %s" % ", ".join(sorted(T[i])))
    n = 0
    for f in p.funcs.values():
        if f.cls != "HttpServer":
            continue
        g = None
        for ev in f.events():
            if ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][1] in adders:
                g = g or Graph(p, f)
                a = ev["e"][3]
                path = lit_of(g, a[0])
                fn = next((s[1] for s in walk(a[1]) if s[0] == "fn"), None)
                if path is None or fn is None:
                    continue
                n += 1
                name = short(fn).split("::")[-1]
                verb = "post" if any("post" in t for t in T[ev["e"][1]]) else "put" if any("put" in t for t in T[ev["e"][1]]) else "get"
                want = path.strip("/").replace("/", "_")
                m = re.search(r"(?:_(get|post|put))?_(api.*?)_handler", name)
                ok = not m or m.group(2) == want and m.group(1) in (None, verb)
                ctx.ob("route", "%s %s" % (verb.upper(), path), ok, f.loc(ev["l"]), "%s is registered for it" % short(fn))
    need_some([1] * n, "registered handlers")
    for i in sorted(P):
        f = p.funcs[i]
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: part_of(fn) and fn.id not in getters)
        for n in g:
            for s, l in n.succ:
                if not l or l[0] != "cond":
                    continue
                for e, t in truths(l):
                    e = strip_cast(e)
                    if not (e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) == 0 and (e[1] == "==") == t):
                        continue
                    c = strip_cast(e[2])
                    if c[0] == "v":
                        d = common._defs(g).get(c[2], ())
                        c = strip_cast(d[0]) if len(d) == 1 else c
                    if c[0] != "c" or short(c[1]) != "strcmp" or not any(mentions_field(x, "HttpRequest::method") for x in c[3]):
                        continue
                    text = next((lit_of(g, x) for x in c[3] if lit_of(g, x)), None)
                    if text is None:
                        continue
                    look = lambda m: m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1] in getters
                    # the first table looked at on this branch
                    r = paths(g).search([g.nodes[s]], look)
                    tab = sorted(T[r[-1].ev["e"][1]]) if r else []
                    ctx.ob("route", "%s: %s" % (f.short, text), bool(tab) and all(text.lower() in x for x in tab), n.loc, "handlers are looked for in %s" % (", ".join(tab) or "no table"))
                    if r:
                        m = r[-1]
                        ctx.ob("route", "%s: handler for the path of a %s" % (f.short, text), mentions_field(m.ev["e"][3][0], "HttpRequest::path"), m.loc, "another text is looked for")


def init_call(n, least=1):
    return n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) == "HttpResponse::init" and len(n.ev["e"][3]) >= least


def answer(ctx, p, P):
    fs = [f for f in p.funcs.values() if f.ret == "bool" and any(t.startswith("HttpResponse &") for t in ptypes(f))]
    ids = {f.id for f in fs}
    ok = lambda n: init_call(n) or calls(n, ids) or n.k == "call" and handler_call(n.ev["e"])
    for f in sorted(fs, key=lambda f: f.short):
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: fn.id not in ids and any("HttpResponse" in t for t in ptypes(fn)) and fn.cls != "HttpResponse")
        gone = lambda s, l: any(null_test(e, t) and mentions_field(e, "HttpRequest::method", "HttpRequest::path") for e, t in truths(l))
        r = paths(g).search([g.entry], lambda m: m is g.exit, stop=ok, stop_edge=gone, eh=True)
        ctx.ob("answer", f.short, r is None, r[-2].loc if r and len(r) > 1 else f.loc(), "it returns without an answer")


def failed(ctx, p, P):
    bad = lambda g: lambda n: init_call(n) and all((const_of(o) or 0) >= 400 for o in origins(g, n.ev["e"][3][0]))
    for i in sorted(P):
        f = p.funcs[i]
        g = Graph(p, f)
        for n in g:
            if n.k == "call" and handler_call(n.ev["e"]):
                st = [g.nodes[s] for s, l in n.succ if l and l[0] == "eh"]
                ctx.ob("failed", "%s catches what a handler throws" % f.short, bool(st), n.loc, "an exception ends the thread")
                if st:
                    ends = {m.id for m in g if not m.succ}
                    r = paths(g).search(st, lambda m: m.id in ends, stop=bad(g), eh=False)
                    ctx.ob("failed", "%s answers when a handler throws" % f.short, r is None, n.loc, "no error is sent")
        # no handler
        for n in g:
            for s, l in n.succ:
                if l and l[0] == "cond" and any(null_test(e, t) and any(x[0] == "v" and "HttpRequest &, HttpResponse &" in x[4] for x in walk(e)) for e, t in truths(l)):
                    r = paths(g).search([g.nodes[s]], lambda m: m is g.exit, stop=lambda m: init_call(m) and const_of(m.ev["e"][3][0]) == 404)
                    ctx.ob("failed", "%s without a handler" % f.short, r is None, n.loc, "404 is not sent")


# ---- responses

def reasons(p):
    out = {}
    for f in p.funcs.values():
        if f.cls != "HttpResponse" or "char *" not in f.ret:
            continue
        g = Graph(p, f)
        for n in g:
            for s, l in n.succ:
                if not l or l[0] not in ("case", "cond"):
                    continue
                if l[0] == "case":
                    vals = [const_of(v) for v in l[2]]
                else:
                    vals = [const_of(strip_cast(e)[3]) for e, t in truths(l) if strip_cast(e)[0] == "b" and strip_cast(e)[1] == "==" and t]
                r = paths(g).search([g.nodes[s]], lambda m: m.k in ("asg", "ret") and strip_cast(m.ev.get("rhs") or m.ev.get("e") or ("n",))[0] in ("s", "n"))
                if r:
                    x = strip_cast(r[-1].ev.get("rhs") or r[-1].ev.get("e"))
                    for v in vals:
                        if v is not None and x[0] == "s":
                            out[v] = x[1]
    return out


def status(ctx, p, S):
    known = reasons(p)
    need_some(known, "reasons for a status")
    used = {}
    for f in p.funcs.values():
        g = None
        for ev in f.events():
            if ev["k"] != "call" or ev["e"][0] != "c":
                continue
            e = ev["e"]
            a = None
            if short(e[1]) == "HttpResponse::init" and e[3]:
                a = e[3][0]
            elif e[1] in S and len(e[3]) > 1:
                a = e[3][1]
            if a is None:
                continue
            g = g or Graph(p, f)
            a = next((n.ev["e"][3][0 if short(e[1]) == "HttpResponse::init" else 1] for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] == e[1] and n.line == ev["l"]), a)
            for o in origins(g, a):
                c = const_of(o)
                if c is not None:
                    used.setdefault(c, f.loc(ev["l"]))
    for c in sorted(used):
        ctx.ob("status", "status %d" % c, c in known, used[c], "there is no reason for it")
    # the longest must fit in front of the body
    hdr = max((len(t) for t in known.values()), default=0)
    ctx.ob("status", "reasons fit in the header", hdr <= 32, None, "a reason of %d characters" % hdr)


def measured(g, ln, body):
    """is the length that of the body?"""
    ln, body = strip_cast(ln), strip_cast(body)
    if const_of(ln) == 0 and body[0] == "n":
        return True
    text = lit_of(g, body)
    if text is not None and size_of_text(g, ln, text) is not None:
        return size_of_text(g, ln, text) == len(text)
    roots = {s[2] for s in walk(body) if s[0] == "v" and s[3] != "g"} | {("g", s[1]) for s in walk(body) if s[0] == "v" and s[3] == "g"}
    def about(e):
        for s in walk(e):
            if s[0] == "v" and (s[2] in roots or ("g", s[1]) in roots):
                return True
        return False
    def one(e, seen):
        e = strip_cast(e)
        if e[0] == "c":
            sn = short(e[1])
            if sn == "strlen":
                return about(e[3][0])
            if sn.endswith(("::size", "::length")):
                return e[2] is not None and about(e[2])
            return any(about(a) for a in e[3])
        if e[0] == "v" and e[3] != "g":
            if e[2] in seen:
                return True
            ds = common._defs(g).get(e[2], ())
            return bool(ds) and all(one(d, seen | {e[2]}) for d in ds)
        if e[0] == "b" and e[1] == "+":
            # adding up pieces
            return one(e[2], seen) and one(e[3], seen)
        return False
    return one(ln, frozenset())


def length(ctx, p):
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls == "HttpResponse" or not any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "HttpResponse::init" and len(ev["e"][3]) >= 3 for ev in f.events()):
            continue
        g = Graph(p, f)
        k = 0
        for n in sorted((n for n in g if init_call(n, 3)), key=lambda n: n.line):
            a = n.ev["e"][3]
            k += 1
            if len(a) == 4:
                ok = measured(g, a[2], a[3])
            else:
                ok = written(g, a[2])
            ctx.ob("length", "%s, answer %d" % (f.short, k), ok, n.loc, "the length is not that of the body")


def written(g, ln):
    """counts what was written to the buffer of the response"""
    bufs = set()
    for n in g:
        if n.k in ("decl", "asg"):
            r = n.ev.get("init") if n.k == "decl" else n.ev["rhs"]
            if r is not None and mentions_call(r, "HttpResponse::get_buffer"):
                bufs.add(n.ev["id"] if n.k == "decl" else n.ev["lhs"][2] if n.ev["lhs"][0] == "v" else None)
    about = lambda e: any(s[0] == "v" and s[2] in bufs for s in walk(e))
    ln = strip_cast(ln)
    if ln[0] == "c":
        return any(about(a) for a in ln[3])
    if ln[0] != "v":
        return False
    cnt = False
    for n in g:
        if n.k == "decl" and n.ev["id"] == ln[2] and n.ev["init"] is not None or n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["lhs"][2] == ln[2]:
            r = strip_cast(n.ev["init"] if n.k == "decl" else n.ev["rhs"])
            if const_of(r) is not None:
                continue
            if not any(s[0] == "c" and any(about(a) for a in s[3]) for s in walk(r)) and not any(s[0] == "v" and s[2] == ln[2] for s in walk(r)):
                return False
            cnt = True
    return cnt


CONV = re.compile(r"%[-+ #0]*(\d*)(?:\.\d+)?(?:hh|h|ll|l|z)?([a-zA-Z%])")


def pieces(g, fmt, av):
    """format and arguments as a list of text and ('arg', conversion, width, expression)"""
    out, pos, k = [], 0, 0
    for m in CONV.finditer(fmt):
        if m.start() > pos:
            out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(2) == "%":
            out.append("%")
            continue
        if k >= len(av):
            return None
        e = av[k]
        k += 1
        t = lit_of(g, e)
        if m.group(2) == "s" and t is not None:
            out.append(t)
        else:
            out.append(("arg", m.group(2), int(m.group(1) or 0), e))
    if pos < len(fmt):
        out.append(fmt[pos:])
    if k != len(av):
        return None
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        else:
            r.append(x)
    return r


def frame(ctx, p):
    for f in sorted(p.all("HttpResponse::init"), key=lambda f: len(f.params)):
        if not f.params:
            continue
        ctx.analysed(f)
        g = Graph(p, f, inline=lambda fn, e, d: fn.cls == "HttpResponse" and fn.short not in ("HttpResponse::get_buffer", "HttpResponse::recycle", "HttpResponse::init") and "reason" not in fn.short)
        k = 0
        for n in sorted((n for n in g if is_ext(n, "sprintf", "snprintf")), key=lambda n: n.line):
            a = args(n)
            at = 2 if is_ext(n, "snprintf") else 1
            fmt = lit_of(g, a[at])
            if fmt is None:
                continue
            k += 1
            what = "%s, %d parameters, form %d" % (f.short, len(f.params), k)
            ps = pieces(g, fmt, a[at + 1:])
            if ps is None:
                ctx.ob("frame", what, False, n.loc, "format and values do not go together")
                continue
            text = "".join(x if isinstance(x, str) else "\0" for x in ps)
            ex = [x for x in ps if not isinstance(x, str)]
            head, sep, body = text.partition("\r\n\r\n")
            ok = sep != "" and head.startswith("HTTP/1.1 \0 \0\r\n")
            ctx.ob("frame", what + " ends its header", ok, n.loc, "there is no status line and empty line")
            if not ok:
                continue
            lines = head.split("\r\n")
            which = {}
            i = lines[0].count("\0")
            for ln in lines[1:]:
                nm = ln.split(":")[0]
                c = ln.count("\0")
                which[nm] = (ln, ex[i:i + c])
                i += c
            nbody = body.count("\0")
            cl = which.get("Content-Length")
            lp = next((x for x in f.params if x["n"] == "length"), None) or (f.params[2] if len(f.params) > 2 else None)
            if cl is None:
                ctx.ob("frame", what + " has the length", False, n.loc, "the length is missing")
            elif len(f.params) == 2:
                ctx.ob("frame", what + " has the length", cl[0] == "Content-Length: 0" and body == "", n.loc, "the length is not 0")
            else:
                want = {("v", (0, lp["id"])): 1}
                got = [terms(g, x[3]) for x in cl[1]]
                ok = cl[0] == "Content-Length: \0" and (got[0] == want or got[0] == {("m", "HttpResponse::content_length"): 1} and
                                                       all(terms(g, m.ev["rhs"]) == want for m in g if writes_field(m, "HttpResponse::content_length")))
                ctx.ob("frame", what + " has the length", ok, n.loc, "it is not the length given")
            null = [t for e, t in conds_before(g, n, "HttpResponse::id")]
            has = "X-Request-ID" in which
            if null:
                ctx.ob("frame", what + " has the id if there is one", has != null[0] and (not has or mentions_field(which["X-Request-ID"][1][0][3], "HttpResponse::id")), n.loc,
                       "the id is missing, or is not there")
            if len(f.params) == 4:
                ctx.ob("frame", what + " has the body", nbody == 1 and len(body) == 1, n.loc, "the body does not follow the header")
            if len(f.params) == 3:
                prepend(ctx, g, f, n, ps, what, bool(null and null[0]))
        if len(f.params) == 3:
            lp = f.params[2]
            w = [m for m in g if writes_field(m, "HttpResponse::response_size")]
            add = lambda m: writes_field(m, "HttpResponse::response_size") and (m.ev["op"] == "+=" and terms(g, m.ev["rhs"]) == {("v", (0, lp["id"])): 1} or
                                                                               m.ev["op"] == "=" and terms(g, m.ev["rhs"]).get(("v", (0, lp["id"]))) == 1)
            r = paths(g).search([g.entry], lambda m: m is g.exit, stop=add)
            ctx.ob("frame", "%s counts header and body" % f.short, r is None and bool(w), f.loc(), "the body is not counted in what is sent")
            for m in g:
                if is_ext(m, "snprintf", "sprintf"):
                    back = lambda q: q.k == "asg" and q.ev["lhs"][0] in ("u", "x") and any(s[0] == "v" and "body" in common_names(g, s) for s in walk(q.ev["lhs"])) and const_of(q.ev["rhs"]) is None
                    r = escapes(g, m, back)
                    ctx.ob("frame", "%s puts back the first character of the body" % f.short, r is None, m.loc, "it was overwritten by the end of the header")


def common_names(g, v):
    """a variable holding the place of the body"""
    ds = common._defs(g).get(v[2], ())
    return {"body"} if any(mentions_call(d, "HttpResponse::get_buffer") for d in ds) else set()


def conds_before(g, n, field):
    """what the branches leading to n say about a field being null: [(e, null)]"""
    from p30 import said
    out = []
    for m in g:
        for s, l in m.succ:
            for e, t in said(g, l) if l and l[0] == "cond" else ():
                if mentions_field(e, field) and strip_cast(e)[0] in ("b", "m"):
                    if paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda a, b: a is m and b == l) is None:
                        out.append((e, null_test(e, t)))
    return out


def prepend(ctx, g, f, n, ps, what, noid):
    """the header starts exactly its own length before the body"""
    w = [m for m in g if writes_field(m, "HttpResponse::response")]
    fixed = sum(len(x) for x in ps if isinstance(x, str))
    lens = {}
    for x in ps:
        if isinstance(x, str):
            continue
        if x[1] == "d" and x[2]:
            fixed += x[2]
        elif x[1] == "d":
            lens[("digits",)] = lens.get(("digits",), 0) + 1
        else:
            k = ("len", tkey(g, x[3]))
            lens[k] = lens.get(k, 0) + 1
    for m in w:
        d = back(g, m.ev["rhs"], noid)
        c = d.pop((), 0)
        b = [k for k, v in d.items() if v == 1 and k[0] == "body"]
        for k in b:
            d.pop(k)
        got = {k: -v for k, v in d.items()}
        ctx.ob("frame", what + " starts its own length before the body", len(b) == 1 and -c == fixed and got == lens, m.loc,
               "%d characters of fixed text, %d are left for them" % (fixed, -c) if -c != fixed else "a part of it is not counted")


def back(g, e, noid, sign=1, depth=0):
    e = strip_cast(e)
    if const_of(e) is not None:
        return {(): sign * const_of(e)}
    if e[0] == "b" and e[1] in ("+", "-"):
        return merge(back(g, e[2], noid, sign, depth), back(g, e[3], noid, sign if e[1] == "+" else -sign, depth))
    if e[0] == "?":
        t = strip_cast(e[1])
        isnull = null_test(t, True)
        return back(g, e[2] if isnull == noid else e[3], noid, sign, depth)
    if e[0] == "c":
        sn = short(e[1])
        if sn == "strlen":
            return {("len", tkey(g, e[3][0])): sign}
        if sn.endswith(("::size", "::length")) and mentions_call(e[2], "std::to_string", "to_string", "std::__cxx11::to_string"):
            return {("digits",): sign}
        if sn == "HttpResponse::get_buffer":
            return {("body",): sign}
    if e[0] == "v" and e[3] != "g":
        ds = common._defs(g).get(e[2], ())
        if len(ds) == 1 and depth < 8:
            return back(g, ds[0], noid, sign, depth + 1)
        if len(ds) == 2 and depth < 8:
            # one for each branch on the id
            other = None
            for m in g:
                r = m.ev.get("init") if m.k == "decl" and m.ev["id"] == e[2] else m.ev.get("rhs") if m.k == "asg" and m.ev["lhs"] == e else None
                if r is not None:
                    cs = conds_before(g, m, "HttpResponse::id")
                    if cs and cs[0][1] == noid:
                        return back(g, r, noid, sign, depth + 1)
                    if not cs:
                        other = r
            if other is not None:
                return back(g, other, noid, sign, depth + 1)
    return {("?", repr(e)): sign}


def sent(ctx, p, S):
    for i in sorted(S):
        f = p.funcs[i]
        g = Graph(p, f, inline=lambda fn, e, d: part_of(fn) and fn.id not in S)
        for n in g:
            if not is_ext(n, "send"):
                continue
            ctx.analysed(f)
            a = args(n)
            keep = {x["lhs"][2] for x in (m.ev for m in g if m.k == "asg") if x["lhs"][0] == "v" and x["op"] == "+="}
            at, size = terms(g, a[1], keep=keep), terms(g, a[2], keep=keep)
            pos = [k for k in at if k and k[0] in ("v", "m") and k != ("m", "HttpResponse::response")]
            ok = at.get(("m", "HttpResponse::response")) == 1 and len(pos) == 1 and len(at) == 2 and size == {("m", "HttpResponse::response_size"): 1, pos[0]: -1}
            ctx.ob("sent", "%s sends what is left" % f.short, ok, n.loc, "another part of the response is sent")
            if ok and pos[0][0] == "v":
                adv = lambda m: m.k == "asg" and m.ev["op"] == "+=" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == pos[0][1]
                r = self_loop(g, n, adv, skip=lambda s, l: any(neg_result(e, t) for e, t in truths(l)))
                ctx.ob("sent", "%s goes on behind what was sent" % f.short, r is None, n.loc, "the same bytes are sent again")
                full = lambda e, t: strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("<", ">=", "<=", ">") and \
                    mentions_field(e, "HttpResponse::response_size") and any(s[0] == "v" and s[2] == pos[0][1] for s in walk(e))
                for m in g:
                    if m.k == "ret" and m.frame == 0 and const_of(m.ev.get("e") or ("n",)) == 1:
                        r = paths(g).search([g.entry], lambda q: q is m, stop_edge=lambda s, l: any(full(e, t) and done_edge(e, t, pos[0][1]) for e, t in truths(l)))
                        ctx.ob("sent", "%s reports what it sent" % f.short, r is None, m.loc, "the response may not have been sent")


def done_edge(e, t, v):
    """position >= size"""
    e = strip_cast(e)
    op = e[1] if t else {"<": ">=", ">=": "<", "<=": ">", ">": "<="}[e[1]]
    left = any(s[0] == "v" and s[2] == v for s in walk(e[2]))
    return op == (">=" if left else "<=")


def neg_result(e, t):
    """a result below 0 or of 0"""
    e = strip_cast(e)
    if e[0] != "b" or const_of(e[3]) != 0:
        return False
    return (e[1], t) in (("<", True), (">=", False), ("==", True), ("<=", True), (">", False))


def marks(m):
    """the connection is marked to be closed"""
    return m.k == "call" and m.ev["e"][0] == "c" and "operator|=" in m.ev["e"][1] and m.ev["e"][2] is not None and mentions_field(m.ev["e"][2], "TcpConnection::state") \
        and bool((const_of(m.ev["e"][3][0]) or 0) & ERROR)


def close(ctx, p, g, S, P):
    always = set()
    for i in S:
        h = Graph(p, p.funcs[i], inline=lambda fn, e, d: part_of(fn))
        if paths(h).search([h.entry], lambda m: m is h.exit, stop=marks) is None:
            always.add(i)
    for n in g:
        if calls(n, S) and code(g, n) in (411, 413):
            ctx.ob("close", "%s ends the connection after %d" % (n.func.short, code(g, n)), n.ev["e"][1] in always or escapes(g, n, marks) is None, n.loc,
                   "the rest of the request would be taken for the next one")
        if calls(n, P):
            r = paths(g).search([n], lambda m: m is g.exit, stop=marks, stop_edge=lambda s, l: any(went_well(g, e, t, n) for e, t in truths(l)))
            ctx.ob("close", "%s ends the connection after a failure" % n.func.short, r is None, n.loc, "the connection is kept")


def result_of(g, e, n):
    e = strip_cast(e)
    if e[0] == "c":
        return e[-1] == n.ev["e"][-1]
    if e[0] == "v":
        return any(strip_cast(d)[0] == "c" and strip_cast(d)[-1] == n.ev["e"][-1] for d in common._defs(g).get(e[2], ()))
    return False


def went_well(g, e, t, n):
    """(e, t) says that the call at n returned true"""
    e = strip_cast(e)
    if result_of(g, e, n):
        return t
    if e[0] != "v":
        return False
    def either(d, op):
        d = strip_cast(d)
        return either(d[2], op) + either(d[3], op) if d[0] == "b" and d[1] == op else [d]
    for d in common._defs(g).get(e[2], ()):
        if not t and any(x[0] == "u" and x[1] == "!" and result_of(g, x[2], n) for x in either(d, "||")):
            return True
        if t and any(result_of(g, x, n) for x in either(d, "&&")):
            return True
    return False
