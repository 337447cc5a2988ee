"""Connections: kept while there is work on them, closed when there is none, and no data left waiting."""
from common import *
import common
from along import *
from p18 import after, implies, holds_if
from p22 import local, nm, V, behind

ASSUMPTIONS = [
    "only the listener's own thread adds to the work of its connections, and takes them out of its table",
    "a socket is not reported ready again until all of it was read (edge triggered)",
]

PEND, STATE, WORKER = "TcpConnection::pending_tasks", "TcpConnection::state", "TcpConnection::worker_id"
OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def check(ctx):
    p = ctx.prog
    ctx.rule("count", "work handed out is counted before, and goes where earlier work of the connection went", 4)
    ctx.rule("pass", "an event is passed over only when work that will see its data is still waiting", 1)
    ctx.rule("done", "each piece of work is counted off once, and the connection not touched after that", 6)
    ctx.rule("close", "the last piece of work closes a connection that is to be closed", 3)
    ctx.rule("free", "a connection is given back only with no work left, and in no table", 3)
    ctx.rule("fd", "a socket is closed only with no work left on it, and not watched any more", 2)
    ctx.rule("flags", "a connection's flags say what was done to it", 4)
    ctx.rule("pipe", "what is asked for through a listener's pipe is what is done", 6)
    ctx.rule("null", "a connection looked up is used only when there is one", 2)
    ctx.rule("read", "all that arrived is read, or more work is asked for", 3)
    fs = [f for f in p.funcs.values() if f.file.startswith(("src/core/tcp", "src/core/http", "include/tcp", "include/http"))]
    tasks = task_funcs(p, fs)
    bits = closed_bit(p, tasks)
    submitted(ctx, p, fs)
    passed(ctx, p, fs)
    done(ctx, p, tasks, bits)
    freed(ctx, p, fs)
    sockets(ctx, p, fs, bits)
    flags(ctx, p, fs, bits)
    pipes(ctx, p, fs, tasks)
    looked_up(ctx, p, fs)
    read_all(ctx, p, tasks)


# ---- helpers

def is_conn(t):
    t = t.replace("const ", "").strip()
    return t in ("TcpConnection *", "HttpConnection *")


def on(e, field, *ops):
    """an operation on an atomic field"""
    e = strip_cast(e)
    return e[0] == "c" and e[2] is not None and strip_cast(e[2])[0] == "m" and strip_cast(e[2])[2] == field and (not ops or nm(e) in ops)


def ups(n):
    return n.k == "call" and (on(n.ev["e"], PEND, "operator++", "fetch_add") or on(n.ev["e"], PEND, "operator+="))


def downs(n):
    return n.k == "call" and (on(n.ev["e"], PEND, "operator--", "fetch_sub") or on(n.ev["e"], PEND, "operator-="))


def reads_count(e):
    e = strip_cast(e)
    return e[0] == "m" and e[2] == PEND or on(e, PEND) and not nm(e) in ("store", "operator=")


def offset(e):
    """what has to be added to a changing operation's value to get the count after it"""
    n = nm(e)
    post = bool(strip_cast(e)[3])
    if n == "operator++":
        return 1 if post else 0
    if n == "operator--":
        return -1 if post else 0
    if n == "fetch_add":
        return 1
    if n == "fetch_sub":
        return -1
    return 0


def counted(g, e, load=0, depth=4):
    """offset to the count when the expression stands for it, else None"""
    e = strip_cast(e)
    if e[0] == "v" and e[3] != "g" and depth:
        ds = common._defs(g).get(e[2], ())
        return counted(g, ds[0], load, depth - 1) if len(ds) == 1 else None
    if e[0] == "b" and e[1] in ("+", "-") and const_of(e[3]) is not None:
        o = counted(g, e[2], load, depth)
        return None if o is None else o - const_of(e[3]) if e[1] == "+" else o + const_of(e[3])
    if not reads_count(e):
        return None
    if e[0] == "m" or nm(e) not in ("operator++", "operator--", "fetch_add", "fetch_sub", "operator+=", "operator-="):
        return load(e) if callable(load) else load
    return offset(e)


def excludes(g, l, values, load=0):
    """does the branch rule out all of these counts?"""
    def test(e, t):
        o, op, k = None, None, None
        if e[0] == "b" and e[1] in OPS:
            a, b, op = e[2], e[3], e[1]
            if const_of(b) is None and const_of(a) is not None:
                a, b, op = b, a, flip(op)
            k = const_of(b)
            if k is None:
                return False
            o = counted(g, a, load)
        else:
            o, op, k = counted(g, e, load), "!=", 0
        if o is None:
            return False
        return all(OPS[op](v - o, k) != t for v in values)
    return implies(g, l, test)


def defs_at(g, n, v):
    """what a local variable may hold at n"""
    memo = g.__dict__.setdefault("_defs_at", {})
    if (n.id, v) not in memo:
        sets = lambda m: m.k == "decl" and m.ev["id"] == v or m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "v" and strip_cast(m.ev["lhs"])[2] == v
        D = [m for m in g if sets(m)]
        memo[(n.id, v)] = [m.ev.get("init") if m.k == "decl" else m.ev["rhs"] for m in ([n] if sets(n) else D) if m is n or paths(g).search(after(g, m), lambda x: x is n, stop=lambda x: x is not n and sets(x)) is not None]
    return memo[(n.id, v)]


def rules_out(g, s, l, values, load=0):
    """like excludes, with the definitions that reach the branch"""
    if excludes(g, l, values, load):
        return True
    for e, t in truths(l):
        e = strip_cast(e)
        if e[0] == "v" and e[3] == "l":
            ds = defs_at(g, s, e[2])
            rest = [d for d in ds if d is None or const_of(d) is None or bool(const_of(d)) == t]
            if rest and all(d is not None and const_of(d) is None and excludes(g, ("cond", d, t), values, load) for d in rest):
                return True
    return False


def no_conn(e, t):
    """says that there is no connection"""
    return null_test(e, t) and any(x[0] == "v" and len(x) > 4 and is_conn(x[4]) for x in ([e] if e[0] != "b" else e[2:4]) for x in [strip_cast(x)])


def shutdown_edge(g, l):
    return implies(g, l, lambda e, t: t and (shutdown_flag(e) or e[0] == "c" and nm(e) == "is_shutdown_requested"))


def task_funcs(p, fs):
    """functions that are put in a task and take a connection from it"""
    out = set()
    for f in p.funcs.values():
        for ev in f.events():
            if ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m" and strip_cast(ev["lhs"])[2] == "Task::doit":
                for s in walk(ev["rhs"]):
                    if s[0] == "fn" and s[1] in p.funcs:
                        out.add(s[1])
    res = []
    for i in sorted(out):
        f = p.funcs[i]
        if any(is_conn(s[1]) for ev in f.events() for k in ("init", "rhs", "e") if isinstance(ev.get(k), tuple) for s in walk(ev[k]) if s[0] == "cast"):
            res.append(f)
    return res


def whole(p, f):
    """a task with what it calls about its connection written out"""
    ce, cr = p.callgraph()
    marks = {x.id for x in p.funcs.values() if any(ev["k"] == "call" and on(ev["e"], PEND) for ev in x.events())}
    up = callers_up(p, marks)
    return Graph(p, f, lambda x, e, d: x.id in up and not x.virt and x.cls in (f.cls, "HttpServer", "TcpServer", "TcpConnection", "HttpConnection") or not x.cls and x.file == f.file, maxdepth=4)


def closed_bit(p, tasks):
    """the flag that makes the last piece of work close the connection"""
    bits = set()
    for f in tasks:
        g = whole(p, f)
        for n in g:
            for s, l in n.succ:
                for e, t in truths(l):
                    for x in walk(e):
                        if x[0] == "b" and x[1] == "&" and const_of(x[3]) and any(on(y, STATE) for y in walk(x[2])):
                            if paths(g).search([g.nodes[s]], lambda m: m.k == "call" and nm(m.ev["e"]) == "close" and m.ev["e"][0] == "c" and m.ev["e"][2] is not None, stop=lambda m: downs(m)) is not None and preceded(g, n, downs):
                                bits.add(const_of(x[3]))
        for ev in f.events():
            pass
    return bits


def sets_bits(n):
    """(bits set, bits cleared) of a connection's state"""
    if n.k != "call":
        return 0, 0
    e = n.ev["e"]
    if on(e, STATE, "operator|=", "fetch_or"):
        k = const_of(e[3][0])
        return (k or 0), 0
    if on(e, STATE, "operator&=", "fetch_and"):
        k = const_of(e[3][0])
        return 0, (~k & 0xffffffff if k is not None else 0)
    if on(e, STATE, "operator=", "store") and e[3]:
        v = e[3][0]
        s = c = 0
        for x in walk(v):
            if x[0] == "b" and x[1] in ("|", "&") and const_of(x[3]) is not None:
                if x[1] == "|":
                    s |= const_of(x[3])
                else:
                    c |= ~const_of(x[3]) & 0xffffffff
        return s, c
    return 0, 0


def tests_bit(e, bit):
    return any(x[0] == "b" and x[1] == "&" and const_of(x[3]) is not None and const_of(x[3]) & bit and any(on(y, STATE) for y in walk(x[2])) for x in walk(e))


def bit_known(g, l, bit, value):
    """does the branch say that the bit is set (or not)?"""
    def test(e, t):
        if e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) is not None and tests_bit(e[2], bit):
            is_set = (const_of(e[3]) != 0) == (e[1] == "==")
            return (is_set == t) == value
        if e[0] in ("b", "c", "v") and e[0] == "b" and e[1] == "&" and tests_bit(e, bit):
            return t == value
        return False
    return implies(g, l, test)


# ---- count

def submitted(ctx, p, fs):
    cnt = 0
    for f in fs:
        if not any(ev["k"] == "call" and ev["e"][0] == "c" and nm(ev["e"]) == "submit_task" for ev in f.events()):
            continue
        ctx.analysed(f)

        def test(g):
            return [b for n in V(g, "submit_task") for b in wrong(g, n)]

        bad = in_context(p, f, test)
        g = Graph(p, f)
        for n in V(g, "submit_task"):
            cnt += 1
            ctx.ob("count", "%s hands out work" % f.short, not bad, n.loc, "; ".join(sorted(set(bad))) or None)
        ids = [strip_cast(n.ev["e"][3][1]) for n in V(g, "submit_task") if len(n.ev["e"][3]) > 1]
        ctx.ob("count", "%s knows the worker of a connection" % f.short, any(mentions_field(x, WORKER) or any(mentions_field(d, WORKER) for d in common._defs(g).get(x[2], ())) if x[0] == "v" else mentions_field(x, WORKER) for x in ids), f.loc(), "work of a connection is not handed to the worker that has its earlier work")
    ctx.ob("count", "work is handed out", cnt > 0, None, "no work is handed out for connections")


def wrong(g, n):
    out = []
    before = lambda m: ups(m)
    if paths(g).search([g.entry], lambda m: m is n, stop=before) is not None:
        out.append("work is handed out that was not counted")
    inc = [m for m in g if ups(m)]
    if any(paths(g).search(after(g, m), lambda x: x is k, stop=lambda x: x is n or x.k == "call" and x.ev["e"][0] == "c" and nm(x.ev["e"]) in ("get_conn", "submit_task", "epoll_wait")) is not None and paths(g).search(after(g, k), lambda x: x is n, stop=lambda x: x.k == "call" and x.ev["e"][0] == "c" and nm(x.ev["e"]) in ("get_conn", "epoll_wait")) is not None for m in inc for k in inc):
        out.append("one piece of work is counted twice")
    for m in inc:
        e = m.ev["e"]
        if e[3] and nm(e) in ("operator+=", "fetch_add") and const_of(e[3][0]) not in (None, 1):
            out.append("one piece of work is counted as several")

    def load(e):
        # read before or after it was counted?
        e = strip_cast(e)
        cid = e[5] if e[0] == "c" else None
        at = [m for m in g if m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][5] == cid] if cid is not None else []
        if at and not preceded(g, at[0], ups):
            return 1
        return 0

    a = n.ev["e"][3]
    free = len(a) < 2 or const_of(a[1]) is not None and const_of(a[1]) < 0
    ids = [a[1]] if len(a) > 1 else []
    if len(a) > 1:
        x = behind(g, a[1])
        if x[0] == "?":
            # the worker chosen by the count
            free = False
            if not (mentions_field(x[2], WORKER) or mentions_field(x[3], WORKER)):
                out.append("later work of a connection goes to another worker")
            else:
                t = not mentions_field(x[2], WORKER)
                lab = ("cond", x[1], t)
                if not excludes(g, lab, (2, 3), load):
                    out.append("later work of a connection may go to another worker")
            keeps(g, n, out)
            return out
        if x[0] == "v" and not free:
            ds = common._defs(g).get(x[2], ())
            if any(const_of(d) is not None and const_of(d) < 0 for d in ds):
                free = None
    if free:
        # only the first piece of work may go anywhere
        if paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: excludes(g, l, (2, 3), load)) is not None:
            out.append("later work of a connection may go to another worker")
        keeps(g, n, out)
    elif free is None:
        ds = [d for d in common._defs(g).get(behind(g, a[1])[2], ())]
        if not any(mentions_field(d, WORKER) for d in ds):
            out.append("later work of a connection goes to another worker")
        keeps(g, n, out)
    else:
        if not any(mentions_field(y, WORKER) for y in [a[1], behind(g, a[1])]):
            out.append("later work of a connection goes to another worker")
        # the first piece has no worker yet
        if paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: excludes(g, l, (1,), load)) is not None:
            out.append("the first piece of work goes to the worker of an earlier one")
    return out


def keeps(g, n, out):
    cid = n.ev["e"][5]
    has = lambda e: any(s[0] == "c" and s[5] == cid for s in walk(e))
    for m in g:
        if m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "m" and strip_cast(m.ev["lhs"])[2] == WORKER and (has(m.ev["rhs"]) or has(behind(g, m.ev["rhs"]))):
            return
    out.append("the worker the work went to is not kept")


def passed(ctx, p, fs):
    """an event on a connection leads to work"""
    some = False
    for f in fs:
        ids = {ev["e"][1] for ev in f.events() if ev["k"] == "call" and ev["e"][0] == "c"}
        if not any(short(i).endswith("epoll_wait") for i in ids):
            continue
        up = callers_up(p, [x.id for x in p.funcs.values() if x.short.endswith("::submit_task")])
        if f.id not in up:
            continue
        g = Graph(p, f, lambda x, e, d: x.cls == f.cls and x.id in up and x.short.split("::")[-1] not in ("resubmit",) and not x.virt, maxdepth=3)
        for n in V(g, "get_conn"):
            if not n.func.id == f.id and n.frame and "resubmit" in n.func.short:
                continue
            some = True
            lp = loop_of(g, n)
            heads = {lp[0]} if lp else set()
            r = paths(g).search(after(g, n), lambda m: m.id in heads or m is g.exit, stop=ups, stop_edge=lambda s, l: excludes(g, l, (0, 1)) or implies(g, l, no_conn) or shutdown_edge(g, l))
            ctx.ob("pass", "%s: an event" % f.short, r is None, n.loc, "an event is passed over although nothing waiting would see its data")
    ctx.ob("pass", "events lead to work", some, None, "no listener hands out work for its connections")


# ---- done, close

def done(ctx, p, tasks, bits):
    ctx.ob("done", "tasks", len(tasks) > 0, None, "no task works on a connection")
    ctx.ob("close", "one flag", len(bits) == 1, None, "the tasks do not agree on the flag that closes a connection")
    for f in tasks:
        ctx.analysed(f)
        g = whole(p, f)
        off = lambda s, l: shutdown_edge(g, l)
        D = [n for n in g if downs(n)]
        r = paths(g).search([g.entry], lambda m: m is g.exit, stop=downs, stop_edge=off)
        ctx.ob("done", "%s counts off its work" % f.short, bool(D) and r is None, D[0].loc if D else f.loc(), "a piece of work ends without being counted off")
        twice = next((n for n in D if paths(g).search(after(g, n), downs) is not None), None)
        ctx.ob("done", "%s counts it off once" % f.short, twice is None and not any(ups(n) for n in g), (twice or (D[0] if D else g.entry)).loc, "a piece of work is counted off twice")
        for n in D:
            e = n.ev["e"]
            if e[3] and nm(e) in ("operator-=", "fetch_sub") and const_of(e[3][0]) not in (None, 1):
                ctx.ob("done", "%s counts off one" % f.short, False, n.loc, "one piece of work is counted off as several")
            # afterwards the connection may be gone
            more = lambda s, l: excludes(g, l, (1, 2, 3))
            conns = {strip_cast(n.ev["e"][2])[1]}

            def touches(m):
                if m is n:
                    return False
                if m.k == "acc":
                    b = strip_cast(m.ev["e"])
                    while b[0] == "m":
                        if strip_cast(b[1])[0] == "v" and len(strip_cast(b[1])) > 4 and is_conn(strip_cast(b[1])[4]):
                            return True
                        b = strip_cast(b[1])
                return m.k == "call" and m.ev["e"][0] == "c" and any(strip_cast(x)[0] == "v" and len(strip_cast(x)) > 4 and is_conn(strip_cast(x)[4]) for x in ([m.ev["e"][2]] if m.ev["e"][2] is not None else []) + list(m.ev["e"][3])) and not short(m.ev["e"][1]).startswith("Logger::")
            r = paths(g).search(after(g, n), touches, stop_edge=more)
            ctx.ob("done", "%s leaves the connection alone then" % f.short, r is None, (r[-1] if r else n).loc, "a connection is used after its work was counted off, while others may work on it")
            b = max(bits) if bits else 4
            r = paths(g).search(after(g, n), lambda m: m is g.exit, stop=lambda m: m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("close", "close_conn_by_responder") and m.ev["e"][2] is not None,
                                stop_edge=lambda s, l: excludes(g, l, (0,)) or bit_known(g, l, b, False))
            ctx.ob("close", "%s closes what is to be closed" % f.short, r is None, n.loc, "the last piece of work does not close a connection that is to be closed")
            # and only then
            C = [m for m in g if m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("close", "close_conn_by_responder") and m.ev["e"][2] is not None and any(is_conn(strip_cast(m.ev["e"][2])[4]) if strip_cast(m.ev["e"][2])[0] == "v" and len(strip_cast(m.ev["e"][2])) > 4 else False for _ in (0,))]
            for m in C:
                r1 = paths(g).search([g.entry], lambda x: x is m, stop_edge=lambda s, l: excludes(g, l, (1, 2, 3)))
                r2 = paths(g).search([g.entry], lambda x: x is m, stop_edge=lambda s, l: bit_known(g, l, b, True))
                ctx.ob("close", "%s closes nothing else" % f.short, r1 is None and r2 is None, m.loc, "a connection is closed that has work left or is not to be closed")
    # what closing asks for
    f = next(iter(p.all("TcpConnection::close")), None)
    if f:
        r = Graph(p, f)
        c = [n for n in r if n.k == "call" and n.ev["e"][0] == "c" and any(mentions_field(a, "TcpConnection::fd") for a in n.ev["e"][3])]
        ctx.ob("close", "closing is asked of the listener", bool(c) and paths(r).search([r.entry], lambda m: m is r.exit, stop=lambda m: m in c, stop_edge=lambda s, l: implies(r, l, lambda e, t: null_test(e, t))) is None, f.loc(), "closing a connection does not reach its listener")


# ---- free

def freed(ctx, p, fs):
    cnt = 0
    for f in fs:
        for ev in f.events():
            if ev["k"] == "call" and ev["e"][0] == "c" and nm(ev["e"]) == "free_recyclable" and ev["e"][3] and strip_cast(ev["e"][3][0])[0] == "v" and len(strip_cast(ev["e"][3][0])) > 4 and is_conn(strip_cast(ev["e"][3][0])[4]):
                break
        else:
            continue
        ctx.analysed(f)
        frees = lambda n: n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "free_recyclable" and n.ev["e"][3] and strip_cast(n.ev["e"][3][0])[0] == "v" and is_conn(strip_cast(n.ev["e"][3][0])[4])

        def fresh(g, n):
            return all(any(s[0] == "c" and nm(s) in ("create_conn", "alloc_recyclable") for s in walk(d)) for d in sources(g, n.ev["e"][3][0]))

        def test(g):
            out = []
            for n in g:
                if not frees(n) or fresh(g, n):
                    continue
                if paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: rules_out(g, s, l, (1, 2, 3))) is not None:
                    out.append("a connection is given back although there may be work left on it")
                loop = loop_of(g, n)
                start = [g.nodes[loop[0]]] if loop else [g.entry]
                ends = (lambda m: m.id == loop[0]) if loop else (lambda m: m is g.exit)
                for name, pred in (("listener's", erases_own), ("common", lambda m: erases_all(p, m))):
                    if paths(g).search(start, lambda m: m is n, stop=lambda m: pred(m)) is not None and paths(g).search(after(g, n), ends, stop=lambda m: pred(m)) is not None:
                        out.append("a connection given back stays in the %s table" % name)
            return out
        bad = test(local(p, f, keep=("TcpListener::del_conn_from_all_map",))) and in_context(p, f, test)
        g = Graph(p, f)
        for n in g:
            if frees(n):
                if fresh(g, n):
                    # not the one that is kept
                    ctx.ob("free", "%s gives back a connection not needed" % f.short, paths(g).search(after(g, n), lambda m: m.k == "acc" and strip_cast(m.ev["e"])[0] == "m" and strip_cast(strip_cast(m.ev["e"])[1]) == strip_cast(n.ev["e"][3][0]), stop=lambda m: m.k == "asg" and strip_cast(m.ev["lhs"]) == strip_cast(n.ev["e"][3][0])) is None, n.loc, "a connection is used after it was given back")
                else:
                    cnt += 1
                    ctx.ob("free", "%s gives back a connection" % f.short, not bad, n.loc, "; ".join(sorted(set(bad))) or None)
    ctx.ob("free", "connections are given back", cnt > 0, None, "connections are never given back")
    # tables take it in
    for f in fs:
        if not any(ev["k"] == "call" and ev["e"][0] == "c" and nm(ev["e"]) == "create_conn" for ev in f.events()):
            continue
        g = local(p, f, keep=("TcpListener::add_conn_to_all_map",))
        for n in V(g, "create_conn"):
            for what, pred in (("its listener's", lambda m: m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("insert", "emplace", "operator[]") and mentions_field(m.ev["e"], "TcpListener::m_conn_map")),
                               ("the common", lambda m: m.k == "call" and m.ev["e"][0] == "c" and (nm(m.ev["e"]) == "add_conn_to_all_map" or nm(m.ev["e"]) in ("insert", "emplace", "operator[]") and mentions_global(m.ev["e"], "TcpListener::m_all_conn_map")))):
                r = escapes(g, n, pred)
                ctx.ob("free", "%s: a new connection is in %s table" % (f.short, what), r is None, n.loc, "a new connection is not put in %s table" % what)
            for fld in ("fd", "server", "listener"):
                r = escapes(g, n, lambda m: m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "m" and strip_cast(m.ev["lhs"])[2] == "TcpConnection::" + fld)
                ctx.ob("free", "%s: a new connection has its %s" % (f.short, fld), r is None, n.loc, "a new connection does not get its %s" % fld)


def sources(g, e):
    e = strip_cast(e)
    if e[0] == "v" and e[3] != "g":
        ds = common._defs(g).get(e[2], ())
        # the definition that reaches: all of those before it gets another value
        return [d for d in ds if strip_cast(d)[0] not in ("n",) and not (strip_cast(d)[0] == "v" and strip_cast(d)[3] == "l") and not strip_cast(d)[0] == "m"] if any(strip_cast(d)[0] == "c" and nm(d) in ("create_conn", "alloc_recyclable") for d in ds) else list(ds) or [e]
    return [e]


def erases_own(m):
    return m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) == "erase" and mentions_field(m.ev["e"], "TcpListener::m_conn_map")


def erases_all(p, m):
    if m.k != "call" or m.ev["e"][0] != "c":
        return False
    if nm(m.ev["e"]) == "erase" and mentions_global(m.ev["e"], "TcpListener::m_all_conn_map"):
        return True
    f = p.funcs.get(m.ev["e"][1])
    if f is None or f.cls != "TcpListener":
        return False
    g = Graph(p, f)
    return any(k.k == "call" and k.ev["e"][0] == "c" and nm(k.ev["e"]) == "erase" and mentions_global(k.ev["e"], "TcpListener::m_all_conn_map") for k in g)


# ---- fd

def sockets(ctx, p, fs, bits):
    cnt = 0
    bit = max(bits) if bits else 4
    for f in fs:
        if f.cls != "TcpListener":
            continue
        ce, cr = p.callgraph()
        gives = lambda x: any(ev["k"] == "call" and ev["e"][0] == "c" and nm(ev["e"]) == "free_recyclable" for ev in x.events())
        shuts = lambda x: any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "close" for ev in x.events())
        only = lambda x: [p.funcs[c] for c in cr.get(x.id, ()) if c in p.funcs]
        part = len(only(f)) == 1 and only(f)[0].cls == f.cls and (gives(only(f)[0]) or shuts(only(f)[0]))
        if not gives(f) and not (shuts(f) and any(gives(p.funcs[c]) for c in ce.get(f.id, ()) if c in p.funcs and p.funcs[c].cls == f.cls and only(p.funcs[c]) == [f])) or part:
            continue
        g = local(p, f, keep=("TcpListener::deregister_with_epoll", "TcpListener::del_conn_from_all_map"))
        closes = lambda m: m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]) == "close" and m.ev["e"][2] is None
        if any(m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) == "create_conn" for m in g):
            continue
        ctx.analysed(f)
        qs = each_path(g, 4000)
        if qs is None:
            qs = []
        loopy = bool(loops(g))
        isload = lambda t: t[0] == "c" and t[2] is not None and t[2][0] == "m" and t[2][2] == "pending_tasks"
        w = d = k = fl = None
        at = next((m for m in g if closes(m)), V(g, "free_recyclable")[0])
        for q in qs:
            cl = [a for a in q.acts if a[0] == "call" and a[1] == "close" and a[2] is None]
            fr = calls(q, "free_recyclable")
            de = calls(q, "deregister_with_epoll")
            left = busy(q, isload)
            st = [a for a in q.acts if a[0] == "call" and a[2] is not None and a[2][0] == "m" and a[2][2] == "state"]
            if left is True:
                if cl or fr:
                    w = "a socket is closed although there is work left on its connection"
                if not loopy and not any(a[1].split("::")[-1] in ("operator|=", "fetch_or") and a[3] and a[3][0][0] == "i" and a[3][0][1] & bit for a in st):
                    fl = "a connection that can not be closed yet is not marked to be closed"
            if fr and not cl:
                k = "a connection is given back and its socket left open"
            if not left and not loopy and not cl and not stopped(q):
                k = "a socket is not closed although nothing is left to be done on it"
            if len(cl) > 1 and not loopy:
                w = "a socket is closed twice"
            if cl and not de and not any(mentions(c[0], lambda x: x[0] == "m" and x[2] == "state") for c in q.conds if len(c) == 2):
                d = "a socket is closed that is still watched"
        for n in V(g, "free_recyclable"):
            lp = loop_of(g, n)
            if lp is None:
                continue
            # once for each connection of a table
            for pred, what in ((closes, "left open"), (lambda m: m.k == "call" and m.ev["e"][0] == "c" and (nm(m.ev["e"]) == "deregister_with_epoll" or closes(m)), "still watched")):
                if paths(g).search([g.nodes[lp[0]]], lambda m: m is n, stop=pred) is not None and paths(g).search(after(g, n), lambda m: m.id == lp[0] or m is g.exit, stop=pred) is not None:
                    k = "a connection is given back and its socket %s" % what
            for m in g:
                if closes(m) and m.id in lp[1] and paths(g).search([g.nodes[lp[0]]], lambda x: x is m, stop_edge=lambda s, l: rules_out(g, s, l, (1, 2, 3))) is not None:
                    w = "a socket is closed although there is work left on its connection"
        ctx.ob("fd", "%s: work left" % f.short, w is None, at.loc, w)
        ctx.ob("fd", "%s: closed" % f.short, k is None, at.loc, k)
        ctx.ob("fd", "%s: watched" % f.short, d is None, at.loc, d)
        if not loopy:
            ctx.ob("fd", "%s: marked" % f.short, fl is None, at.loc, fl)
            # a connection that is known is the one looked at
            ctx.ob("fd", "%s: looks at the work left" % f.short, any(busy(q, isload) is not None for q in qs), at.loc, "a socket is closed without looking at the work left on it")
        cnt += 1
    ctx.ob("fd", "sockets are closed", cnt > 0, None, "the sockets of connections are never closed")


def stopped(q):
    return False


def busy(q, isload):
    """is it known on the path that there is work left?"""
    r = None
    for c in q.conds:
        if len(c) != 2:
            continue
        e, t = c
        if isload(e):
            r = t
        elif e[0] == "b" and e[1] in OPS:
            op, a, b = e[1:]
            if isload(b):
                op, a, b = flip(op), b, a
            if isload(a) and b[0] == "i":
                v = [x for x in (0, 1, 2) if OPS[op](x, b[1]) == t]
                r = False if v == [0] else True if 0 not in v else r
    return r


# ---- flags

def flags(ctx, p, fs, bits):
    bit = max(bits) if bits else 4
    # a peer that is gone
    some = False
    for f in fs:
        g = None
        if any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]).endswith("epoll_wait") for ev in f.events()):
            up = callers_up(p, [x.id for x in p.funcs.values() if x.short.endswith("::submit_task")])
            if f.id not in up:
                continue
            g = Graph(p, f, lambda x, e, d: x.cls == f.cls and x.id in up and not x.virt and "resubmit" not in x.short, maxdepth=3)
            ctx.analysed(f)
            hup = lambda e: any(x[0] == "b" and x[1] == "&" and (const_of(x[3]) or 0) & 0x2000 and not any(on(y, STATE) for y in walk(x)) for x in walk(e))
            gone = [(n, s, l) for n in g for s, l in n.succ if implies(g, l, lambda e, t: t and hup(e) and e[0] != "v") or any(t and strip_cast(e)[0] == "v" and any(hup(d) for d in common._defs(g).get(strip_cast(e)[2], ())) for e, t in truths(l))]
            # the branch on which the connection is known
            subs = V(g, "submit_task")
            marks = lambda m: sets_bits(m)[0] & bit
            M = [m for m in g if marks(m)]
            ok = bool(M) and bool(subs)
            r = None
            for n in subs:
                # no way to hand out the work of a peer that is gone without the mark
                r = r or paths(g).search([g.nodes[s] for x, s, l in gone], lambda m: m is n, stop=lambda m: marks(m) or m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).endswith("epoll_wait") or m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("get_conn",), stop_edge=lambda s, l: implies(g, l, lambda e, t: not t and (hup(e) or e[0] == "v" and any(hup(d) for d in common._defs(g).get(e[2], ())))))
            some = True
            ctx.ob("flags", "%s: a peer that is gone" % f.short, ok and bool(gone) and r is None, (M[0] if M else g.entry).loc, "a connection whose peer is gone is not marked to be closed before its last work is handed out")
            wrongly = next((m for m in M if paths(g).search([g.entry], lambda x: x is m, stop_edge=lambda s, l: implies(g, l, lambda e, t: t and hup(e) and e[0] != "v") or any(t and strip_cast(e)[0] == "v" and any(hup(d) for d in common._defs(g).get(strip_cast(e)[2], ())) for e, t in truths(l))) is not None), None)
            ctx.ob("flags", "%s: only then" % f.short, wrongly is None, (wrongly or g.entry).loc, "a connection is marked to be closed although its peer is still there")
    ctx.ob("flags", "listeners", some, None, "no listener hands out work")
    # watched or not
    regs = set()
    ce, cr = p.callgraph()
    for f in fs:
        if f.cls != "TcpListener" or not any(ev["k"] == "call" and ev["e"][0] == "c" and nm(ev["e"]) in ("register_with_epoll", "get_or_create_conn") for ev in f.events()):
            continue
        if any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]).endswith(("epoll_wait", "pipe", "epoll_create1")) for ev in f.events()):
            continue
        res = watching(p, f, bit, regs)
        up = [p.funcs[c] for c in cr.get(f.id, ()) if c in p.funcs]
        if any(not ok for w, ok, at, m in res) and len(up) == 1 and up[0].cls == f.cls and not any(ev["k"] == "call" and ev["e"][0] == "c" and nm(ev["e"]) == "read_pipe" for ev in up[0].events()):
            more = watching(p, up[0], bit, regs)
            if more and all(ok for w, ok, at, m in more):
                res = more
        ctx.analysed(f)
        for w, ok, at, m in res:
            ctx.ob("flags", "%s: %s" % (f.short, w), ok, at, m)
    for f in fs:
        if f.cls != "TcpListener" or not regs:
            continue
        g = Graph(p, f)
        dereg = V(g, "deregister_with_epoll")
        clears = [n for n in g if sets_bits(n)[1] & max(regs) and not sets_bits(n)[0]]
        if dereg and any(on(n.ev["e"], STATE) for n in g if n.k == "call") and not V(g, "free_recyclable"):
            ok = all(path_exists(g, n, lambda x: x in clears) or path_exists(g, g.entry, lambda x: x in clears) for n in dereg) and bool(clears)
            ctx.ob("flags", "%s: not watched any more" % f.short, ok, dereg[0].loc, "a connection whose socket is not watched any more is still marked so")
    # what is watched for
    for f in fs:
        g = Graph(p, f)
        for n in g:
            if is_ext(n, "epoll_ctl") and const_of(args(n)[1]) == 1:
                ctx.analysed(f)
                got = [const_of(m.ev["rhs"]) for m in g if m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "m" and strip_cast(m.ev["lhs"])[2].endswith("::events") and preceded(g, n, lambda x: x is m) and const_of(m.ev["rhs"]) is not None]
                bits2 = 0
                for x in got:
                    bits2 |= x & 0xffffffff
                ctx.ob("flags", "%s: data and hang-ups" % f.short, bits2 & 0x2001 == 0x2001, n.loc, "a socket is not watched for data, or for its peer going away")


def watching(p, f, bit, regs):
    out = []
    g = local(p, f, keep=("TcpListener::register_with_epoll", "TcpListener::deregister_with_epoll"))
    R = V(g, "register_with_epoll")
    touched = [n for n in g if sets_bits(n) != (0, 0)]
    off = lambda s, l: shutdown_edge(g, l) or implies(g, l, no_conn) or implies(g, l, lambda e, t: e[0] == "b" and e[1] in OPS and const_of(e[3]) is not None and strip_cast(e[2])[0] == "v" and not any(OPS[e[1]](v, const_of(e[3])) == t for v in (1, 2, 100)))
    for n in R:
        reg = [sets_bits(m)[0] for m in touched if sets_bits(m)[0] and not sets_bits(m)[0] & bit and escapes(g, n, lambda x: x is m) is None]
        tested = set()
        for m in g:
            for s, l in m.succ:
                for e, t in truths(l):
                    for x in walk(e):
                        if x[0] == "b" and x[1] == "&" and const_of(x[3]) and any(on(y, STATE) for y in walk(x[2])):
                            tested.add(const_of(x[3]))
        out.append(("a socket watched", bool(reg), n.loc, "a connection whose socket is watched is not marked so"))
        regs |= set(reg)
        for b in reg:
            for q in tested:
                if q & b:
                    bad = paths(g).search([g.entry], lambda m: m is g.exit, stop=lambda m: m is n, stop_edge=lambda s, l: bit_known(g, l, b, True) or off(s, l))
                    out.append(("watched once", bad is None, n.loc, "a connection not watched yet is not watched"))
    # a new connection on a socket starts afresh
    news = lambda m: m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("get_or_create_conn", "create_conn")
    if any(news(m) for m in g):
        for n in R:
            r = paths(g).search([g.entry], lambda m: m is g.exit, stop=lambda m: sets_bits(m)[1] & bit, stop_edge=off)
            out.append(("a new connection is not to be closed", r is None, n.loc, "a new connection keeps the mark that it is to be closed"))
            late = [m for m in g if sets_bits(m)[1] & bit and path_exists(g, n, lambda x: x is m, avoid=news)]
            out.append(("cleared before it is watched", not late, n.loc, "the flags of a new connection are cleared after its events may have arrived"))
        if not R:
            out.append(("watched", False, next(m for m in g if news(m)).loc, "a new connection is not watched"))
    return out


# ---- pipe

def fmt_offsets(fmt):
    """offsets at which the converted values stand, when all but the last are characters"""
    out, i, o = [], 0, 0
    while i < len(fmt):
        if fmt[i] == "%" and i + 1 < len(fmt):
            out.append((fmt[i + 1], o, i > 0 and fmt[i - 1] == " "))
            o += 1
            i += 2
        else:
            o += 1
            i += 1
    return out


def pipes(ctx, p, fs, tasks):
    """(letter, format, function it is written in)"""
    sent = []
    for f in fs:
        g = Graph(p, f)
        for n in V(g, "write_pipe"):
            a = n.ev["e"][3]
            msg = strip_cast(a[1])
            lit = [s for s in walk(behind(g, msg)) if s[0] == "s"]
            if strip_cast(msg)[0] == "s" or behind(g, msg)[0] == "s":
                sent.append((ord(lit[0][1][0]), lit[0][1], f, n))
                continue
            if msg[0] == "v":
                for m in g:
                    if m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("snprintf", "sprintf") and any(strip_cast(x) == msg for x in m.ev["e"][3]):
                        lits = [(i, strip_cast(x)[1]) for i, x in enumerate(m.ev["e"][3]) if strip_cast(x)[0] == "s"]
                        if lits:
                            i, fmt = lits[0]
                            rest = m.ev["e"][3][i + 1:]
                            first = letter(rest[0]) if fmt.startswith("%c") and rest else ord(fmt[0])
                            sent.append((first, fmt, f, n))
    ctx.ob("pipe", "asked for", len(sent) > 0, None, "nothing is asked for through a pipe")
    readers = []
    for f in fs:
        g = Graph(p, f)
        for n in g:
            for s, l in n.succ:
                if l and l[0] == "case":
                    for v in l[2]:
                        if letter(v) is not None:
                            readers.append((letter(v), f, g, g.nodes[s]))
                for e, t in truths(l):
                    # also as a chain of comparisons
                    if t and e[0] == "b" and e[1] == "==" and letter(e[3]) is not None and strip_cast(e[2])[0] == "x":
                        readers.append((letter(e[3]), f, g, g.nodes[s]))
    down = lambda ids: {p.funcs[i].short.split("::")[-1] for i in callees_down(p, ids) if i in p.funcs}
    for c, fmt, f, n in sent:
        ctx.analysed(f)
        ctx.ob("pipe", "%s: a whole line" % f.short, fmt.endswith("\n"), n.loc, "what is asked for through a pipe is not ended as a line")
        if c is None:
            continue
        hs = [(rf, g, s) for v, rf, g, s in readers if v == c]
        ctx.ob("pipe", "%s: '%s' is known" % (f.short, chr(c)), bool(hs), n.loc, "what is asked for through a pipe is not known to the listeners")
        want = wanted(p, f)
        offs = fmt_offsets(fmt) if "%" in fmt else []
        did = None
        where_ = n
        okw = want is None
        for rf, g, s in hs:
            act = first_calls(g, s)
            if not act:
                continue
            if want is not None:
                for m in act:
                    if m.ev["e"][0] != "c":
                        continue
                    ids = [m.ev["e"][1]]
                    names = {short(m.ev["e"][1]).split("::")[-1]} | down([i for i in ids if i in p.funcs])
                    if want in names or any(ext_of(p, i, want) for i in callees_down(p, [i for i in ids if i in p.funcs])):
                        okw = True
                        if len(offs) > 1:
                            got = sorted(reads_at(g, m))
                            where_ = m
                            did = None if all(o in got or k != "c" and sp and o - 1 in got for k, o, sp in offs[1:]) else "what is asked for is read from the wrong place of the line"
                        break
        ctx.ob("pipe", "%s: '%s' is done" % (f.short, chr(c)), okw, n.loc, "the listener does something else than what is asked for through its pipe")
        ctx.ob("pipe", "%s: '%s' is read" % (f.short, chr(c)), did is None, where_.loc, did)
    # which work is to be done again
    for f in fs:
        for n in V(Graph(p, f), "resubmit_by_responder"):
            c = const_of(n.ev["e"][3][0]) if n.ev["e"][3] else None
            if c is None:
                continue
            cls = f.cls
            for rf in fs:
                g = Graph(p, rf)
                sets = [m for m in g if m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "m" and strip_cast(m.ev["lhs"])[2] == "Task::doit" and rf.cls == "TcpListener"]
                if not sets:
                    continue
                is_c = lambda e, t: cval(e, t, rf, c) is True
                not_c = lambda e, t: cval(e, t, rf, c) is False
                reach = [m for m in sets if paths(g).search([g.entry], lambda x: x is m, stop_edge=lambda s, l: implies(g, l, not_c)) is not None]
                # the last one set on such a path
                reach = [m for m in reach if paths(g).search(after(g, m), lambda x: x.k == "call" and x.ev["e"][0] == "c" and nm(x.ev["e"]) == "submit_task", stop=lambda x: x in sets, stop_edge=lambda s, l: implies(g, l, not_c)) is not None]
                who = {s[1].split("::")[0] for m in reach for s in walk(m.ev["rhs"]) if s[0] == "fn"}
                ctx.ob("pipe", "%s asks for more work" % f.short, not reach or who == {cls}, n.loc, "the work asked for again is that of another kind of connection")


def letter(e):
    """a character, also when taken from a literal"""
    e = strip_cast(e)
    if const_of(e) is not None:
        return const_of(e)
    if e[0] == "x" and strip_cast(e[1])[0] == "s" and const_of(e[2]) is not None and const_of(e[2]) < len(strip_cast(e[1])[1]):
        return ord(strip_cast(e[1])[1][const_of(e[2])])
    return None


def cval(e, t, f, c):
    """is the parameter's value c, given the condition?  None when it does not tell"""
    if e[0] == "b" and e[1] in ("==", "!="):
        a, b = e[2], e[3]
        if const_of(b) is None:
            a, b = b, a
        a = strip_cast(a)
        if const_of(b) is not None and a[0] == "v" and a[3] == "p":
            eq = (e[1] == "==") == t
            if eq:
                return const_of(b) == c
            return False if const_of(b) == c else None
    return None


def wanted(p, f):
    """what has to happen in the end when the function asks for something"""
    ce, cr = p.callgraph()
    names = {short(ev["e"][1]).split("::")[-1] for ev in f.events() if ev["k"] == "call" and ev["e"][0] == "c"}
    if "accept4" in names or "accept" in names:
        return "register_with_epoll"
    last = f.short.split("::")[-1]
    if last.startswith("resubmit"):
        return "submit_task"
    if last.startswith("close_conn"):
        return "close_conn"
    if last == "shutdown":
        return "set_stopped"
    return None


def ext_of(p, i, name):
    f = p.funcs.get(i)
    return f is not None and any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]).split("::")[-1] == name for ev in f.events())


def first_calls(g, s):
    """calls of the branch"""
    out, todo, seen = [], [s], set()
    while todo:
        n = todo.pop()
        if n.id in seen or len(seen) > 40:
            continue
        seen.add(n.id)
        if n.k == "call" and n.ev["e"][0] == "c" and not short(n.ev["e"][1]).startswith("std::") and nm(n.ev["e"]) not in ("atoi", "read_pipe", "strlen"):
            if not short(n.ev["e"][1]).startswith("Logger::"):
                out.append(n)
                continue
        if any(l and l[0] == "case" for x, l in n.succ):
            continue
        todo += [g.nodes[x] for x, l in n.succ if not (l and l[0] in ("eh", "throw"))]
        if len(out) > 2:
            break
    return out


def reads_at(g, m):
    """places of the line a call's arguments are read from"""
    out = set()
    for a in m.ev["e"][3]:
        for x in [a, behind(g, a)]:
            for s in walk(x):
                if s[0] == "b" and s[1] == "+" and const_of(s[3]) is not None:
                    out.add(const_of(s[3]))
                if s[0] == "x" and const_of(s[2]) is not None:
                    out.add(const_of(s[2]))
    return out


# ---- null

def looked_up(ctx, p, fs):
    cnt = 0
    for f in fs:
        g = Graph(p, f)
        for n in V(g, "get_conn"):
            cid = n.ev["e"][5]
            d = [m for m in g if m.k in ("decl", "asg") and any(s[0] == "c" and len(s) > 5 and s[5] == cid for s in walk(m.ev.get("init") or m.ev.get("rhs") or ("n",)))]
            if not d:
                continue
            cnt += 1
            ctx.analysed(f)
            v = (("v", d[0].ev["n"], d[0].ev["id"]) if d[0].k == "decl" else strip_cast(d[0].ev["lhs"])[:3])
            uses = lambda m: m.k == "acc" and strip_cast(m.ev["e"])[0] == "m" and strip_cast(strip_cast(m.ev["e"])[1])[:3] == v
            is_v = lambda e: strip_cast(e)[:3] == v or strip_cast(e)[0] == "b" and any(strip_cast(x)[:3] == v for x in strip_cast(e)[2:4])
            r = paths(g).search([d[0]], uses, stop_edge=lambda s, l: implies(g, l, lambda e, t: is_v(e) and nonnull(e, t)))
            ctx.ob("null", "%s looks up a connection" % f.short, r is None, (r[-1] if r else n).loc, "a connection is used that may have been closed meanwhile")
    ctx.ob("null", "connections are looked up", cnt > 0, None, "connections are never looked up")


def nonnull(e, t):
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("==", "!="):
        return (e[1] == "!=") == t
    return e[0] == "v" and t


# ---- read

def read_all(ctx, p, tasks):
    cnt = 0
    seen = set()
    for f in tasks:
        g = Graph(p, f, lambda x, e, d: not x.virt and x.cls in (f.cls, "TcpConnection") and any(ev["k"] == "call" and ev["e"][0] == "c" and nm(ev["e"]) == "recv" for ev in x.events()) and x.id not in [f.id], maxdepth=2)
        for n in g:
            if not is_ext(n, "recv") or (n.func.id, n.line) in seen:
                continue
            seen.add((n.func.id, n.line))
            cnt += 1
            ctx.analysed(n.func)
            cid = n.ev["e"][5]
            lp = loop_of(g, n)
            ctx.ob("read", "%s reads on" % n.func.short, lp is not None, n.loc, "only the first part of what arrived is read")
            if lp is None:
                continue
            h, body = lp
            got = lambda x: any(s[0] == "c" and len(s) > 5 and s[5] == cid for s in walk(x)) or strip_cast(x)[0] == "v" and any(any(s[0] == "c" and len(s) > 5 and s[5] == cid for s in walk(d)) for d in common._defs(g).get(strip_cast(x)[2], ()))

            def nothing(e, t):
                if e[0] == "b" and e[1] in OPS:
                    a, b, op = e[2], e[3], e[1]
                    if const_of(b) is None:
                        a, b, op = b, a, flip(op)
                    if const_of(b) is not None and got(a):
                        return not any(OPS[op](v, const_of(b)) == t for v in (1, 2, 100))
                return False
            size = bound_of(g, n)

            def full(e, t):
                # the loop's own condition: no room is left
                return e[0] == "b" and e[1] in ("<", "<=", ">", ">=", "!=", "==") and any(strip_cast(x) in size for y in e[2:4] for x in walk(y)) and not got(e[2]) and not got(e[3])
            bad = None
            for x in body:
                for s, l in g.nodes[x].succ:
                    if s in body or l and l[0] in ("eh", "throw"):
                        continue
                    if implies(g, l, nothing) or implies(g, l, full):
                        continue
                    r = paths(g).search(after(g, n), lambda m: m is g.nodes[x], stop=lambda m: m.id not in body or m.id == h, stop_edge=lambda a, b: implies(g, b, nothing))
                    if r is not None:
                        bad = g.nodes[x]
            ctx.ob("read", "%s reads all" % n.func.short, bad is None, (bad or n).loc, "reading stops although more may have arrived")
            # no room left: more work is asked for, or the sender is told
            ask = lambda m: m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("resubmit_by_responder", "send_response")
            ctx.ob("read", "%s: a full buffer" % n.func.short, any(ask(m) and path_exists(g, n, lambda q: q is m) for m in g), n.loc, "what did not fit in the buffer is never read")
            for m in g:
                if m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) == "resubmit_by_responder":
                    # asked for unless work that will see the data waits already
                    held = paths(g).search([g.entry], lambda q: q is m, stop_edge=lambda s, l: excludes(g, l, (2, 3)) or excludes(g, l, (1,))) is None
                    only = paths(g).search([g.entry], lambda q: q is m, stop_edge=lambda s, l: excludes(g, l, (1,))) is None
                    ctx.ob("read", "%s: asked for when nothing waits" % n.func.short, not only, m.loc, "more work is not asked for although nothing waiting would read the rest")
    ctx.ob("read", "data is read", cnt > 0, None, "nothing is read from connections")


def bound_of(g, n):
    """variables in the room given to recv"""
    out = []
    for x in walk(n.ev["e"][3][2]):
        if x[0] == "v" and x[3] != "g":
            out.append(strip_cast(x))
    return out
