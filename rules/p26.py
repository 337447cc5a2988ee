"""Queues of work, the threads that do it, the timer, and the order in which threads end."""
import re

from common import *
import common
from along import *
from p18 import after, implies, holds_if
from p22 import local, nm, V, behind, each

ASSUMPTIONS = [
    "one thread at a time puts work into a queue and one takes it out",
    "work handed out names the function to be run (checked for all places that hand out work)",
]

HEAD, TAIL, ITEMS, CAP = "m_head", "m_tail", "m_items", "m_capacity"
THIS = ("t",)


def check(ctx):
    p = ctx.prog
    ctx.rule("ring", "a queue's place is filled before it is offered, read before it is given up, and never used twice", 4)
    ctx.rule("run", "work taken from a queue is run once, and the thread goes on whatever happens in it", 4)
    ctx.rule("put", "work is put into one queue once, and where it went is what the caller is told", 3)
    ctx.rule("index", "workers and threads are looked up only by numbers below their count", 4)
    ctx.rule("start", "every worker counted has a thread, and every one is stopped and waited for", 4)
    ctx.rule("timer", "the timer hands out what is due, when it is due, and takes on all that is new", 6)
    ctx.rule("copy", "copying work copies all of it", 4)
    ctx.rule("job", "work handed out has a function to run, at a frequency in seconds", 6)
    ctx.rule("ask", "a request to stop is kept, and seen by whoever asks", 2)
    ctx.rule("join", "each thread is waited for before what it uses is taken down", 4)
    ring(ctx, p)
    run(ctx, p)
    put(ctx, p)
    index(ctx, p)
    start(ctx, p)
    timer(ctx, p)
    copies(ctx, p)
    jobs(ctx, p)
    asked(ctx, p)
    joined(ctx, p)


def asks(e, t):
    """a condition that says a stop was asked for"""
    e = strip_cast(e)
    return t and (e[0] == "c" and nm(e) in ("is_shutdown_requested",) or shutdown_flag(e) is True or e[0] == "v" and e[3] == "g" and e[1] == "g_shutdown_requested")


def stop_edge(g):
    return lambda s, l: implies(g, l, asks)


def prune(g, start, goal, stop, edge):
    return paths(g).search(start, goal, stop=stop, stop_edge=edge)


# ---- the ring

def norm(t):
    """loading an atomic is the same as naming it"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "c" and t[2] is not None and t[2][0] == "m" and t[2][2] in (HEAD, TAIL) and (t[1].endswith("::load") or "::operator " in t[1]):
        return ("m",) + norm(t[2])[1:]
    if t[0] == "cast":
        return norm(t[-1])
    return tuple(norm(x) for x in t)


def fld(name):
    return ("m", THIS, name)


def plus1(t, x):
    return t in (("b", "+", x, ("i", 1)), ("b", "+", ("i", 1), x))


def wraps(t, x, q):
    """is t the place after x, on this path?"""
    cap = fld(CAP)
    if t[0] == "b" and t[1] == "%" and plus1(t[2], x) and t[3] == cap:
        return True
    nxt = ("b", "+", x, ("i", 1))
    if t[0] == "?":
        a = Path()
        c = t[1]
        tr, fa = end_test(c, x)
        if tr is None:
            return False
        one, two = (t[2], t[3]) if tr else (t[3], t[2])
        return one == ("i", 0) and plus1(two, x)
    for c, v in [(norm(c[0]), c[1]) for c in q.conds if len(c) == 2]:
        tr, fa = end_test(c, x)
        if tr is None:
            continue
        if (tr == v) and t == ("i", 0) or (tr != v) and plus1(t, x):
            return True
    return False


def end_test(c, x):
    """(truth with which the condition says that the place after x is the end, ...)"""
    if c[0] != "b" or c[1] not in ("==", "!=", "<", ">="):
        return None, None
    a, b = c[2], c[3]
    cap = fld(CAP)
    ok = plus1(a, x) and b == cap or a == x and b == ("b", "-", cap, ("i", 1)) or c[1] in ("==", "!=") and (plus1(b, x) and a == cap or b == x and a == ("b", "-", cap, ("i", 1)))
    if not ok:
        return None, None
    return c[1] in ("==", ">="), None


def order_of(n):
    """the memory order of an atomic access (5 when none is given)"""
    a = [const_of(x) for x in n.ev["e"][3] if strip_cast(x)[0] == "i" and len(strip_cast(x)) > 2 and "memory_order" in str(strip_cast(x)[2])]
    return a[-1] if a else 5


def ring(ctx, p):
    fs = [f for f in p.funcs.values() if f.short.split("::")[-1] in ("try_enqueue", "try_dequeue") and f.file == "include/queue.h"]
    ctx.ob("ring", "something is put in and taken out", len({f.short.split("::")[-1] for f in fs}) == 2, "include/queue.h:1", "no function puts work into a queue, or none takes it out")
    for f in fs:
        putting = f.short.endswith("try_enqueue")
        own, other = (TAIL, HEAD) if putting else (HEAD, TAIL)
        g = Graph(p, f, lambda x, e, d: x.cls == f.cls and not x.virt, maxdepth=3)
        qs = each_path(g, 400)
        name = f.short
        if qs is None:
            raise AnalysisError("%s has too many paths" % f.short)
        bad = {}
        for q in qs:
            conds = [(norm(c[0]), c[1]) for c in q.conds if len(c) == 2]
            stores = [a for a in q.acts if a[0] == "call" and a[2] is not None and a[2][0] == "m" and a[2][2] in (HEAD, TAIL) and a[1].split("::")[-1] in ("store", "operator=", "exchange", "operator++", "operator+=")]
            items = []
            for a in q.acts:
                if a[0] == "set" and norm(a[1])[0] == "x" and norm(a[1])[1] == fld(ITEMS):
                    items.append((norm(a[1])[2], "w", a, norm(a[2])))
                elif a[0] == "set" and norm(a[2])[0] == "x" and norm(a[2])[1] == fld(ITEMS):
                    items.append((norm(a[2])[2], "r", a, norm(a[1])))
                elif a[0] == "call" and a[1].split("::")[-1] == "operator=":
                    b = norm(a[2]) if a[2] is not None else ("?",)
                    r = norm(a[3][0]) if a[3] else ("?",)
                    if b[0] == "x" and b[1] == fld(ITEMS):
                        items.append((b[2], "w", a, r))
                    elif r[0] == "x" and r[1] == fld(ITEMS):
                        items.append((r[2], "r", a, b))
            full = None
            for c, v in conds:
                if c[0] == "b" and c[1] in ("==", "!=") and mentions(c, lambda t: t == fld(other)):
                    x = c[2] if c[3] == fld(other) else c[3]
                    if putting and wraps(x, fld(own), q) or not putting and x == fld(own):
                        full = (c[1] == "==") == v
            ret = q.ret[1] if q.ret and q.ret[0] == "i" else None
            if ret is None and q.ret:
                # the answer is the condition itself
                for c, v in conds:
                    if c == norm(q.ret):
                        ret = int(v)
            if ret is None:
                bad["answer"] = "what is answered is not known"
                continue
            ln = q.end
            if ret == 0:
                if stores or items:
                    bad["refuse"] = "work is put in or taken out although failure is answered"
                if full is not True:
                    bad["refuse2"] = "failure is answered without the queue being known to be %s" % ("full" if putting else "empty")
                continue
            if full is not False:
                bad["full"] = "it goes on without knowing that the queue is not %s" % ("full" if putting else "empty")
            if len(stores) != 1 or stores[0][2][2] != own:
                bad["store"] = "the queue's %s is not moved exactly once" % ("tail" if putting else "head")
                continue
            v = norm(stores[0][3][0]) if stores[0][3] else None
            if v is None or not wraps(v, fld(own), q):
                bad["next"] = "the queue's %s is not moved to the next place" % ("tail" if putting else "head")
            if order_of(stores[0][-1]) not in (3, 4, 5):
                bad["release"] = "the move may be seen before the work itself (memory order)"
            mine = [i for i in items if i[1] == ("w" if putting else "r")]
            if len(items) != 1 or not mine:
                bad["item"] = "not exactly one piece of work is %s" % ("put in" if putting else "taken out")
            else:
                if mine[0][0] != fld(own):
                    bad["place"] = "the work is not %s at the %s" % (("put", "tail") if putting else ("taken", "head"))
                if q.acts.index(mine[0][2]) > q.acts.index(stores[0]):
                    bad["before"] = "the place is %s before the work is %s" % (("offered", "in it") if putting else ("given up", "out of it"))
                if mine[0][3] not in ([("v", x["n"], (0, x["id"])) for x in f.params]):
                    bad["which"] = "not the work given is moved"
        loads = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "m" and strip_cast(n.ev["e"][2])[2].endswith("::" + other) and (nm(n.ev["e"]) == "load" or "operator" in nm(n.ev["e"]))]
        if any(nm(n.ev["e"]) == "load" and order_of(n) not in (1, 2, 4, 5) for n in loads):
            bad["acquire"] = "the other end's position is read without waiting for what came with it (memory order)"
        for k in ("answer", "refuse", "refuse2", "full", "store", "next", "release", "item", "place", "before", "which", "acquire"):
            ctx.ob("ring", "%s: %s" % (name, k), k not in bad, f.loc(), bad.get(k, ""))
    # the room is as large as the count that positions are kept below
    for f in {f.cls: f for f in fs}.values():
        for c in [x for x in p.funcs.values() if x.cls == f.cls and x.kind == "ctor" and x.params and len(x.params) == 1 and "Queue" not in x.params[0]["t"]]:
            g = Graph(p, c)
            inits = {n.ev["f"].split("::")[-1]: n for n in g if n.k == "init"}
            for n in g:
                if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m":
                    inits[strip_cast(n.ev["lhs"])[2].split("::")[-1]] = n
            val = lambda k: strip_cast(inits[k].ev.get("e") if inits[k].k == "init" else inits[k].ev["rhs"]) if k in inits else None
            def zero(k):
                v = val(k)
                if v is None:
                    return False
                return const_of(v) == 0 or v[0] == "k" and len(v[3]) == 1 and const_of(v[3][0]) == 0
            ctx.ob("ring", "%s: starts empty" % c.short, zero(HEAD) and zero(TAIL), c.loc(), "a new queue does not start empty, at its first place")
            cap = val(CAP)
            sizes = [x for x in walk(val(ITEMS) or ("n",)) if x[0] == "b" and x[1] == "*"]
            par = c.params[0]
            is_par = lambda e: e is not None and strip_cast(e)[0] == "v" and strip_cast(e)[1] == par["n"] or e is not None and strip_cast(e)[0] == "m" and strip_cast(e)[2].endswith("::" + CAP)
            ctx.ob("ring", "%s: room" % c.short, is_par(cap) and any(any(is_par(y) for y in x[2:4]) and any((const_of(y) or 0) >= 24 or mentions_size(y) for y in x[2:4]) for x in sizes) or is_par(cap) and any(x[0] == "new" and is_par(x[3]) for x in walk(val(ITEMS) or ("n",)) if len(x) > 3), c.loc(), "the room of a queue is not that of the number of places it counts")


def mentions_size(e):
    return False


# ---- running work

def runs(n):
    return n.k == "call" and n.ev["e"][0] == "ci" and strip_cast(n.ev["e"][1])[0] == "m" and strip_cast(n.ev["e"][1])[2] == "Task::doit"


def work_graphs(p):
    """functions that run work from a queue: those that take it out, with the helpers written out"""
    out = []
    for f in p.funcs.values():
        if not f.file.startswith(("src/", "include/")) or f.short.endswith("try_dequeue"):
            continue
        if any(ev["k"] == "call" and ev["e"][0] == "c" and nm(ev["e"]) == "try_dequeue" for ev in f.events()):
            top = f
            g = Graph(p, f, lambda x, e, d: x.cls == f.cls and not x.virt, maxdepth=3)
            if not any(runs(n) for n in g):
                ce, cr = p.callgraph()
                for c in cr.get(f.id, ()):
                    h = p.funcs[c]
                    g2 = Graph(p, h, lambda x, e, d: x.cls == h.cls and not x.virt, maxdepth=3)
                    if any(runs(n) for n in g2):
                        out.append((h, g2))
                continue
            out.append((f, g))
    return out


def run(ctx, p):
    ws = work_graphs(p)
    ctx.ob("run", "work is taken out and run", bool(ws), "src/core/task.cpp:1", "nothing runs the work put into the queues")
    for f, g in ws:
        takes = V(g, "try_dequeue")
        rs = [n for n in g if runs(n)]
        got = lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "try_dequeue"
        edge = stop_edge(g)
        nothing = lambda s, l: implies(g, l, lambda e, t: null_test(e, t) and mentions_field(e, "Task::doit")) or edge(s, l)
        # from the point where it is known that work was taken
        first = [g.nodes[s] for n in g for s, l in n.succ if l and l[0] == "cond" and implies(g, l, got)]
        r = prune(g, first, lambda m: m in takes or m is g.exit or m is g.texit, runs, nothing) if first else True
        ctx.ob("run", "%s: all" % f.short, r is None, f.loc(), "work taken from the queue may not be run")
        for n in rs:
            r = prune(g, after(g, n) + [g.nodes[s] for s, l in n.succ if l and l[0] == "eh"], runs, lambda m: m in takes, None)
            ctx.ob("run", "%s: once" % f.short, r is None, n.loc, "work may be run twice")
            a = n.ev["e"]
            b = strip_cast(a[1])[1]
            d = behind(g, a[2][0]) if len(a[2]) == 1 else ("n",)
            ok = d[0] == "m" and d[2] == "Task::data" and same(g, d[1], b)
            src = {strip_cast(x) for t in takes for x in origins_args(g, t)}
            ctx.ob("run", "%s: its data" % f.short, ok, n.loc, "work is not run with the data that came with it")
            ctx.ob("run", "%s: the work taken" % f.short, any(same(g, b, x) for x in src), n.loc, "not the work taken from the queue is run")
            r = prune(g, after(g, n) + [g.nodes[s] for s, l in n.succ if l and l[0] in ("eh", "throw")], lambda m: m is g.texit, lambda m: m in takes, None)
            ctx.ob("run", "%s: exceptions" % f.short, r is None, n.loc, "an exception in a piece of work ends the thread, and the process with it")
            r = prune(g, after(g, n) + [g.nodes[s] for s, l in n.succ if l and l[0] == "eh"], lambda m: m is g.exit, None, edge)
            ctx.ob("run", "%s: goes on" % f.short, r is None, n.loc, "a worker can end without being asked to")
        # entry to exit only when asked
        r = prune(g, [g.entry], lambda m: m is g.exit, None, edge)
        ctx.ob("run", "%s: until asked" % f.short, r is None, f.loc(), "a worker can end without being asked to")
        r = prune(g, [g.entry], lambda m: m is g.exit, lambda m: m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) == "set_stopped", None)
        ctx.ob("run", "%s: says so" % f.short, r is None, f.loc(), "a worker ends without saying so")
        # waiting for work looks at the request to stop
        for t in takes:
            lp = loop_of(g, t)
            ctx.ob("run", "%s: waiting ends" % f.short, lp is not None and self_loop(g, t, lambda m: m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) == "is_shutdown_requested" or runs(m)) is None, t.loc, "a worker waiting for work does not see that it is asked to end")


def origins_args(g, n):
    return [strip_cast(x) for x in args(n)]


def same(g, a, b):
    a, b = behind(g, a), behind(g, b)
    if a[0] == "u" and a[1] == "*":
        a = strip_cast(a[2])
    return a == b or a[0] == "v" and b[0] == "v" and a[2] == b[2]


# ---- handing work out

def put(ctx, p):
    fs = [f for f in p.funcs.values() if f.cls == "TaskScheduler" and f.kind != "ctor" and f.params and f.params[0]["t"].startswith("Task") and f.ret == "int"]
    tops = []
    for f in fs:
        g = Graph(p, f, lambda x, e, d: x.cls == f.cls and not x.virt, maxdepth=3)
        if V(g, "try_enqueue"):
            tops.append((f, g))
    ce, cr = p.callgraph()
    tops = [(f, g) for f, g in tops if any(p.funcs[c].cls != "TaskScheduler" for c in cr.get(f.id, ()) if c in p.funcs)]
    ctx.ob("put", "work is handed to a worker", bool(tops), "src/core/task.cpp:1", "work handed out is not put into any worker's queue")
    for f, g in tops:
        edge = stop_edge(g)
        got = lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "try_enqueue"
        isput = lambda m: m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) == "try_enqueue"
        first = [g.nodes[s] for n in g for s, l in n.succ if l and l[0] == "cond" and implies(g, l, got)]
        # never into a second queue
        qs = each_path(g, 3000, times=2)
        if qs is None:
            qs = each_path(g, 3000)
        if qs is None:
            raise AnalysisError("%s has too many paths" % f.short)
        bad = {}
        for q in qs:
            if q.end is not g.exit:
                continue
            tests = [(c[0], c[1]) for c in q.conds if len(c) == 2]
            if not possible(tests):
                continue
            puts = calls(q, "try_enqueue")
            won = [c for c, v in tests if v and c[0] == "c" and c[1].endswith("try_enqueue")]
            left = any(v and c[0] == "c" and c[1].endswith("is_shutdown_requested") for c, v in tests)
            if not won:
                if not left:
                    bad["kept"] = "work may be given up without being asked to stop"
                elif not (q.ret and const_term(q.ret) is not None and const_term(q.ret) < 0):
                    bad["told none"] = "work that was given up is answered as handed out"
                continue
            if len(won) > 1 or puts and puts[-1][1:4] != won[-1][1:4]:
                bad["once"] = "work may be put into two queues"
            w = won[-1][2]
            i = w[1] if w[0] == "m" else w
            while i[0] not in ("x",) and i[0] in ("m", "u"):
                i = i[1] if i[0] == "m" else i[2]
            if i[0] != "x" or q.ret is None or i[2] != q.ret:
                bad["told"] = "the worker answered is not the one the work went to"
            if won[-1][3] and won[-1][3][0] != ("v", f.params[0]["n"], (0, f.params[0]["id"])):
                bad["which"] = "not the work given is handed out"
            if len(f.params) > 1:
                pid = ("v", f.params[1]["n"], (0, f.params[1]["id"]))
                inr = any(v == (c[1] in ("<",)) for c, v in tests if c[0] == "b" and c[1] in ("<", ">=") and c[2] == pid and c[3][-1] == "m_thread_count" for _ in (0,))
                ge0 = not any((c[1] in (">=", ">") and not v or c[1] == "<" and v) for c, v in tests if c[0] == "b" and c[2] == pid and const_term(c[3]) in (0, -1))
                if inr and ge0 and i[0] == "x" and i[2] != pid:
                    bad["chosen"] = "work for one worker is given to another"
        for k in ("kept", "told none", "once", "told", "which", "chosen"):
            ctx.ob("put", "%s: %s" % (f.short, k), k not in bad, f.loc(), bad.get(k, ""))
        neg = lambda s, l: implies(g, l, lambda e, t: strip_cast(e)[0] == "b" and strip_cast(strip_cast(e)[2])[0] == "v" and strip_cast(strip_cast(e)[2])[3] == "l" and strip_cast(e)[1] in ("<", ">=") and const_of(strip_cast(e)[3]) == 0 and (strip_cast(e)[1] == "<") == t)
        r = paths(g).search(first, isput, stop_edge=neg) if first else True
        ctx.ob("put", "%s: no other queue" % f.short, r is None, f.loc(), "work already put into a queue may be put into another")
        # every worker is tried: the next one is taken whenever one is full, and after each success
        lps = [n for n in g if isput(n) and mentions_field(n.ev["e"], "TaskScheduler::m_next_worker")]
        for n in lps:
            moves = lambda m: writes_field(m, "TaskScheduler::m_next_worker")
            no = [g.nodes[s] for x in g for s, l in x.succ if l and l[0] == "cond" and implies(g, l, lambda e, t: not t and strip_cast(e)[0] == "c" and nm(e) == "try_enqueue" and mentions_field(e, "TaskScheduler::m_next_worker"))]
            r = paths(g).search(no, lambda m: m is n, stop=moves) if no else True
            ctx.ob("put", "%s: next" % f.short, r is None, n.loc, "a worker that has no room is tried again and again, and the others not")


def possible(tests):
    """not one that contradicts itself"""
    low, high = {}, {}
    for c, v in tests:
        if c[0] != "b" or c[1] not in ("<", "<=", ">", ">=", "==", "!="):
            continue
        op, a, b = c[1], c[2], c[3]
        if const_term(a) is not None:
            op, a, b = flip(op), b, a
        k = const_term(b)
        if k is None:
            continue
        if not v:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        x = const_term(a)
        if x is not None:
            if not {"<": x < k, "<=": x <= k, ">": x > k, ">=": x >= k, "==": x == k, "!=": x != k}[op]:
                return False
            continue
        if a[0] == "m" or a[0] == "b" and a[1] == "%":
            low.setdefault(a, 0)
        if op in ("<", "<=", "=="):
            high[a] = min(high.get(a, k), k - (op == "<"))
        if op in (">", ">=", "=="):
            low[a] = max(low.get(a, k), k + (op == ">"))
        if a in low and a in high and low[a] > high[a]:
            return False
    return True


def const_term(t):
    if t[0] == "i":
        return t[1]
    if t[0] == "u" and t[1] == "-" and t[2][0] == "i":
        return -t[2][1]
    return None


# ---- numbers of workers

COUNT = "TaskScheduler::m_thread_count"


def lookups(g):
    """(node, index) where a worker or thread is looked up"""
    out = []
    for n in g:
        if n.k == "sub":
            b = strip_cast(n.ev["e"][1])
            if b[0] == "m" and b[2] in ("TaskScheduler::m_workers", "TaskScheduler::m_threads"):
                out.append((n, strip_cast(n.ev["e"][2])))
        elif n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("operator[]", "at") and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "m" and strip_cast(n.ev["e"][2])[2] in ("TaskScheduler::m_workers", "TaskScheduler::m_threads"):
            out.append((n, strip_cast(n.ev["e"][3][0])))
    return out


def is_count(g, e):
    e = strip_cast(behind(g, e))
    return e[0] == "m" and e[2] == COUNT


def below(g, idx):
    """an edge that says idx < count"""
    def test(e, t):
        e = strip_cast(e)
        if e[0] != "b":
            return False
        op, a, b = e[1], strip_cast(e[2]), strip_cast(e[3])
        a = strip_cast(a[2]) if a[0] == "u" and a[1] == "++" else a
        if is_count(g, a) and b == idx:
            op, a, b = flip(op), b, a
        return a == idx and is_count(g, b) and ((op == "<" and t) or (op == ">=" and not t) or (op == "!=" and t) or (op == "==" and not t))
    return test


def kept_below(p, field):
    """is a field only ever given 0 or what is left by the count?"""
    for f in p.funcs.values():
        for ev in f.events():
            if ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m" and strip_cast(ev["lhs"])[2] == field:
                r = strip_cast(ev["rhs"]) if ev.get("rhs") is not None else None
                if ev["op"] == "=" and (const_of(r) == 0 or r[0] == "b" and r[1] == "%" and strip_cast(r[3])[0] == "m" and strip_cast(r[3])[2] == COUNT):
                    continue
                if ev["op"] == "=" and r[0] == "v":
                    g = Graph(p, f)
                    ds = common._defs(g).get((0, r[2]), ())
                    if ds and all(const_of(d) == 0 or strip_cast(d)[0] == "b" and strip_cast(d)[1] == "%" and is_count(g, strip_cast(d)[3]) for d in ds):
                        continue
                if ev["op"] == "++" or ev["op"] == "%=":
                    # counted up and wrapped at once
                    g = Graph(p, f)
                    ns = [n for n in g if n.k == "asg" and n.ev["op"] == "++" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["lhs"])[2] == field]
                    good = True
                    for n in ns:
                        wrap = lambda m: m.k == "asg" and writes_field(m, field) and m.ev["op"] in ("=", "%=")
                        inside = lambda s, l: implies(g, l, lambda e, t: below(g, strip_cast(n.ev["lhs"]))(e, t))
                        if paths(g).search(after(g, n), lambda m: m is g.exit or any(m is x for x, i in lookups(g)), stop=wrap, stop_edge=inside) is not None:
                            good = False
                    if good:
                        continue
                return "%s:%d" % (f.file, ev["l"])
    return None


def fixed(ctx, p):
    """arrays of listeners are looked up within their size"""
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls is None or not f.cls.endswith(("Server", "Listener")) or not f.file.startswith(("src/", "include/")):
            continue
        g = Graph(p, f)
        seen = set()
        found = {}
        for n in g:
            for x in [x for e in event_exprs(n) for x in walk(e)] + [x for s, l in n.succ if l and l[0] == "cond" for x in walk(l[1])]:
                if x[0] != "x" or strip_cast(x[1])[0] != "m":
                    continue
                m = re.search(r"\[(\d+)\]$", strip_cast(x[1])[3] or "")
                i = strip_cast(x[2])
                if not m or (n.id, x) in seen or i[0] != "v" or i[3] == "g":
                    continue
                seen.add((n.id, x))
                size = int(m[1])
                small = lambda e, t: bounded(e, t, i, size)
                if not any(bounded(e, t, i, None) for q in g for s, l in q.succ if l and l[0] == "cond" for e, t in truths(l)):
                    continue
                start = [g.entry] + [s for q in g if q.k == "asg" and strip_cast(q.ev["lhs"]) == i for s in after(g, q)]
                r = paths(g).search(start, lambda q: q is n, stop_edge=lambda s, l: implies(g, l, small))
                key = "%s: %s in %s" % (f.short, text_of(i), strip_cast(x[1])[2])
                if n.ev and n.ev.get("l") and (key not in found or found[key][0] and r is not None):
                    found[key] = (r is None, n.loc)
        for key, (ok, loc) in sorted(found.items()):
            ctx.ob("index", key, ok, loc, "a listener is looked up behind the end of their table")


def bounded(e, t, i, size):
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
        return False
    a, b, op = strip_cast(e[2]), const_of(e[3]), e[1]
    if b is None:
        a, b, op = strip_cast(e[3]), const_of(e[2]), {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
    if a != i or b is None:
        return False
    if not t:
        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
    if op not in ("<", "<="):
        return False
    n = b + (op == "<=")
    return n > 0 and (size is None or n <= size)


def index(ctx, p):
    fixed(ctx, p)
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls not in ("TaskScheduler", "TaskScheduler::Worker"):
            continue
        g = Graph(p, f)
        for n, i in lookups(g):
            what = "%s: %s" % (f.short, text_of(i))
            if i[0] == "m":
                r = kept_below(p, i[2])
                ctx.ob("index", what, r is None, n.loc, "the number of a worker may reach their count (set at %s)" % r)
                continue
            if const_of(i) is not None:
                ctx.ob("index", what, const_of(i) == 0, n.loc, "a fixed number of a worker")
                continue
            j = behind(g, i)
            if j[0] == "m" and i != j:
                r = kept_below(p, j[2])
                ctx.ob("index", what, r is None, n.loc, "the number of a worker may reach their count (set at %s)" % r)
                continue
            if i[0] != "v":
                ctx.ob("index", what, False, n.loc, "the number of a worker is not known to be below their count")
                continue
            if i[3] == "p" and not any(x for x in p.callgraph()[1].get(f.id, ())):
                continue        # not used
            start = [g.entry] + [s for m in g if m.k == "asg" and strip_cast(m.ev["lhs"]) == i for s in after(g, m)]
            ok = lambda s, l: implies(g, l, below(g, i))
            r = paths(g).search(start, lambda m: m is n, stop_edge=ok)
            if r is not None and i[3] == "p":
                # a helper: the number is tested where it is called
                r = None if callers_test(p, f, i) else r
            ctx.ob("index", what, r is None, n.loc, "a worker is looked up by a number that is not known to be below their count")
            if i[3] == "p" and i[4] == "int":
                neg = lambda s, l: implies(g, l, nonneg(i))
                r = paths(g).search(start, lambda m: m is n, stop_edge=neg)
                if r is not None:
                    r = None if callers_test(p, f, i, True) else r
                ctx.ob("index", what + " sign", r is None, n.loc, "a worker is looked up by a number that may be negative")


def nonneg(i):
    def test(e, t):
        e = strip_cast(e)
        if e[0] != "b":
            return False
        op, a, b = e[1], strip_cast(e[2]), strip_cast(e[3])
        if b == i:
            op, a, b = flip(op), b, a
        k = const_of(b)
        return a == i and k is not None and ((op == ">=" and t and k >= 0) or (op == ">" and t and k >= -1) or (op == "<" and not t and k >= 0) or (op == "<=" and not t and k >= -1))
    return test


def callers_test(p, f, i, sign=False):
    ce, cr = p.callgraph()
    pos = [k for k, x in enumerate(f.params) if x["n"] == i[1]]
    if not pos:
        return False
    cs = [p.funcs[c] for c in cr.get(f.id, ()) if c in p.funcs]
    if not cs:
        return False
    for h in cs:
        g = Graph(p, h)
        for n in g:
            if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] == f.id:
                a = strip_cast(n.ev["e"][3][pos[0]])
                b = behind(g, a)
                if b[0] == "m" and kept_below(p, b[2]) is None:
                    continue
                if a[0] != "v":
                    return False
                test = nonneg(a) if sign else below(g, a)
                starts = [g.entry] + [s for m in g if m.k == "asg" and strip_cast(m.ev["lhs"]) == a for s in after(g, m)]
                if sign and a[3] == "l" and all(const_of(d) is not None and const_of(d) >= 0 or strip_cast(d)[0] == "b" for d in common._defs(g).get(a[2], ())):
                    continue
                if paths(g).search(starts, lambda m: m is n, stop_edge=lambda s, l: implies(g, l, test)) is not None:
                    return False
    return True


# ---- threads of the scheduler

def counted_from_zero(g, n, idx):
    """is the index counted from 0 by ones, up to the count?"""
    i = strip_cast(idx)
    if i[0] != "v":
        return "not all workers are gone through"
    ds = [m.ev["init"] for m in g if m.k == "decl" and m.ev["id"] == i[2] and m.ev["init"] is not None] + [m.ev["rhs"] for m in g if m.k == "asg" and m.ev["op"] == "=" and strip_cast(m.ev["lhs"]) == i]
    steps = [m for m in g if m.k == "asg" and strip_cast(m.ev["lhs"]) == i and m.ev["op"] != "="]
    if steps and all(m.ev["op"] == "--" or m.ev["op"] == "-=" and const_of(m.ev["rhs"]) == 1 for m in steps):
        return counted_down(g, i, ds)
    if not any(const_of(d) == 0 for d in ds) or any(const_of(d) not in (None, 0) for d in ds):
        return "the first worker is left out"
    if not steps or any(m.ev["op"] != "++" and const_of(m.ev["rhs"]) != 1 for m in steps):
        return "workers are left out"
    return None


def counted_down(g, i, ds):
    """is the index counted down by ones to 0?"""
    low = lambda e, t: nonneg(i)(e, t) and strip_cast(e)[1] in (">=", "<") and const_of(strip_cast(e)[3]) == 0 or strip_cast(e)[0] == "b" and strip_cast(e)[1] in (">", "<=") and const_of(strip_cast(e)[3]) == -1
    tests = [strip_cast(e) for q in g for s, l in q.succ if l and l[0] == "cond" for e, t in truths(l) if strip_cast(e)[0] == "b"]
    mine = [e for e in tests if any(x == i for x in walk(e))]
    whole = lambda d: const_of(d) is not None or strip_cast(d)[0] == "b" and strip_cast(d)[1] == "-" and const_of(strip_cast(d)[3]) == 1
    if any(low(e, True) or low(e, False) for e in mine if strip_cast(e[2]) == i):
        return None if all(whole(d) for d in ds) else "the last worker is left out"
    if any(strip_cast(e[2])[0] == "u" and e[1] in (">", "!=") and const_of(e[3]) == 0 for e in mine):
        return None
    return "the first worker is left out"


def start(ctx, p):
    # the number of workers is what the room was made for
    made = False
    for f in p.funcs.values():
        if f.cls != "TaskScheduler":
            continue
        g = Graph(p, f, lambda x, e, d: x.cls == f.cls and not x.virt and x.short != "TaskScheduler::init", maxdepth=3)
        ls = lookups(g)
        begun = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1].startswith("std::thread::operator=") and strip_cast(n.ev["e"][2])[0] in ("x", "c")]
        if begun and any(n.frame == g.entry.frame for n in begun):
            made = True
            for n in begun:
                e = strip_cast(n.ev["e"][2])
                idx = e[2] if e[0] == "x" else e[3][0]
                why = counted_from_zero(g, n, idx) or each(g, [n])
                ctx.ob("start", "%s: each" % f.short, why is None, n.loc, why or "")
                k = strip_cast(n.ev["e"][3][0])
                a = [strip_cast(x) for x in k[3]] if k[0] == "k" else []
                fn = [x for y in a for x in walk(y) if x[0] == "fn"]
                ws = {h.id for h, _ in work_graphs(p)}
                ctx.ob("start", "%s: runs work" % f.short, any(x[1] in ws for x in fn), n.loc, "the thread does not run the work of a worker")
                # the worker of that thread is the one in the same place
                who = a[1] if len(a) > 1 else ("n",)
                sets = [m for m in g if m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "x" and strip_cast(strip_cast(m.ev["lhs"])[1])[0] == "m" and strip_cast(strip_cast(m.ev["lhs"])[1])[2] == "TaskScheduler::m_workers"]
                ok = any(strip_cast(strip_cast(m.ev["lhs"])[2]) == strip_cast(idx) and (behind(g, m.ev["rhs"]) == behind(g, who)) for m in sets) or who[0] == "x" and strip_cast(who[2]) == strip_cast(idx)
                ctx.ob("start", "%s: its worker" % f.short, ok, n.loc, "the thread works for another worker than the one kept in its place")
                r = [m for m in sets if self_loop(g, n, lambda x: x is m) is None and paths(g).search([g.entry], lambda x: x is n, stop=lambda x: x is m) is None]
                ctx.ob("start", "%s: worker first" % f.short, bool(r), n.loc, "a thread is started before its worker is in place")
            for n in g:
                if n.k == "new" and n.ev["e"][1] == "std::thread":
                    ctx.ob("start", "%s: room for threads" % f.short, n.ev["e"][3] is not None and is_count(g, n.ev["e"][3]), n.loc, "the room made for threads is not that of their count")
                if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["lhs"])[2] == "TaskScheduler::m_workers":
                    m = [x for x in walk(behind(g, n.ev["rhs"])) if x[0] == "c" and nm(x) in ("malloc", "calloc")] + [x for x in walk(behind(g, n.ev["rhs"])) if x[0] == "new"]
                    ok = any(is_count(g, y) for x in m for y in walk(x))
                    ctx.ob("start", "%s: room for workers" % f.short, ok or not m, n.loc, "the room made for workers is not that of their count")
                    for x in m:
                        if x[0] == "c" and nm(x) == "malloc":
                            pr = strip_cast(x[3][0])
                            ctx.ob("start", "%s: size of workers" % f.short, pr[0] == "b" and pr[1] == "*" and any((const_of(y) or 0) >= 8 for y in pr[2:4]), n.loc, "the room made for workers is too small")
        name = f.short.split("::")[-1]
        if name == "shutdown":
            asked = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1].split("(")[0].endswith("Worker::shutdown")]
            why = each(g, asked) or (counted_from_zero(g, asked[0], [x for x in walk(asked[0].ev["e"]) if x[0] == "x"][0][2]) if [x for x in walk(asked[0].ev["e"]) if x[0] == "x"] else None) if asked else "it is not done"
            ctx.ob("start", "%s: asks each" % f.short, why is None, f.loc(), "not every worker is asked to stop: %s" % why)
            r = paths(g).search([g.entry], lambda m: m is g.exit, stop=lambda m: m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1].startswith("Stoppable::shutdown"))
            ctx.ob("start", "%s: itself" % f.short, r is None, f.loc(), "work is still handed out after being asked to stop")
        if name == "wait":
            js = V(g, "join", "detach")
            why = each(g, js) if js else "it is not done"
            if why is None:
                xs = [x for n in js for x in walk(n.ev["e"]) if x[0] == "x"]
                why = counted_from_zero(g, js[0], xs[0][2]) if xs else None
            ctx.ob("start", "%s: each" % f.short, why is None, f.loc(), "not every thread is waited for: %s" % why)
            mine = lambda e, t: mentions_global(e, "g_handler_thread_id") and (strip_cast(e)[0] == "c" and (nm(e) == "operator==") == t or strip_cast(e)[0] == "b" and (strip_cast(e)[1] == "==") == t)
            for n in [m for m in js if nm(m.ev["e"]) == "detach"]:
                r = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: implies(g, l, mine))
                ctx.ob("start", "%s: let go" % f.short, r is None, n.loc, "a thread is let go instead of waited for, though it can end")
            for n in [m for m in js if nm(m.ev["e"]) == "join"]:
                lp = loop_of(g, n)
                first = [x for x in after(g, g.entry)]
                notme = lambda e, t: mine(e, not t)
                r = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: implies(g, l, notme))
                ctx.ob("start", "%s: not itself" % f.short, r is None, n.loc, "the thread that is in trouble is waited for, which never ends")
    ctx.ob("start", "threads are started", made, "src/core/task.cpp:1", "no threads are started for the workers")
    for f in p.funcs.values():
        if f.short == "TaskScheduler::Worker::shutdown":
            g = Graph(p, f, lambda x, e, d: x.cls == f.cls and not x.virt, maxdepth=2)
            r = paths(g).search([g.entry], lambda m: m is g.exit, stop=lambda m: m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1].startswith("Stoppable::shutdown") and strip_cast(m.ev["e"][2])[0] == "t")
            ctx.ob("start", "%s" % f.short, r is None, f.loc(), "a worker asked to stop does not notice")


# ---- the timer

def timer(ctx, p):
    subs = []
    ce, cr = p.callgraph()
    for f in p.funcs.values():
        if f.cls != "Timer" and not f.short.startswith("Timer::"):
            continue
        g = Graph(p, f, lambda x, e, d: (x.cls in ("Timer", "TimedTask")) and not x.virt, maxdepth=3)
        hands = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1].startswith("TaskScheduler::submit_task")]
        if hands and not any(p.funcs[c].cls == "Timer" for c in cr.get(f.id, ()) if c in p.funcs):
            subs.append((f, g, hands))
    ctx.ob("timer", "what is due is handed out", bool(subs), "src/utils/timer.cpp:1", "the timer hands out nothing")
    NEXT, FREQ, NEW, HAS, LIST = "TimedTask::m_next_run", "TimedTask::m_freq_sec", "Timer::m_new_tasks", "Timer::m_has_new", "Timer::m_tasks"
    for f, g, hands in subs:
        edge = stop_edge(g)
        clock = lambda e: any(x[0] == "c" and nm(x) in ("ts_now_sec", "time") for o in origins(g, e) | {behind(g, e)} for x in walk(o))
        def due(want):
            def test(e, t):
                e = strip_cast(e)
                if e[0] != "b" or e[1] not in ("<", "<=", ">", ">="):
                    return False
                op, a, b = e[1], strip_cast(behind(g, e[2])), strip_cast(behind(g, e[3]))
                if b[0] == "m" and b[2] == NEXT:
                    op, a, b = flip(op), b, a
                if a[0] != "m" or a[2] != NEXT or not clock(b):
                    return False
                return ((op == "<=" and t) or (op == ">" and not t)) if want else ((op == "<=" and not t) or (op == ">" and t))
            return test
        for n in hands:
            r = paths(g).search([g.entry] + after(g, n), lambda m: m is n, stop_edge=lambda s, l: implies(g, l, due(True)))
            ctx.ob("timer", "%s: when due" % f.short, r is None, n.loc, "work is handed out before its time")
            a = strip_cast(behind(g, args(n)[0]))
            ctx.ob("timer", "%s: its work" % f.short, a[0] == "m" and a[2] == "TimedTask::m_task", n.loc, "not the work that is due is handed out")
            # set the next time: now + frequency
            moves = [m for m in g if m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "m" and strip_cast(m.ev["lhs"])[2] == NEXT]
            lp = loop_of(g, n)
            good = []
            for m in moves:
                r = strip_cast(behind(g, m.ev["rhs"]))
                base = strip_cast(m.ev["lhs"])[1]
                fine = m.ev["op"] == "=" and r[0] == "b" and r[1] == "+" and any(clock(x) and not mentions_field(x, FREQ) for x in r[2:4]) and any(strip_cast(x)[0] == "m" and strip_cast(x)[2] == FREQ and same(g, strip_cast(x)[1], base) for x in r[2:4])
                ctx.ob("timer", "%s: next time" % f.short, fine, m.loc, "the next time is not a whole period from now")
                if a[0] == "m" and same(g, base, a[1]):
                    good.append(m)
            back = lambda m: lp is not None and m.id == lp[0]
            before = lambda m: m in good
            r = paths(g).search(after(g, n), lambda m: m is g.exit or back(m), stop=before)
            if r is not None and good:
                # set before it is handed out
                first = [g.nodes[s] for x in g for s, l in x.succ if implies(g, l, due(True))]
                r = paths(g).search(first, lambda m: m is n, stop=before)
            ctx.ob("timer", "%s: next time set" % f.short, r is None and bool(good), n.loc, "work handed out stays due, and is handed out again at once")
            why = each(g, [n], excuse=lambda s, l: implies(g, l, due(False)) or edge(s, l), leave=lambda s, l: edge(s, l))
            ctx.ob("timer", "%s: all that is due" % f.short, why is None, n.loc, "not all that is due is handed out: %s" % why)
            # the time looked at is that of this round
            outer = [(h, b) for h, b in loops(g) if n.id in b]
            if outer:
                h, b = outer[-1]
                ctx.ob("timer", "%s: the time" % f.short, any(m.id in b and m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("ts_now_sec", "time") for m in g), n.loc, "the time is looked at only once")
        r = paths(g).search([g.entry], lambda m: m is g.exit, stop_edge=edge)
        ctx.ob("timer", "%s: goes on" % f.short, r is None, f.loc(), "the timer ends without being asked to")
        # what is new is taken on
        takes = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "m" and strip_cast(n.ev["e"][2])[2] == LIST and nm(n.ev["e"]) in ("insert", "push_back", "emplace_back")]
        takes += [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("copy", "move") and mentions_field(n.ev["e"], LIST) and mentions_field(n.ev["e"], NEW)]
        clears = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "m" and strip_cast(n.ev["e"][2])[2] == NEW and nm(n.ev["e"]) in ("clear", "swap", "erase")]
        none = lambda s, l: implies(g, l, lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "empty" and mentions_field(e, NEW))
        off = [n for n in g if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["lhs"])[2] == HAS and const_of(n.ev["rhs"]) == 0]
        notnew = lambda s, l: implies(g, l, lambda e, t: not t and strip_cast(e)[0] == "m" and strip_cast(e)[2] == HAS)
        locks = lambda n: n.k == "decl" and "guard" in n.ev["t"] or n.k == "decl" and "unique_lock" in n.ev["t"]
        moved = lambda m: m in takes
        if takes and all(nm(n.ev["e"]) in ("push_back", "emplace_back") for n in takes):
            # one by one: the loop runs over all of them
            lp = loop_of(g, takes[0])
            why = each(g, takes)
            ctx.ob("timer", "%s: all new" % f.short, why is None, takes[0].loc, "not all new work is taken on: %s" % why)
            moved = lambda m: lp is not None and m.id == lp[0]
        elif takes:
            n = takes[0]
            beg = any(x[0] == "c" and nm(x) in ("begin", "cbegin") and mentions_field(x, NEW) for x in walk(n.ev["e"]))
            end = any(x[0] == "c" and nm(x) in ("end", "cend") and mentions_field(x, NEW) for x in walk(n.ev["e"]))
            ctx.ob("timer", "%s: all new" % f.short, beg and end, n.loc, "not all new work is taken on")
        for n in clears:
            r = paths(g).search([g.entry] + [x for m in g if locks(m) for x in after(g, m)], lambda m: m is n, stop=moved, stop_edge=none)
            ctx.ob("timer", "%s: taken before dropped" % f.short, r is None, n.loc, "new work is dropped before it is taken on")
        for n in takes:
            r = paths(g).search(after(g, n), lambda m: m in takes and m is n or m.k == "dtor" and "guard" in m.ev["t"], stop=lambda m: m in clears or moved(m) and m is not n)
            lp = loop_of(g, n)
            ctx.ob("timer", "%s: taken once" % f.short, bool(clears) and paths(g).search(after(g, n), lambda m: m.k == "dtor" and "guard" in m.ev["t"], stop=lambda m: m in clears) is None, n.loc, "new work is taken on again and again")
        for n in off:
            r = paths(g).search([x for m in g if locks(m) for x in after(g, m)], lambda m: m is n, stop=moved, stop_edge=none)
            r2 = paths(g).search([g.entry], lambda m: m is n, stop=locks)
            ctx.ob("timer", "%s: nothing forgotten" % f.short, r is None and r2 is None, n.loc, "it is forgotten that there is new work, without taking it on")
        # each round takes on what is new, unless there is nothing
        if hands:
            r = paths(g).search([g.entry], lambda m: m in hands, stop=moved, stop_edge=lambda s, l: none(s, l) or notnew(s, l))
            ctx.ob("timer", "%s: new work" % f.short, r is None, f.loc(), "new work is not taken on")
    for f in p.funcs.values():
        if f.short != "Timer::add_task":
            continue
        g = Graph(p, f, lambda x, e, d: x.cls == "Timer" and not x.virt, maxdepth=2)
        puts = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "m" and strip_cast(n.ev["e"][2])[2] == NEW and nm(n.ev["e"]) in ("push_back", "emplace_back", "insert")]
        r = paths(g).search([g.entry], lambda m: m is g.exit, stop=lambda m: m in puts)
        ctx.ob("timer", "%s: kept" % f.short, r is None, f.loc(), "new work is not kept for the timer")
        on = lambda m: m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "m" and strip_cast(m.ev["lhs"])[2] == HAS and const_of(m.ev["rhs"]) == 1
        if any(k.k == "asg" and writes_field(k, HAS) for k in g) or any(HAS in str(ev) for x in p.funcs.values() if x.cls == "Timer" for ev in x.events()):
            r = paths(g).search([g.entry], lambda m: m is g.exit, stop=on)
            ctx.ob("timer", "%s: told" % f.short, r is None, f.loc(), "the timer is not told about new work")
        for n in [n for n in g if n.k == "ctor" and n.ev["e"][1] == "TimedTask" and len(n.ev["e"][3]) == len(f.params)]:
            ok = all(strip_cast(a)[0] == "v" and strip_cast(a)[1] == q["n"] for a, q in zip(n.ev["e"][3], f.params))
            ctx.ob("timer", "%s: as given" % f.short, ok, n.loc, "new work is not kept as it was given")
    for f in p.funcs.values():
        if f.short == "TimedTask::<ctor>" and len(f.params) >= 2:
            g = Graph(p, f)
            for n in g:
                if n.k == "init" and n.ev["f"] == NEXT:
                    e = n.ev["e"]
                    fr = [q["n"] for q in f.params if q["t"] == "int"]
                    ok = any(x[0] == "c" and nm(x) in ("ts_now_sec", "time") for x in walk(e)) and not any(x[0] == "c" and nm(x) in ("ts_now_ms", "ts_now") for x in walk(e)) and not any(x[0] == "b" and x[1] == "*" for x in walk(e))
                    ctx.ob("timer", "first time", ok, n.loc, "the first time of new work is not within a period from now")
                if n.k == "init" and n.ev["f"] == FREQ:
                    e = strip_cast(n.ev["e"])
                    ctx.ob("timer", "period kept", e[0] == "v" and e[3] == "p", n.loc, "the period of new work is not kept as given")


# ---- copies

def copies(ctx, p):
    for cls in ("Task", "TaskData", "TimedTask"):
        rec = p.records.get(cls)
        fields = [x["n"] if isinstance(x, dict) else x[0] for x in rec["fields"]] if rec else []
        for f in p.funcs.values():
            if f.cls != cls or len(f.params) != 1 or not f.params[0]["t"].startswith("const %s &" % cls):
                continue
            if f.kind != "ctor" and not f.short.endswith("operator="):
                continue
            g = Graph(p, f, lambda x, e, d: x.cls == cls and not x.virt, maxdepth=2)
            par = f.params[0]["n"]
            def frm(e):
                e = strip_cast(e)
                while e[0] == "k" and len(e[3]) == 1:
                    e = strip_cast(e[3][0])
                return e[2].split("::")[-1] if e[0] == "m" and strip_cast(e[1])[0] == "v" and strip_cast(e[1])[1] == par else None
            done = {}
            for n in g:
                if n.k == "init":
                    done[n.ev["f"].split("::")[-1]] = frm(n.ev["e"])
                elif n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m":
                    done[strip_cast(n.ev["lhs"])[2].split("::")[-1]] = frm(n.ev["rhs"])
                elif n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "operator=" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "m":
                    done[strip_cast(n.ev["e"][2])[2].split("::")[-1]] = frm(n.ev["e"][3][0])
            whole = any(n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "operator=" and any(strip_cast(a)[0] == "v" and strip_cast(a)[1] == par for a in n.ev["e"][3]) for n in g) and f.kind == "ctor"
            for x in fields:
                ctx.ob("copy", "%s: %s" % (f.id, x), whole or done.get(x) == x, f.loc(), "copying work leaves out or mixes up part of it (%s)" % x)
        if cls == "Task":
            for f in p.funcs.values():
                if f.short == "Task::<ctor>" and not f.params:
                    g = Graph(p, f)
                    ok = any(n.k == "init" and n.ev["f"] == "Task::doit" and strip_cast(n.ev["e"])[0] == "n" or n.k == "asg" and writes_field(n, "Task::doit") and strip_cast(n.ev["rhs"])[0] == "n" for n in g)
                    ctx.ob("copy", "new work is empty", ok, f.loc(), "new work does not start out empty")


# ---- jobs

def jobs(ctx, p):
    used = set()
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if not f.file.startswith(("src/", "include/")):
            continue
        evs = [ev for ev in f.events() if ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][1].split("(")[0] in ("Timer::add_task", "TaskScheduler::submit_task", "TaskScheduler::submit_task_to_all")]
        if not evs or f.cls in ("Timer", "TaskScheduler"):
            continue
        g = Graph(p, f, lambda x, e, d: not x.virt and x.ret in ("Task", "Task &") and x.file.startswith(("src/", "include/")), maxdepth=2)
        for n in g:
            if n.k != "call" or n.ev["e"][0] != "c" or n.ev["e"][1].split("(")[0] not in ("Timer::add_task", "TaskScheduler::submit_task", "TaskScheduler::submit_task_to_all"):
                continue
            a = strip_cast(args(n)[0])
            if a[0] == "u" and a[1] == "*":
                continue
            what = "%s: %s" % (f.short, literal_of(args(n)) or nm(n.ev["e"]))
            if a[0] == "v" and a[3] == "l":
                names = {}
                sets = lambda m: m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "m" and strip_cast(m.ev["lhs"])[2] == "Task::doit" and any(x[0] == "fn" or x[0] == "m" or x[0] == "v" for x in walk(m.ev["rhs"])) and strip_cast(m.ev["rhs"])[0] != "n"
                got = lambda m: m.k == "decl" and m.ev["id"] == a[2] and m.ev.get("init") is not None and filled(p, g, m.ev["init"])
                r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: sets(m) or got(m))
                ctx.ob("job", what, r is None, n.loc, "work is handed out without a function to run")
                # not the same function again: a second job made from the same variable
                prev = [m for m in g if m is not n and m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1].split("(")[0] == "Timer::add_task" and strip_cast(args(m)[0]) == a]
                if nm(n.ev["e"]) == "add_task":
                    r = paths(g).search([x for m in prev for x in after(g, m)], lambda m: m is n, stop=sets) if prev else None
                    ctx.ob("job", what + " own", r is None, n.loc, "the function of the job before is run instead of this one's")
            if nm(n.ev["e"]) == "add_task":
                fr = args(n)[1]
                k = const_of(fr)
                if k is not None:
                    ctx.ob("job", what + " period", k > 0, n.loc, "a job without a period")
                    continue
                gt = [x for o in origins(g, fr) | {behind(g, fr)} for x in walk(o) if x[0] == "c" and nm(x) == "get_time"]
                units = [strip_cast(x[3][1]) for x in gt]
                ctx.ob("job", what + " unit", all(len(u) > 2 and str(u[2]).split("::")[-1] == "SEC" or u[0] != "i" for u in units), n.loc, "the period of a job is not in seconds")
    # work that can be handed out is handed out, or called
    sig = [f for f in p.funcs.values() if f.ret == "bool" and len(f.params) == 1 and f.params[0]["t"] == "TaskData &" and f.cls]
    ce, cr = p.callgraph()
    refs = {x[1] for f in p.funcs.values() for ev in f.events() for e in ev.values() if isinstance(e, tuple) for x in walk(e) if x[0] == "fn"}
    for f in sorted(sig, key=lambda f: f.id):
        ctx.ob("job", "%s is used" % f.short, f.id in refs or bool([c for c in cr.get(f.id, ()) if c != f.id]), f.loc(), "periodic work that is never handed out")
    # the work that keeps the data safe is done by the timer
    for t in ("Tsdb::rotate", "AppendLog::flush_all", "Tsdb::rollup", "Tsdb::archive_ts"):
        for f in [x for x in sig if x.short == t]:
            ctx.ob("job", "%s by the timer" % t, any(f.id == x[1] for h in p.funcs.values() if any(ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][1].startswith("Timer::add_task") for ev in h.events()) for ev in h.events() for e in ev.values() if isinstance(e, tuple) for x in walk(e) if x[0] == "fn") or handed(p, f), f.loc(), "it is not handed to the timer")


def handed(p, f):
    """set as the function of a piece of work somewhere"""
    return any(ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m" and strip_cast(ev["lhs"])[2] == "Task::doit" and any(x[0] == "fn" and x[1] == f.id for x in walk(ev["rhs"])) for h in p.funcs.values() for ev in h.events())


def filled(p, g, e):
    e = strip_cast(e)
    while e[0] == "k" and len(e[3]) == 1:
        e = strip_cast(e[3][0])
    if e[0] != "c":
        return False
    fs = [f for f in p.funcs.values() if f.id == e[1]]
    over = [h for f in fs for h in [f] + [x for x in p.funcs.values() if x.short.split("::")[-1] == f.short.split("::")[-1] and x.ret == "Task"]]
    return bool(over) and all(any(ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m" and strip_cast(ev["lhs"])[2] == "Task::doit" for ev in h.events()) for h in over)


def literal_of(a):
    for x in a:
        for y in walk(x):
            if y[0] == "s":
                return y[1]
    return None


# ---- asking to stop

def asked(ctx, p):
    for f in p.funcs.values():
        if f.cls != "Stoppable":
            continue
        g = Graph(p, f, lambda x, e, d: x.cls == "Stoppable", maxdepth=2)
        REQ, STOP = "Stoppable::m_shutdown_request", "Stoppable::m_stopped"
        name = f.short.split("::")[-1]
        stores = lambda fld, val: (lambda m: m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("store", "operator=") and m.ev["e"][2] is not None and mentions_field(m.ev["e"][2], fld) and val(strip_cast(m.ev["e"][3][0])))
        if name == "shutdown":
            r = paths(g).search([g.entry], lambda m: m is g.exit, stop=stores(REQ, lambda v: v[0] == "v" and v[3] == "p"))
            ctx.ob("ask", f.short, r is None, f.loc(), "a request to stop is not kept")
        elif name == "set_stopped":
            r = paths(g).search([g.entry], lambda m: m is g.exit, stop=stores(STOP, lambda v: const_of(v) == 1))
            ctx.ob("ask", f.short, r is None, f.loc(), "having stopped is not kept")
        elif name == "is_shutdown_requested":
            for n in g:
                if n.k == "ret" and n.ev.get("e") is not None and n.frame == g.entry.frame:
                    e = strip_cast(behind(g, n.ev["e"]))
                    ok = e[0] == "b" and e[1] == "!=" and any(mentions_field(x, REQ) for x in e[2:4]) and any(const_of(x) == 0 for x in e[2:4]) or e[0] == "b" and e[1] == ">" and mentions_field(e[2], REQ) and const_of(e[3]) == 0
                    if const_of(e) is not None:
                        # answered by a condition
                        want = bool(const_of(e))
                        none = lambda x, t: strip_cast(x)[0] == "b" and strip_cast(x)[1] in ("==", "!=") and any(mentions_field(y, REQ) for y in strip_cast(x)[2:4]) and any(const_of(y) == 0 for y in strip_cast(x)[2:4]) and ((strip_cast(x)[1] == "==") == t) == (not want)
                        ok = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: implies(g, l, none)) is None
                    ctx.ob("ask", f.short, ok, n.loc, "a request to stop is not seen")
        elif name == "is_stopped":
            for n in g:
                if n.k == "ret" and n.ev.get("e") is not None and n.frame == g.entry.frame:
                    e = strip_cast(behind(g, n.ev["e"]))
                    ctx.ob("ask", f.short, mentions_field(e, STOP) and e[0] != "u", n.loc, "having stopped is not told")


# ---- threads end before what they use

def joined(ctx, p):
    """threads kept in a field: the classes, and the functions that wait for them"""
    ce, cr = p.callgraph()
    began, waits = {}, {}
    def field_of(e):
        for x in walk(e):
            if x[0] == "m" and x[3].replace("*", "").strip() in ("std::thread", "std::vector<std::thread>"):
                return x[2]
        return None
    for f in p.funcs.values():
        if not f.file.startswith(("src/", "include/")):
            continue
        for ev in f.events():
            if ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][2] is not None and ev["e"][1].startswith("std::thread::"):
                x = field_of(ev["e"][2])
                if x is None and strip_cast(ev["e"][2])[0] == "v":
                    for o in [y.get("init") for y in f.events() if y["k"] == "decl" and y["id"] == strip_cast(ev["e"][2])[2] and y.get("init") is not None]:
                        x = field_of(o)
                if x is None:
                    continue
                if ev["e"][1].startswith("std::thread::operator="):
                    began.setdefault(x, []).append((f, ev))
                elif nm(ev["e"]) == "join":
                    waits.setdefault(x, set()).add(f.id)
            if ev["k"] == "init" and ev["f"] and "thread" in ev["f"].lower() and any(x[0] == "fn" for x in walk(ev["e"])):
                began.setdefault(ev["f"], []).append((f, ev))
    mains = [f for f in p.funcs.values() if f.short == "main" or f.short.endswith(":main")]
    mains = [f for f in mains if f.file == "src/main.cpp"]
    if not mains:
        raise AnalysisError("main not found")
    main = mains[0]
    virt = lambda ids: {x for x in ids}
    for fd in sorted(began):
        f, ev = began[fd][0]
        ws = waits.get(fd, set())
        ctx.ob("join", "%s is waited for" % fd, bool(ws), f.loc(ev["l"]), "a thread is started that nothing waits for: it may still use what is being taken down")
        # the thread looks at whether it is to end
        for f, ev in began[fd]:
            for x in walk(ev["e"]):
                if x[0] == "fn" and x[1] in p.funcs:
                    h = p.funcs[x[1]]
                    g = Graph(p, h, lambda y, e, d: y.cls == h.cls and not y.virt, maxdepth=2)
                    looks = lambda m: m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) in ("is_shutdown_requested",) or any(shutdown_flag(y) for e in event_exprs(m) for y in walk(e)) or any(y[0] == "m" and y[2].endswith("m_stop_requested") for e in event_exprs(m) for y in walk(e))
                    outer = [(hd, b) for hd, b in loops(g)]
                    big = [(hd, b) for hd, b in outer if not any(b < b2 for _, b2 in outer)]
                    big = sorted(big, key=lambda x: -len(x[1]))[:1]
                    ok = all(any(looks(g.nodes[y]) for y in b) for hd, b in big)
                    ctx.ob("join", "%s ends when asked" % h.short, ok, h.loc(), "a thread does not look at whether it is to end")
    # in main: what was started is waited for before the data is taken down
    waiters = callers_up(p, {x for s in waits.values() for x in s})
    g = Graph(p, main, lambda x, e, d: x.file == "src/main.cpp" and not x.virt, maxdepth=3)
    downs = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1].split("(")[0] == "Tsdb::shutdown"]
    ctx.ob("join", "the data is taken down", bool(downs), main.loc(), "the data is not put away at the end")
    starts = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "start" and n.ev["e"][2] is not None]
    for n in starts:
        o = strip_cast(n.ev["e"][2])
        if o[0] != "v":
            continue
        cls = o[4].replace("&", "").replace("*", "").strip()
        fam = {cls} | set(bases(p, cls))
        def ended(m):
            if m.k != "call" or m.ev["e"][0] != "c" or m.ev["e"][2] is None:
                return False
            x = strip_cast(m.ev["e"][2])
            return x[0] == "v" and x[2] == o[2] and nm(m.ev["e"]) != "start" and (m.ev["e"][1] in waiters or any(h.id in waiters for h in p.funcs.values() if h.cls in fam and h.short.split("::")[-1] == nm(m.ev["e"])))
        r = [d for d in downs if paths(g).search(after(g, n), lambda m: m is d, stop=ended) is not None]
        ctx.ob("join", "%s before the data" % o[1], not r, n.loc, "its threads may still be at work when the data is put away")
        # a server is asked to stop before it is waited for, or waited for until someone asks
    timers = lambda m: m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1].startswith("Timer::") and m.ev["e"][1] in waiters
    for d in downs:
        r = paths(g).search([g.entry], lambda m: m is d, stop=timers)
        ctx.ob("join", "timer before the data", r is None, d.loc, "the timer's threads may still be at work when the data is put away")
    logs = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1].split("(")[0] == "Logger::close"]
    for n in logs:
        r = paths(g).search(after(g, n), lambda m: m in downs or timers(m))
        ctx.ob("join", "log last", r is None, n.loc, "the log is closed while it is still needed")
    cfg = [n for n in g if n.k == "del" and mentions_call(n.ev["e"], "Config::inst") or n.k == "del" and "Config" in str(n.ev["e"])]
    for n in cfg:
        r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m in downs)
        ctx.ob("join", "configuration last", r is None, n.loc, "the configuration is taken down before the data is put away")
    # who waits has asked before
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls != "Timer":
            continue
        g2 = Graph(p, f, lambda x, e, d: x.cls == "Timer" and not x.virt, maxdepth=2)
        js = [n for n in g2 if n.k == "call" and n.ev["e"][0] == "c" and (nm(n.ev["e"]) == "join" or n.ev["e"][1].startswith("TaskScheduler::wait"))]
        for n in js:
            if nm(n.ev["e"]) == "join":
                asks_ = lambda m: m.k == "call" and m.ev["e"][0] == "c" and nm(m.ev["e"]) == "shutdown" and strip_cast(m.ev["e"][2])[0] == "t"
            else:
                asks_ = lambda m: m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1].startswith("TaskScheduler::shutdown")
            r = paths(g2).search([g2.entry], lambda m: m is n, stop=asks_)
            ctx.ob("join", "%s asks before %s" % (f.short, nm(n.ev["e"])), r is None, n.loc, "a thread is waited for that was not asked to end")
        if js and f.short == "Timer::stop":
            for what in ("join", "wait"):
                un = lambda s, l: implies(g2, l, lambda e, t: not t and strip_cast(e)[0] == "c" and nm(e) == "joinable")
                r = paths(g2).search([g2.entry], lambda m: m is g2.exit, stop=lambda m: m in js and nm(m.ev["e"]) == what, stop_edge=un)
                ctx.ob("join", "%s: %s" % (f.short, what), r is None, f.loc(), "stopping the timer does not wait for its threads")
    # servers pass the request on to every listener, and wait for every one
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls in ("TcpServer", "UdpServer") and f.short.split("::")[-1] in ("shutdown", "wait"):
            g2 = Graph(p, f, lambda x, e, d: x.cls == f.cls and not x.virt, maxdepth=2)
            what = f.short.split("::")[-1]
            ns = [n for n in g2 if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == what and "Listener" in typeof(g2, n.ev["e"][2])]
            why = each(g2, ns, excuse=lambda s, l: implies(g2, l, null_test)) if ns else "it is not done"
            if why is None:
                for x in [y for y in walk(ns[0].ev["e"]) if y[0] == "x"]:
                    i = strip_cast(x[2])
                    why = why or (counted_from_zero(g2, ns[0], i) if i[0] == "v" else None)
            ctx.ob("join", "%s: each listener" % f.short, why is None, f.loc(), "not every listener is %s: %s" % ("asked to stop" if what == "shutdown" else "waited for", why))
        if f.cls in ("TcpListener", "UdpListener") and f.short.split("::")[-1] in ("shutdown", "wait"):
            g2 = Graph(p, f, lambda x, e, d: x.cls == f.cls and not x.virt, maxdepth=2)
            what = f.short.split("::")[-1]
            need = [("m_listener", "join")] if what == "wait" else [("", "Stoppable::shutdown")]
            if any(x[0] == "m" and x[2].endswith("::m_responders") for h in p.funcs.values() if h.cls == f.cls for ev in h.events() for e in ev.values() if isinstance(e, tuple) for x in walk(e)):
                need.append(("m_responders", what))
            for fd, fn in need:
                un = lambda s, l: implies(g2, l, lambda e, t: not t and strip_cast(e)[0] == "c" and nm(e) == "joinable")
                did = lambda m: m.k == "call" and m.ev["e"][0] == "c" and (m.ev["e"][1].startswith(fn) if "::" in fn else nm(m.ev["e"]) == fn and any(x[0] == "m" and x[2].endswith(fd) for x in walk(m.ev["e"][2] or ("n",))))
                r = paths(g2).search([g2.entry], lambda m: m is g2.exit, stop=did, stop_edge=un)
                ctx.ob("join", "%s: %s %s" % (f.short, fn, fd), r is None, f.loc(), "%s" % ("a thread of the listener is not waited for" if what == "wait" else "a listener asked to stop does not notice"))


def typeof(g, e):
    e = strip_cast(e) if e is not None else ("n",)
    if e[0] == "x":
        return typeof(g, e[1])
    if e[0] == "v":
        return e[4]
    if e[0] == "m":
        return e[3]
    if e[0] == "c":
        return e[1]
    return ""


def bases(p, cls):
    out = []
    for x in p.records:
        if cls in p.subclasses_of(x):
            out.append(x)
    return out


def text_of(e):
    if e[0] == "v":
        return e[1]
    if e[0] == "m":
        return e[2].split("::")[-1]
    return str(e[1]) if e[0] == "i" else "expression"
