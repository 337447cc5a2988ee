"""Predicates on graph nodes and the rule templates shared by the properties."""
from ir import *
from flow import *

NO_INLINE_FILES = ("include/tsl", "src/utils/logger", "include/logger", "src/utils/config", "include/config",
                   "src/utils/stats", "include/stats", "include/tag.h", "src/utils/tag")


def inliner(extra=(), skip=(), only=None, maxlen=400):
    """inline every small function of the repository except plumbing"""
    def f(fn, e, d):
        if fn.file.startswith(NO_INLINE_FILES):
            return False
        if fn.short in skip:
            return False
        if only is not None:
            return fn.short in only
        return fn.end - fn.line < maxlen
    return f


def reach_inliner(p, targets, skip=(), maxdepth=12):
    """inline callees from which one of the target functions/constructs is reachable"""
    ce, cr = p.callgraph()
    up = set()
    todo = list(targets)
    while todo:
        x = todo.pop()
        for c in cr.get(x, ()):
            if c not in up:
                up.add(c)
                todo.append(c)
    def f(fn, e, d):
        return fn.id in up and not fn.file.startswith(NO_INLINE_FILES) and fn.short not in skip
    return f


def is_call(n, *names):
    if n.k not in ("call", "ctor"):
        return False
    e = n.ev["e"]
    if e[0] == "c":
        s = short(e[1])
        return s in names
    if e[0] == "k":
        return short(e[2]) in names
    return False


def call_name(n):
    if n.k in ("call", "ctor") and n.ev["e"][0] in ("c", "k"):
        return short(n.ev["e"][1] if n.ev["e"][0] == "c" else n.ev["e"][2])
    return None


def is_ext(n, *names):
    """call of a C library / system function"""
    if n.k != "call" or n.ev["e"][0] != "c":
        return False
    s = short(n.ev["e"][1])
    if s.startswith("std::"):
        s = s[5:]
    return s in names and n.ev["e"][2] is None


def args(n):
    return n.ev["e"][3]


def writes_field(n, *fields):
    """node assigns one of the fields (plain or compound)"""
    if n.k == "asg":
        l = strip_cast(n.ev["lhs"])
        while l[0] == "x":
            l = strip_cast(l[1])
        return l[0] == "m" and l[2] in fields
    return False


def acc_field(n, *fields):
    return n.k == "acc" and n.ev["e"][0] == "m" and n.ev["e"][2] in fields


def mentions_field(e, *fields):
    return any(s[0] == "m" and s[2] in fields for s in walk(e))


def mentions_var(e, name):
    return any(s[0] == "v" and s[1] == name for s in walk(e))


def mentions_call(e, *names):
    return any(s[0] == "c" and short(s[1]) in names for s in walk(e))


def where(n):
    """function a node belongs to, by name"""
    return n.func.short


def AGraph(prog, func, inline=None, maxdepth=6):
    """graph in which locals standing for another expression are written as that expression"""
    return Graph(prog, func, inline=inline, maxdepth=maxdepth, alias=True)


def paths(g):
    if not hasattr(g, "_paths"):
        g._paths = PathSearch(g)
    return g._paths


def precede(ctx, rid, g, A, B, what, msg, kill=None, need=1):
    """every B node is preceded by an A node on all paths"""
    IN = must_before(g, lambda n: ["a"] if A(n) else [], kill=(lambda n: ["a"] if kill(n) else []) if kill else None)
    cnt = 0
    for n in g:
        if B(n):
            cnt += 1
            ctx.analysed(n.func)
            ok = "a" in IN[n.id]
            if not ok and kill is None:
                ok = paths(g).search([g.entry], lambda m: m is n, stop=A) is None
            ctx.ob(rid, what if isinstance(what, str) else what(n), ok, n.loc, msg)
    return cnt


def preceded(g, n, A):
    """is n preceded by an A node on every path?"""
    return paths(g).search([g.entry], lambda m: m is n, stop=A) is None


def never_before(ctx, rid, g, A, B, what, msg, kill=None):
    """no A node can come before a B node on any path"""
    cnt = 0
    starts = None
    for n in g:
        if B(n):
            cnt += 1
            ctx.analysed(n.func)
            if starts is None:
                starts = [m for m in g if A(m)]
            ok = not starts or paths(g).search(starts, lambda m: m is n, stop=kill) is None
            ctx.ob(rid, what if isinstance(what, str) else what(n), ok, n.loc, msg)
    return cnt


def follow(ctx, rid, g, A, B, what, msg, exits=None, stop=None):
    """after every A node a B node follows on all paths to the exit (paths
    through a stop node are not considered)"""
    cnt = 0
    for n in g:
        if not A(n):
            continue
        cnt += 1
        ctx.analysed(n.func)
        bad = escapes(g, n, B, stop, exits)
        ctx.ob(rid, what, bad is None, n.loc, msg)
    return cnt


def escapes(g, n, B, stop=None, exits=None, edge_stop=None):
    """can an exit be reached from n without passing B afterwards?  returns
    the last node before the exit, or None"""
    ex = set(exits or [g.exit.id])
    r = paths(g).search([n], lambda m: m.id in ex, stop=lambda m: m is not n and (B(m) or bool(stop and stop(m))), stop_edge=edge_stop)
    if r is None:
        return None
    for m in reversed(r[:-1]):
        if m.line:
            return m
    return n


def path_exists(g, n, B, avoid=None):
    """is a B node reachable from after n (not through avoid)?"""
    r = paths(g).search([n], lambda m: m is not n and B(m), stop=lambda m: m is not n and bool(avoid and avoid(m)))
    return r[-1] if r else None


def need_some(cnt, what):
    if cnt == 0:
        raise AnalysisError("no instance of %s found" % what)


def returns(g):
    """top-level return nodes with their value"""
    for n in g:
        if n.k == "ret" and n.frame == 0:
            yield n


def const_of(e):
    e = strip_cast(e)
    if e and e[0] == "i":
        return e[1]
    return None


def event_exprs(n):
    ev = n.ev
    if not ev:
        return
    for k in ("e", "lhs", "rhs", "init", "vla"):
        x = ev.get(k)
        if isinstance(x, tuple):
            yield x


def edge_atoms(F, n, label):
    """facts established by taking an edge out of n"""
    if not label or label[0] not in ("cond", "case", "default"):
        return frozenset()
    env = F.at(n)[0]
    e2, f2 = F.edge((env, frozenset()), label)
    return f2


def guarded(g, F, n, pred):
    """does every path from the entry to n cross an edge for which
    pred(facts of the edge, source node) is true?"""
    def hit(src, label):
        fs = edge_atoms(F, src, label)
        return bool(fs) and pred(fs, src)
    return paths(g).search([g.entry], lambda m: m is n, stop_edge=hit) is None


def const_name(e):
    """value of an integer constant expression in canonical form"""
    e = strip_cast(e)
    return e[1] if e[0] == "i" else None


def in_context(p, f, test, depth=2, _via=()):
    """test(g) -> list of failures.  If f alone fails, the functions calling
    it are tried with f expanded in them; the failures of f count only if some
    caller does not supply what is missing."""
    g = Graph(p, f, inline=inliner(only=_via) if _via else None)
    bad = test(g)
    if not bad or depth == 0:
        return bad
    ce, cr = p.callgraph()
    callers = [p.funcs[c] for c in cr.get(f.id, ()) if c in p.funcs and c != f.id]
    if not callers or f.id in getattr(p, "refs", ()):
        return bad
    for c in callers:
        if in_context(p, c, test, depth - 1, _via + (f.short,)):
            return bad
    return []


def truths(label):
    """(expression, truth) pairs a branch edge establishes.  The last operand of a chain of && and || is the
    one evaluated at the branch itself, so it decides the outcome; the operands before it let it be evaluated."""
    if not label or label[0] != "cond":
        return []
    out = []
    todo = [(label[1], bool(label[2]), True)]
    while todo:
        e, t, here = todo.pop()
        e = strip_cast(e)
        if e[0] == "u" and e[1] == "!":
            todo.append((e[2], not t, here))
        elif e[0] == "b" and e[1] in ("&&", "||") and (here or (e[1] == "&&") == t):
            todo.append((e[2], e[1] == "&&", False))
            todo.append((e[3], t, here))
        elif e[0] == "b" and e[1] in ("==", "!=") and const_of(e[3]) in (0, 1) and strip_cast(e[2])[0] == "c":
            same = (e[1] == "==") == (const_of(e[3]) == 1)
            out.append((e, t))
            todo.append((e[2], t if same else not t, here))
        else:
            out.append((e, t))
    return out


def edge_is(label, test, truth):
    """does the edge establish that an expression accepted by test has the given truth?"""
    return any(t == truth and test(e) for e, t in truths(label))


def is_global(e, *names):
    e = strip_cast(e)
    return e[0] == "v" and e[3] == "g" and e[1] in names


def mentions_global(e, *names):
    return any(s[0] == "v" and s[3] == "g" and s[1] in names for s in walk(e))


def writes_global(n, *names):
    return n.k == "acc" and "w" in n.ev["rw"] and is_global(n.ev["e"], *names) or n.k == "asg" and is_global(n.ev["lhs"], *names)


def reads_global(n, *names):
    return n.k == "acc" and "r" in n.ev["rw"] and is_global(n.ev["e"], *names)


def shutdown_flag(e):
    return mentions_global(e, "g_shutdown_requested") and not any(s[0] == "b" for s in walk(e))


def fetches(n, elem):
    """takes an element of a vector of elem ("Tsdb *"): *it, v[i], v.at(i)"""
    if n.k != "call" or n.ev["e"][0] != "c":
        return False
    s = n.ev["e"][1]
    h = s.split("(")[0]
    return "std::vector<%s>" % elem in h and (h.endswith("::operator*") or h.endswith("::operator[]") or h.endswith("::at"))


def vec_scan(n, elem):
    """starts going through a vector of elem: begin(), size()"""
    if n.k != "call" or n.ev["e"][0] != "c":
        return False
    h = n.ev["e"][1].split("(")[0]
    return h in ("std::vector<%s>::begin" % elem, "std::vector<%s>::cbegin" % elem, "std::vector<%s>::size" % elem, "std::vector<%s>::rbegin" % elem)


def _defs(g):
    if not hasattr(g, "_defs"):
        d = {}
        for n in g:
            if n.k == "decl" and n.ev["init"] is not None:
                d.setdefault(n.ev["id"], []).append(n.ev["init"])
            elif n.k == "asg" and n.ev["lhs"][0] == "v":
                d.setdefault(n.ev["lhs"][2], []).append(n.ev["rhs"])
            elif n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "v" and n.ev["e"][3] \
                    and ("::operator=(" in n.ev["e"][1] or "::assign(" in n.ev["e"][1]):
                d.setdefault(strip_cast(n.ev["e"][2])[2], []).append(n.ev["e"][3][0])
        g._defs = d
    return g._defs


def origins(g, e, through=(), _seen=None):
    """the expressions a value may come from, following local variables,
    expanded parameters and results of expanded calls; fields, constants,
    other calls and parameters of the function itself are where it stops"""
    if _seen is None:
        _seen = set()
    e = strip_cast(e)
    if e[0] == "?":
        return origins(g, e[2], through, _seen) | origins(g, e[3], through, _seen)
    if e[0] == "v" and e[3] != "g":
        if e[2] in _seen:
            return set()
        ds = _defs(g).get(e[2])
        if not ds:
            return {e}
        _seen = _seen | {e[2]}
        out = set()
        for d in ds:
            out |= origins(g, d, through, _seen)
        return out
    if e[0] == "b" and e[1] not in ("==", "!=", "<", "<=", ">", ">=", "&&", "||"):
        return origins(g, e[2], through, _seen) | origins(g, e[3], through, _seen)
    if e[0] == "c" and short(e[1]) in through:
        out = set()
        for a in list(e[3]) + ([e[2]] if e[2] is not None else []):
            out |= origins(g, a, through, _seen)
        return out
    return {e}


def from_field(g, e, *fields):
    """every origin of e is one of the fields"""
    o = origins(g, e)
    return bool(o) and all(x[0] == "m" and x[2] in fields for x in o)


def literals(g, e, _seen=None):
    """string literals an expression is made of, through local variables"""
    if _seen is None:
        _seen = set()
    out = set()
    for s in walk(e):
        if s[0] == "s":
            out.add(s[1])
        elif s[0] == "v" and s[3] != "g" and s[2] not in _seen:
            _seen.add(s[2])
            for d in _defs(g).get(s[2], ()):
                out |= literals(g, d, _seen)
    return out


def self_loop(g, n, stop, skip=None):
    """a way round a loop from n back to n without passing stop"""
    first = [g.nodes[s] for s, l in n.succ]
    return paths(g).search(first, lambda m: m is n, stop=stop, stop_edge=skip)


def null_test(e, t):
    """does the (expression, truth) pair say that a pointer is null?"""
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("==", "!="):
        if strip_cast(e[3])[0] == "n" or strip_cast(e[2])[0] == "n" or const_of(e[3]) == 0:
            return (e[1] == "==") == t
        return False
    if e[0] in ("m", "v", "c"):
        return not t
    return False


def near_callees(p, f, skip=()):
    """helpers called by f that are only called from f (split-off parts of it)"""
    ce, cr = p.callgraph()
    out = set()
    todo = [f.id]
    while todo:
        x = todo.pop()
        for c in ce.get(x, ()):
            h = p.funcs.get(c)
            if h is None or h.short in out or c == f.id:
                continue
            if set(cr.get(c, ())) <= {x} and c not in getattr(p, "refs", ()) and not h.file.startswith(NO_INLINE_FILES) and h.short not in skip:
                out.add(h.short)
                todo.append(c)
    return out


def callers_up(p, ids):
    """everything from which one of the functions can be reached"""
    ce, cr = p.callgraph()
    up, todo = set(ids), list(ids)
    while todo:
        for c in cr.get(todo.pop(), ()):
            if c not in up:
                up.add(c)
                todo.append(c)
    return up


def callees_down(p, ids, skip=()):
    ce, cr = p.callgraph()
    dn, todo = set(ids), list(ids)
    while todo:
        for c in ce.get(todo.pop(), ()):
            if c not in dn and c in p.funcs and p.funcs[c].short not in skip:
                dn.add(c)
                todo.append(c)
    return dn


def loops(g):
    """natural loops: [(header id, set of node ids)], ordinary edges only"""
    if hasattr(g, "_loops"):
        return g._loops
    def succ(n):
        return [s for s, l in n.succ if not (l and l[0] in ("eh", "throw"))]
    order, seen = [], set()
    stack = [(g.entry.id, iter(succ(g.entry)))]
    seen.add(g.entry.id)
    while stack:
        x, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ(g.nodes[s]))))
                break
        else:
            order.append(x)
            stack.pop()
    order.reverse()
    num = {x: i for i, x in enumerate(order)}
    preds = {}
    for x in order:
        for s in succ(g.nodes[x]):
            preds.setdefault(s, []).append(x)
    idom = {g.entry.id: g.entry.id}
    change = True
    while change:
        change = False
        for x in order[1:]:
            new = None
            for q in preds.get(x, ()):
                if q not in idom:
                    continue
                if new is None:
                    new = q
                    continue
                a, b = q, new
                while a != b:
                    while num[a] > num[b]:
                        a = idom[a]
                    while num[b] > num[a]:
                        b = idom[b]
                new = a
            if new is not None and idom.get(x) != new:
                idom[x] = new
                change = True
    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == idom.get(b, b):
                return False
            b = idom[b]
    bodies = {}
    for x in order:
        for s in succ(g.nodes[x]):
            if dom(s, x):
                body = bodies.setdefault(s, {s})
                todo = [x]
                while todo:
                    y = todo.pop()
                    if y not in body:
                        body.add(y)
                        todo += preds.get(y, [])
    g._loops = sorted(bodies.items(), key=lambda t: len(t[1]))
    g._idom = idom
    return g._loops


def loop_of(g, n, has=None):
    """innermost loop around n (that also contains a node accepted by has): (header, body) or None"""
    for h, body in loops(g):
        if n.id in body and (has is None or any(has(g.nodes[x]) for x in body)):
            return h, body
    return None


def partial(g, n):
    """n takes elements by index: does the loop leave out the first or last ones?"""
    if n.k != "call" or n.ev["e"][0] != "c" or not ("operator[]" in n.ev["e"][1] or "::at(" in n.ev["e"][1]):
        return None
    i = strip_cast(n.ev["e"][3][0])
    if i[0] != "v" or i[3] == "g":
        return None
    down = any(m.k == "asg" and m.ev["op"] in ("--", "-=") and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == i[2] for m in g)
    for m in g:
        e = m.ev["init"] if m.k == "decl" and m.ev["id"] == i[2] else m.ev["rhs"] if m.k == "asg" and m.ev["op"] == "=" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == i[2] else None
        if e is not None and not down and const_of(e) not in (0, None):
            return "the first elements are left out"
        for s, l in m.succ:
            if l and l[0] == "cond" and not down:
                for e, t in truths(l):
                    e = strip_cast(e)
                    if e[0] == "b" and e[1] in ("<", ">") and any(x[0] == "c" and x[1].split("(")[0].endswith("::size") for x in walk(e)) and any(strip_cast(x)[0] == "v" and strip_cast(x)[2] == i[2] for x in e[2:4]):
                        o = strip_cast(e[3] if strip_cast(e[2])[0] == "v" and strip_cast(e[2])[2] == i[2] else e[2])
                        if o[0] == "b" and o[1] in ("-", "/") or any(x[0] == "b" and x[1] == "-" for x in walk(o)):
                            return "the last elements are left out"
    return None


def left_early(g, n, has=None, excuse=None, toward=None):
    """edges (source, label) on which the loop around n is left after n, other than by running out of elements"""
    lp = loop_of(g, n, has)
    if lp is None:
        return []
    h, body = lp
    exits = [(g.nodes[x], s, l) for x in body for s, l in g.nodes[x].succ if s not in body and not (l and l[0] in ("eh", "throw"))]
    if len(set(x.id for x, s, l in exits)) <= 1:
        return []
    # nodes of this iteration after n
    seen, todo = {n.id}, [n.id]
    while todo:
        for s, l in g.nodes[todo.pop()].succ:
            if l and l[0] in ("eh", "throw") or s == h or s not in body or s in seen:
                continue
            if excuse and excuse(g.nodes[n.id], l):
                continue
            seen.add(s)
            todo.append(s)
    out = []
    for x, s, l in exits:
        if x.id in seen and not (excuse and excuse(x, l)):
            if toward is None or paths(g).search([g.nodes[s]], toward) is not None:
                out.append((x, l))
    return out
