"""Values along paths: what small functions assign, emit and return on each of
their paths, as terms over what was there when they were entered (forward
propagation of definitions; no path goes round a loop twice)."""
from common import *


class Path:
    __slots__ = ("conds", "env", "mem", "acts", "ret", "end")

    def __init__(self):
        self.conds, self.env, self.mem, self.acts, self.ret, self.end = [], {}, {}, [], None, None

    def copy(self):
        q = Path()
        q.conds, q.env, q.mem, q.acts, q.ret, q.end = list(self.conds), dict(self.env), dict(self.mem), list(self.acts), self.ret, self.end
        return q

    def sets(self, lv):
        """last value assigned to a place, None if it was not"""
        return self.mem.get(lv)


def term(e, q):
    """an expression in terms of the start of the path"""
    e = strip_cast(e)
    k = e[0]
    if k == "v":
        if e[2] in q.env and e[3] != "g":
            return q.env[e[2]]
        return ("v", e[1], e[2] if e[3] != "g" else 0)
    if k == "i":
        return ("i", e[1])
    if k == "f":
        try:
            v = float(e[1].rstrip("fFlL"))
            return ("i", int(v)) if v == int(v) else ("f", v)
        except (ValueError, OverflowError):
            return ("f", e[1])
    if k in ("s", "n", "t"):
        return (k,) + tuple(e[1:2])
    if k == "m":
        t = ("m", term(e[1], q), e[2].split("::")[-1])
        return q.mem.get(t, t)
    if k == "x":
        t = ("x", term(e[1], q), term(e[2], q))
        return q.mem.get(t, t)
    if k == "c":
        return ("c", short(e[1]), term(e[2], q) if e[2] is not None else None, tuple(term(a, q) for a in e[3]))
    if k == "b":
        if e[1] == "=":
            return term(e[3], q)
        return ("b", e[1], term(e[2], q), term(e[3], q))
    if k == "u":
        return ("u", e[1], term(e[2], q)) if e[1] not in ("+",) else term(e[2], q)
    if k == "?":
        return ("?", term(e[1], q), term(e[2], q), term(e[3], q))
    if k in ("k", "il"):
        a = e[3] if k == "k" else e[1]
        a = a if isinstance(a, tuple) else ()
        if len(a) == 1:
            return term(a[0], q)
        return (k, tuple(term(x, q) for x in a if isinstance(x, tuple)))
    return (k,)


def place(e, q):
    """the place an expression names"""
    e = strip_cast(e)
    if e[0] == "m":
        return ("m", term(e[1], q), e[2].split("::")[-1])
    if e[0] == "x":
        return ("x", term(e[1], q), term(e[2], q))
    if e[0] == "u" and e[1] == "*":
        return ("u", "*", term(e[2], q))
    if e[0] == "v":
        if len(e) > 4 and e[4].endswith("&") and e[2] in q.env:
            return q.env[e[2]]
        return ("v", e[1], e[2] if e[3] != "g" else 0)
    if e[0] == "c":
        return term(e, q)
    return None


def each_path(g, limit=600, until=None, times=1):
    """every path from entry to exit (or to a node until accepts), without taking an edge more than so many times"""
    out = []
    todo = [(g.entry, Path(), {})]
    while todo:
        n, q, seen = todo.pop()
        if n is g.exit or n is g.texit:
            q.end = n
            out.append(q)
            if len(out) > limit:
                return None
            continue
        if n.ev:
            step(g, n, q)
        if until and until(n):
            q.end = n
            out.append(q)
            if len(out) > limit:
                return None
            continue
        for s, l in n.succ:
            if l and l[0] in ("eh",):
                continue
            if seen.get((n.id, s), 0) >= times:
                continue
            r = q.copy()
            if l and l[0] in ("cond", "case", "default"):
                if l[0] == "cond":
                    bad = False
                    for e, t in truths(l):
                        e = term(e, r)
                        if e[0] == "u" and e[1] == "!":
                            e, t = e[2], not t
                        c = known(e, r)
                        if c is not None and c != t:
                            bad = True
                        r.conds.append((e, t))
                    if bad:
                        continue
                else:
                    r.conds.append((l[0], term(l[1], r), tuple(const_of(x) for x in l[2])))
            more = dict(seen)
            more[(n.id, s)] = more.get((n.id, s), 0) + 1
            todo.append((g.nodes[s], r, more))
    return out


def known(e, q):
    for c in q.conds:
        if len(c) == 2 and c[0] == e:
            return c[1]
    if e[0] == "i":
        return bool(e[1])
    return None


def step(g, n, q):
    if n.k == "decl":
        i = n.ev.get("init")
        if i is not None:
            # a reference to a place stays the name of the place
            q.env[n.ev["id"]] = place(i, q) if n.ev["t"].endswith("&") and place(i, q) is not None else term(i, q)
        else:
            q.env.pop(n.ev["id"], None)
    elif n.k == "asg":
        l, op, r = strip_cast(n.ev["lhs"]), n.ev["op"], n.ev.get("rhs")
        old = term(l, q)
        if op == "=":
            new = term(r, q)
        elif op in ("++", "--"):
            new = ("b", op[0], old, ("i", 1))
        else:
            new = ("b", op[:-1], old, term(r, q))
        if l[0] == "v" and l[3] != "g" and not (len(l) > 4 and l[4].endswith("&")):
            q.env[l[2]] = new
            return
        p = place(l, q)
        q.mem[p] = new
        q.acts.append(("set", p, new, n))
    elif n.k == "call":
        if any(g.nodes[s].k == "decl" and g.nodes[s].ev.get("param") or g.nodes[s].depth > n.depth for s, l in n.succ):
            return
        if n.ev["e"][0] != "c":
            q.acts.append(("call?", n))
            return
        t = term(n.ev["e"], q)
        # a pair put in is the two put in
        if t[1].endswith("::push_back") and len(t[3]) == 1 and (t[3][0][0] == "k" and len(t[3][0][1]) == 2 or t[3][0][0] == "c" and t[3][0][1] == "std::make_pair"):
            t = t[:3] + (t[3][0][1] if t[3][0][0] == "k" else t[3][0][3],)
        q.acts.append(("call",) + t[1:] + (n,))
    elif n.k == "ret":
        if n.frame == g.entry.frame:
            q.ret = term(n.ev["e"], q) if n.ev.get("e") is not None else None
    elif n.k == "throw":
        q.acts.append(("throw", n))


def calls(q, *names):
    return [a for a in q.acts if a[0] == "call" and a[1].split("::")[-1] in names]


def flip(op):
    return {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}.get(op)


def relation(q, a, b):
    """operators known to hold (a op b) on the path, as a set of what can be: '<', '=', '>'"""
    can = {"<", "=", ">"}
    T = {"<": {"<"}, "<=": {"<", "="}, ">": {">"}, ">=": {">", "="}, "==": {"="}, "!=": {"<", ">"}}
    for c in q.conds:
        if len(c) != 2 or c[0][0] != "b" or c[0][1] not in T:
            continue
        op, x, y = c[0][1:]
        if (x, y) == (b, a):
            op, x, y = flip(op), y, x
        if (x, y) == (a, b):
            can &= T[op] if c[1] else {"<", "=", ">"} - T[op]
    return can


def mentions(t, pred):
    if not isinstance(t, tuple) or not t:
        return False
    return pred(t) or any(mentions(x, pred) for x in t if isinstance(x, tuple))
