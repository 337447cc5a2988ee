"""What follows from the result of one call: truth values are carried along the
paths from it (constant propagation), branches that contradict them are left out."""
from common import *

UNKNOWN = None


def cid_of(e):
    e = strip_cast(e)
    return e[5] if e[0] == "c" else e[3] if e[0] == "ci" else None


def truth(e, env):
    """True, False or None (not known) for an expression"""
    e = strip_cast(e)
    c = const_of(e)
    if c is not None:
        return bool(c)
    if e[0] == "n":
        return False
    if e[0] == "v":
        return env.get(e[2])
    if e[0] == "m":
        return env.get(("m", e[2]))
    if e[0] in ("c", "ci"):
        return env.get(("r", cid_of(e)))
    if e[0] == "u" and e[1] == "!":
        t = truth(e[2], env)
        return None if t is None else not t
    if e[0] == "b":
        if e[1] in ("&&", "||"):
            a, b = truth(e[2], env), truth(e[3], env)
            if e[1] == "||":
                return True if a or b else None if a is None or b is None else False
            return False if a is False or b is False else None if a is None or b is None else True
        if e[1] == "=":
            return truth(e[3], env)
        if e[1] == "+":
            # of counts
            a, b = truth(e[2], env), truth(e[3], env)
            return True if a or b else None if a is None or b is None else False
        if e[1] in ("&", "|") and "bool" in str(e):
            a, b = truth(e[2], env), truth(e[3], env)
            if e[1] == "&":
                return False if a is False or b is False else None
            return True if a or b else None
        if e[1] in ("==", "!=", "<", "<=", ">", ">="):
            a, b = strip_cast(e[2]), strip_cast(e[3])
            op = e[1]
            if (const_of(a) is not None or a[0] == "n") and const_of(b) is None and b[0] != "n":
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if const_of(b) is None and b[0] != "n":
                return None
            t, c = truth(a, env), const_of(b) or 0
            if t is None:
                return None
            if c == 0:
                # zero or counted up
                return {"==": not t, "!=": t, "<": False if not t else None, "<=": not t, ">": t, ">=": True}[op]
            if c == 1 and op in ("==", "!="):
                return (t == (op == "==")) if not t or typ(a) == "bool" else None
            if c == 1 and op in ("<", ">="):
                return (not t) == (op == "<")
    if e[0] == "?":
        c = truth(e[1], env)
        if c is not None:
            return truth(e[2] if c else e[3], env)
        a, b = truth(e[2], env), truth(e[3], env)
        return a if a == b else None
    return None


def typ(e):
    return e[4] if e[0] == "v" else "bool" if e[0] == "c" else ""


def values(e, env):
    """possible values of a number; None: anything"""
    e = strip_cast(e)
    c = const_of(e)
    if c is not None:
        return {c}
    if e[0] == "?":
        t = truth(e[1], env)
        out = set()
        for x, take in ((e[2], t is not False), (e[3], t is not True)):
            if take:
                v = values(x, env)
                if v is None:
                    return None
                out |= v
        return out
    if e[0] == "v":
        return env.get(("n", e[2]))
    return None


def learn(env, e, t):
    """env after e turned out t; None if it cannot"""
    e = strip_cast(e)
    k = truth(e, env)
    if k is not None:
        return env if k == t else None
    if e[0] == "v":
        return {**env, e[2]: t}
    if e[0] == "m":
        return {**env, ("m", e[2]): t}
    if e[0] in ("c", "ci"):
        # tested where it is called, and not again
        return env
    if e[0] == "u" and e[1] == "!":
        return learn(env, e[2], not t)
    if e[0] == "b" and e[1] in ("&&", "||"):
        if (e[1] == "&&") == t:
            env = learn(env, e[2], t)
            return env if env is None else learn(env, e[3], t)
        return env
    if e[0] == "b" and e[1] in ("==", "!=", ">", "<="):
        a, b = strip_cast(e[2]), strip_cast(e[3])
        if const_of(b) == 0 or b[0] == "n":
            return learn(env, a, t == (e[1] in ("!=", ">")))
    return env


def step(g, n, env):
    if n.k in ("asg", "decl"):
        if n.k == "decl":
            k, op, rhs = n.ev["id"], "=", n.ev.get("init")
        else:
            l = strip_cast(n.ev["lhs"])
            k = l[2] if l[0] == "v" else ("m", l[2]) if l[0] == "m" else None
            op, rhs = n.ev["op"], n.ev.get("rhs")
        if k is None:
            return env
        env = dict(env)
        old = env.pop(k, None)
        env.pop(("n", k), None)
        t = None
        if op == "=":
            t = truth(rhs, env if old is None else {**env, k: old}) if rhs is not None else None
            v = values(rhs, {**env, k: old}) if rhs is not None else None
            if v is not None:
                env["n", k] = frozenset(v)
        elif op == "++":
            t = True
        elif op == "+=":
            r = truth(rhs, env)
            t = True if r or old else old if r is False else None
        elif op in ("&=", "|="):
            r = truth(rhs, env)
            t = False if op == "&=" and (r is False or old is False) else True if op == "|=" and (r or old) else None
        if t is not None:
            env[k] = t
        return env
    if n.k == "call" and n.ev["e"][0] in ("c", "ci"):
        e = n.ev["e"]
        env = {k: v for k, v in env.items() if k != ("r", cid_of(e))}
        if any(g.nodes[s].k == "decl" and g.nodes[s].ev.get("param") or g.nodes[s].frame != n.frame for s, l in n.succ):
            # gone into
            return env
        # what the call can change
        if e[0] == "c":
            for a, r in zip(e[3], by_ref(e[1])):
                a = strip_cast(a)
                if a[0] == "v" and r:
                    env.pop(a[2], None)
                    env.pop(("n", a[2]), None)
        for a in e[3] if e[0] == "c" else ():
            a = strip_cast(a)
            if a[0] == "u" and a[1] == "&" and strip_cast(a[2])[0] == "v":
                env.pop(strip_cast(a[2])[2], None)
        return {k: v for k, v in env.items() if not (isinstance(k, tuple) and k[0] == "m")}
    return env


def explore(g, starts, env, goal, stop=None, stop_edge=None, limit=60000):
    """a (node, env) satisfying goal reachable from the starts, or None"""
    seen = set()
    todo = []
    for s in starts:
        if not isinstance(s, Leaving):
            todo.append((s, env))
            continue
        for t, l in s.node.succ:
            if l and l[0] in ("eh", "throw") or stop_edge and stop_edge(s.node, l):
                continue
            v = env
            for a, b in truths(l):
                v = learn(v, a, b) if v is not None else None
            if v is not None:
                todo.append((g.nodes[t], v))
    while todo:
        n, env = todo.pop()
        key = (n.id, frozenset(env.items()))
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > limit:
            return n, env
        if goal(n, env):
            return n, env
        if stop and stop(n):
            continue
        env = step(g, n, env) if n.ev else env
        for s, l in n.succ:
            if l and l[0] in ("eh", "throw"):
                continue
            if stop_edge and stop_edge(n, l):
                continue
            e2 = env
            if l and l[0] == "cond":
                for _ in (1, 2):
                    for a, t in truths(l):
                        e2 = learn(e2, a, t)
                        if e2 is None:
                            break
                    if e2 is None:
                        break
                if e2 is None:
                    continue
            todo.append((g.nodes[s], e2))
    return None
