"""Functions on a few times, evaluated for every way the times can be ordered.

The values stand for positions in the order of the times; what a function does
depends on them only through comparisons, minimum and maximum, and steps of one,
so that a small number of positions covers all cases."""
from common import *
import itertools


class Unknown(Exception):
    pass


OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b,
       "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}
SAME = ("validate_resolution", "to_sec", "to_ms", "std::move")


class Eval:
    """one evaluation: store maps access paths to positions"""

    def __init__(self, p, store, known=None, limit=4000):
        self.p, self.store, self.known, self.left = p, store, known, limit
        self.graphs = {}
        self.n = 0

    def graph(self, f):
        if f.id not in self.graphs:
            self.graphs[f.id] = Graph(self.p, f)
        return self.graphs[f.id]

    def call(self, f, this, argv, depth=0):
        """value returned; argv: ('p', path) or ('i', value) for each parameter"""
        self.n += 1
        fr = Frame(self, self.graph(f), this, self.n, depth)
        for x, a in zip(f.params, argv):
            if a is not None:
                fr.bind[(0, x["id"])] = a
        fr.run(fr.g.entry, lambda n: n is fr.g.exit)
        return fr.value


class Frame:
    def __init__(self, ev, g, this, num, depth):
        self.ev, self.g, self.this, self.num, self.depth = ev, g, this, num, depth
        self.bind = {}
        self.value = None

    def path(self, e):
        e = strip_cast(e)
        if e[0] == "t":
            return self.this
        if e[0] == "v":
            if e[3] == "g":
                return "g." + e[1]
            b = self.bind.get(e[2])
            if b and b[0] == "p":
                return b[1]
            return "%d.%s" % (self.num, e[2])
        if e[0] == "m":
            return "%s.%s" % (self.path(e[1]), e[2].split("::")[-1])
        if e[0] == "u" and e[1] in ("*", "&"):
            return self.path(e[2])
        if e[0] in ("c", "ci"):
            r = self.getter(e)
            if r is not None:
                return r
        raise Unknown(repr(e)[:100])

    def getter(self, e):
        """a method that returns a member or itself"""
        if e[0] != "c" or e[1] not in self.ev.p.funcs:
            return None
        f = self.ev.p.funcs[e[1]]
        rs = [ev["e"] for ev in f.events() if ev["k"] == "ret" and ev.get("e")]
        if len(rs) == 1 and e[2] is not None and not f.params:
            r = strip_cast(rs[0])
            if r[0] == "u" and r[1] in ("*", "&"):
                r = strip_cast(r[2])
            if r[0] == "m" and strip_cast(r[1])[0] == "t":
                return "%s.%s" % (self.path(e[2]), r[2].split("::")[-1])
        return None

    def val(self, e):
        e = strip_cast(e)
        k = e[0]
        if self.ev.known:
            v = self.ev.known(self, e)
            if v is not None:
                return v
        c = const_of(e)
        if c is not None:
            return c
        if k == "n":
            return 0
        if k == "v" and e[2] in self.bind and self.bind[e[2]][0] == "i":
            return self.bind[e[2]][1]
        if k in ("v", "m"):
            x = self.path(e)
            if x in self.ev.store:
                return self.ev.store[x]
            raise Unknown(x)
        if k == "b":
            if e[1] == "&&":
                return int(bool(self.val(e[2])) and bool(self.val(e[3])))
            if e[1] == "||":
                return int(bool(self.val(e[2])) or bool(self.val(e[3])))
            if e[1] == "=":
                return self.val(e[3])
            if e[1] in ("/", ">>"):
                b = self.val(e[3])
                return self.val(e[2]) // (b if e[1] == "/" else 2 ** b)
            if e[1] in OPS:
                return int(OPS[e[1]](self.val(e[2]), self.val(e[3])))
        if k == "u":
            if e[1] == "!":
                return int(not self.val(e[2]))
            if e[1] == "-":
                return -self.val(e[2])
            if e[1] == "p++":
                return self.val(e[2]) - 1
            if e[1] == "p--":
                return self.val(e[2]) + 1
            if e[1] in ("++", "--"):
                return self.val(e[2])
        if k == "?":
            return self.val(e[2]) if self.val(e[1]) else self.val(e[3])
        if k == "c":
            s = short(e[1])
            if s in ("std::min", "std::max"):
                return (min if s == "std::min" else max)(self.val(e[3][0]), self.val(e[3][1]))
            if s in SAME:
                return self.val(e[3][0])
            r = self.getter(e)
            if r is not None and r in self.ev.store:
                return self.ev.store[r]
            if e[1] in self.ev.p.funcs and self.depth < 6:
                f = self.ev.p.funcs[e[1]]
                av = []
                for a in e[3]:
                    x = None
                    try:
                        x = ("i", self.val(a))
                    except Unknown:
                        try:
                            x = ("p", self.path(a))
                        except Unknown:
                            pass
                    av.append(x)
                return self.ev.call(f, self.path(e[2]) if e[2] is not None else None, av, self.depth + 1)
        raise Unknown(repr(e)[:100])

    def put(self, e, v):
        e = strip_cast(e)
        if e[0] == "v" and e[2] in self.bind and self.bind[e[2]][0] == "i":
            self.bind[e[2]] = ("i", v)
            return
        try:
            x = self.path(e)
        except Unknown:
            return
        if v is None:
            self.ev.store.pop(x, None)
        else:
            self.ev.store[x] = v

    def run(self, n, stop, first=True):
        """follow the one path the values select"""
        while True:
            if stop(n) and not first:
                return n
            first = False
            self.ev.left -= 1
            if self.ev.left < 0:
                raise Unknown("too long")
            if n.k == "decl":
                v = None
                if n.ev.get("init") is not None:
                    try:
                        v = self.val(n.ev["init"])
                    except Unknown:
                        try:
                            self.bind[n.ev["id"]] = ("p", self.path(n.ev["init"]))
                        except Unknown:
                            pass
                if v is not None:
                    self.bind.pop(n.ev["id"], None)
                    self.ev.store["%d.%s" % (self.num, n.ev["id"])] = v
            elif n.k == "asg":
                op, lhs = n.ev["op"], n.ev["lhs"]
                try:
                    if op == "=":
                        v = self.val(n.ev["rhs"])
                    elif op in ("++", "--"):
                        v = self.val(lhs) + (1 if op == "++" else -1)
                    elif op[:-1] in OPS:
                        v = OPS[op[:-1]](self.val(lhs), self.val(n.ev["rhs"]))
                    else:
                        v = None
                except Unknown:
                    v = None
                self.put(lhs, v)
            elif n.k == "ret":
                if n.ev.get("e") is not None:
                    try:
                        self.value = self.val(n.ev["e"])
                    except Unknown:
                        self.value = None
            nxt = None
            conds = [(s, l) for s, l in n.succ if l and l[0] == "cond"]
            if conds:
                v = bool(self.val(conds[0][1][1]))
                for s, l in conds:
                    if l[2] == v:
                        nxt = s
            else:
                o = [s for s, l in n.succ if not l or l[0] not in ("eh", "throw", "catch")]
                if len(o) == 1:
                    nxt = o[0]
                elif not o and not n.succ:
                    return n
            if nxt is None:
                if n is self.g.exit:
                    return n
                raise Unknown("branch at line %s" % n.line)
            n = self.g.nodes[nxt]


def cases(names, size=4, where=None):
    for v in itertools.product(range(1, size + 1), repeat=len(names)):
        d = dict(zip(names, v))
        if where is None or where(d):
            yield d


def evaluate(p, f, this, argv, store, known=None):
    """(value returned, store afterwards)"""
    st = dict(store)
    ev = Eval(p, st, known)
    return ev.call(f, this, argv), st
