"""Streams of bits: where every bit written or read comes from.

An integer is a sum of symbols ("F", {symbol: factor}), a number derived from
one ("S", sum, how) or a row of bits ("B", least significant first, tag).  A bit is
0, 1, ("b", number, k) for bit k of a number, ("^", ...) for bits combined by xor,
or None.  Numbers keep the range the path has shown; bits the path tested are facts.
"""
from common import *
from bytes import size_of, tag_of, plain, liveness

LIMIT = 60000        # states of a writer
READ = 8000          # states of a reader, which follows what was written
TURNS = 3
BIG = 1 << 32
ZERO = ("i", 0)


def form(v):
    """{symbol: factor}, or None"""
    if v is None:
        return None
    if v[0] == "F":
        return dict(v[1])
    if v[0] == "i":
        return {1: v[1]} if v[1] else {}
    if v[0] == "S":
        return {v: 1}
    return None


def mkform(d):
    d = {k: c for k, c in d.items() if c}
    if not d:
        return ZERO
    if set(d) == {1}:
        return ("i", d[1])
    if len(d) == 1:
        (k, c), = d.items()
        if c == 1 and isinstance(k, tuple) and k[0] == "S":
            return k
    return ("F", frozenset(d.items()))


def plus(a, b, s=1):
    if a is not None and a[0] == "P" and b is not None and b[0] == "i":
        return ("P", a[1], a[2] + s * b[1])
    x, y = form(a), form(b)
    if x is None or y is None:
        return None
    for k, c in y.items():
        x[k] = x.get(k, 0) + s * c
    return mkform(x)


def real(v):
    """a sum of floating-point numbers?"""
    return v[0] == "F" and any(isinstance(k, tuple) and k[0] == "d" for k, _ in v[1])


def sym(kind, name):
    return ("F", frozenset([((kind, name), 1)]))


def opaque(v):
    return any(isinstance(k, tuple) and k[0] == "o" for k, _ in v[1]) if v[0] == "F" else False


class Lost(AnalysisError):
    """what is read has nothing to do with what was written"""


class Bits:
    def __init__(self, p, f, g, params, members, consts=None, stream=None, pads=(), ranges=None):
        self.p, self.f, self.g = p, f, g
        self.params = params        # id -> value
        self.members = members      # name -> value
        self.consts = consts or {}  # global -> value
        self.stream = stream        # bits to read, or None for a function that writes
        self.pads = pads            # functions that end a run of equal points
        self.ranges = ranges or {}  # number -> what is known of it beforehand
        self.types = {}
        self.live = liveness(g)
        self.heads = heads(g)
        self.first = {}
        # what references given name outlives the function
        self.pinned = {(0, q["id"]) for q in f.params if q["t"].rstrip().endswith("&")}
        for n in g:
            if n.k == "decl":
                self.types[n.ev["id"]] = n.ev["t"]
            elif n.k == "asg":
                l = strip_cast(n.ev["lhs"])
                if l[0] == "v" and l[1] == "$ret":
                    self.types[l[2]] = l[4]
        for q in f.params:
            self.types[(0, q["id"])] = q["t"]

    # ------------------------------------------------------------ numbers
    def range(self, st, v):
        r = st.get(("r", v)) or self.ranges.get(v)
        if r:
            return r
        m = self.ranges.get(minus(v))
        if m:
            return (-m[1], -m[0])
        if v[0] == "S":
            return (-(1 << 63), (1 << 63) - 1)
        if opaque(v):
            return (0, 255)
        if v[0] == "F" and len(v[1]) == 1 and next(iter(v[1]))[0] != 1 and next(iter(v[1]))[0][0] == "o":
            return (0, 255)
        return (-BIG, BIG - 1)

    def known(self, st, v, i):
        """bit i of a number, where the path has settled it"""
        f = st.get(("bit", v, i))
        if f is not None:
            return f
        if real(v):
            return None
        lo, hi = self.range(st, v)
        if lo == hi:
            return (lo >> i) & 1
        w = 1
        while not (-(1 << (w - 1)) <= lo and hi <= (1 << (w - 1)) - 1):
            w += 1
        if i >= w - 1:
            if lo >= 0:
                return 0
            if hi < 0:
                return 1
            for k, t in st.items():
                if isinstance(k, tuple) and k[0] == "bit" and k[1] == v and k[2] >= w - 1:
                    return t
        return None

    def top(self, st, v):
        """position from which on all bits are the sign"""
        if real(v):
            return 64
        lo, hi = self.range(st, v)
        w = 1
        while not (-(1 << (w - 1)) <= lo and hi <= (1 << (w - 1)) - 1):
            w += 1
        return w - 1

    def bits(self, st, v, n):
        if v is None:
            return (None,) * n
        if v[0] == "i":
            return tuple((v[1] >> i) & 1 for i in range(n))
        if v[0] in ("F", "S"):
            lo = 0 if real(v) else self.range(st, v)[0]
            r = []
            for i in range(n):
                k = None if real(v) or lo < 0 else self.known(st, v, i)
                r.append(("b", v, i) if k is None else k)
            return tuple(r)
        if v[0] == "B":
            b = v[1]
            if len(b) >= n:
                return b[:n]
            return b + ((b[-1],) if v[2] == "s" else (0,)) * (n - len(b))
        return (None,) * n

    def whole(self, st, v, loose=False):
        """the number a row of bits is, or the row itself"""
        if v is None or v[0] != "B":
            return v
        b = v[1]
        if all(isinstance(x, int) for x in b):
            r = sum(x << i for i, x in enumerate(b))
            if v[2] == "s" and b[-1]:
                r -= 1 << len(b)
            return ("i", r)
        if None in b:
            return v
        x = next(x for x in b if isinstance(x, tuple))
        if x[0] != "b":
            return v
        x = x[1]
        top = self.top(st, x)
        for i, y in enumerate(b):
            if isinstance(y, int):
                if self.known(st, x, i) == y:
                    continue
                if opaque(x) and y == 0 and not real(x):
                    continue
                return v
            if y[0] != "b" or y[1] != x:
                return v
            if y[2] != i and not (y[2] >= top and i >= top):
                return v
        n = len(b)
        if real(x):
            return x if n == 64 else v
        lo, hi = self.range(st, x)
        if opaque(x) and not loose:
            return x if hi < 1 << n else v
        if n >= 64:
            return x
        if v[2] == "s":
            return x if -(1 << (n - 1)) <= lo and hi < 1 << (n - 1) else v
        return x if lo >= 0 and hi < 1 << n else v

    def conv(self, st, v, t):
        if v is None or t is None:
            return v
        t = plain(t)
        if v[0] == "P" or t.endswith("*"):
            return v
        if t in ("double", "float"):
            return self.number(st, v)
        n = size_of(t)
        if n is None:
            return v
        if v[0] == "i":
            x = v[1] & ((1 << 8 * n) - 1)
            if tag_of(t) == "s" and x >> (8 * n - 1):
                x -= 1 << 8 * n
            if t == "bool":
                x = int(v[1] != 0)
            return ("i", x)
        if v[0] == "F" and real(v):
            return ("S", v, "whole")
        if v[0] in ("F", "S"):
            if n == 8:
                return v
            lo, hi = self.range(st, v)
            if opaque(v) or (-(1 << (8 * n - 1)) <= lo and hi < 1 << (8 * n - 1) if tag_of(t) == "s" else lo >= 0 and hi < 1 << 8 * n):
                return v
            return ("B", self.bits(st, v, 8 * n), tag_of(t))
        if v[0] == "B":
            return self.whole(st, ("B", self.bits(st, v, 8 * n), tag_of(t)))
        return v

    def number(self, st, v):
        """as a floating-point number"""
        v = self.whole(st, v)
        if v is not None and v[0] == "S":
            if v[2] == "whole":
                return v[1] if st.get(("int", v[1])) else None
            return ("num", v)
        return v

    # ------------------------------------------------------------ places
    def place(self, e, st, line):
        e = strip_cast(e)
        if e[0] == "v":
            if e[3] == "g":
                return None
            r = st.get(("ref", e[2]))
            return r if r is not None else ("v", e[2], 0, None)
        if e[0] == "m":
            b = strip_cast(e[1])
            if b[0] == "t":
                return ("f", e[2].split("::")[-1], 0, None)
            if b[0] == "v" and b[3] != "g":
                return ("f", b[1] + "." + e[2].split("::")[-1], 0, None)
            return None
        if e[0] == "u" and e[1] == "*":
            q = self.ev(e[2], st, line)
            if q is not None and q[0] == "P":
                t = ptype(e[2])
                if t is None and q[2] != 0:
                    return None
                return q[1][:2] + (q[2], t)
        if e[0] == "x":
            q = self.ev(e[1], st, line)
            i = self.ev(e[2], st, line)
            if q is not None and q[0] == "P" and i is not None and i[0] == "i":
                t = ptype(e[1])
                n = size_of(t) if t else None
                if n:
                    return q[1][:2] + (q[2] + n * i[1], t)
        return None

    def whole_of(self, r, st):
        if r[0] == "v":
            return st.get(("v", r[1]), self.params.get(r[1]))
        return st.get(("f", r[1]), self.members.get(r[1]))

    def width(self, r):
        t = self.types.get(r[1]) if r[0] == "v" else None
        if r[0] == "f":
            t = self.ftype(r[1])
        return size_of(plain(t).replace("&", "").strip()) if t else None

    def ftype(self, name):
        for c, rec in self.p.records.items():
            if c == self.f.cls:
                for x in rec["fields"]:
                    if x["n"] == name:
                        return x["t"]
        return None

    def rd(self, r, st):
        v = self.whole_of(r, st)
        if r[2] == 0 and (r[3] is None or size_of(r[3]) == self.width(r) and not isreal(r[3])):
            if r[3] is not None and v is not None and v[0] == "F" and real(v):
                return ("B", self.bits(st, v, 64), tag_of(r[3]))
            return v
        n, w = size_of(r[3]), self.width(r)
        if n is None or w is None:
            return None
        b = self.bits(st, v, 8 * w)[8 * r[2]:8 * (r[2] + n)]
        return self.whole(st, ("B", b, tag_of(r[3]))) if len(b) == 8 * n else None

    def put(self, r, v, st):
        if r is None:
            return
        t = self.types.get(r[1]) if r[0] == "v" else self.ftype(r[1])
        k = (r[0], r[1])
        if r[3] is None:
            st[k] = self.conv(st, v, t.replace("&", "").strip() if t else None)
            return
        n, w = size_of(r[3]), self.width(r)
        if n is None or w is None:
            st[k] = None
            return
        b = list(self.bits(st, self.whole_of(r, st), 8 * w))
        b[8 * r[2]:8 * (r[2] + n)] = self.bits(st, v, 8 * n)
        st[k] = self.whole(st, ("B", tuple(b[:8 * w]), "u"))

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, line):
        k = e[0]
        if k == "i":
            return ("i", int(e[1]))
        if k == "f":
            try:
                x = float(e[1])
            except ValueError:
                return None
            return ("i", int(x)) if x == int(x) else None
        if k == "v":
            if e[3] == "g":
                if e[1] in self.consts:
                    return self.consts[e[1]]
                if plain(e[4] or "") == "double":
                    return ("prec", e[1])
                return sym("g", e[1])
            r = self.place(e, st, line)
            return self.rd(r, st)
        if k == "m":
            r = self.place(e, st, line)
            return self.rd(r, st) if r is not None else None
        if k == "x":
            b = strip_cast(e[1])
            if b[0] == "v" and b[3] == "g":
                i = self.ev(e[2], st, line)
                if i is not None and i[0] == "i":
                    g = self.p.globals.get(b[1])
                    if g is not None and g["init"] and g["init"][0] == "il" and 0 <= i[1] < len(g["init"][1]) and const_of(g["init"][1][i[1]]) is not None:
                        return ("i", const_of(g["init"][1][i[1]]))
                    return None
                return ("mask",)
            r = self.place(e, st, line)
            return self.rd(r, st) if r is not None else None
        if k == "u":
            if e[1] == "&":
                r = self.place(e[2], st, line)
                return ("P", r[:2], r[2]) if r is not None else None
            if e[1] == "*":
                r = self.place(e, st, line)
                return self.rd(r, st) if r is not None else None
            if e[1] == "-":
                return plus(ZERO, self.ev(e[2], st, line), -1)
            if e[1] == "!":
                v = self.ev(e[2], st, line)
                return None if v is None else ("not", v)
            if e[1] == "~":
                v = self.ev(e[2], st, line)
                return ("i", ~v[1]) if v is not None and v[0] == "i" else None
            if e[1] in ("++", "--"):
                return self.ev(e[2], st, line)
            if e[1] in ("p++", "p--"):
                return plus(self.ev(e[2], st, line), ("i", -1 if e[1] == "p++" else 1))
            return None
        if k == "cast":
            v = self.ev(e[2], st, line)
            if plain(e[1]).endswith("*") or plain(e[1]).endswith("&"):
                return v
            return self.conv(st, v, e[1])
        if k == "b":
            if e[1] in ("=", ","):
                return self.ev(e[3], st, line)
            a, b = self.ev(e[2], st, line), self.ev(e[3], st, line)
            if e[1] in ("&&", "||"):
                return (e[1], a, b)
            return self.bin(st, e[1], a, b)
        if k == "?":
            a, b = self.ev(e[2], st, line), self.ev(e[3], st, line)
            return a if a == b else None
        if k == "c":
            nm = e[1].split("(")[0].split("::")[-1]
            if nm.startswith("__bswap_"):
                n = int(nm[8:])
                b = self.bits(st, self.ev(e[3][0], st, line), n)
                return self.whole(st, ("B", sum((b[i:i + 8] for i in range(n - 8, -1, -8)), ()), "u"))
            if nm in ("llround", "lround"):
                v = self.ev(e[3][0], st, line)
                if v is not None and v[0] == "mul":
                    return ("S", v[1], v[2])
                return None
            if nm == "modf":
                v = self.ev(e[3][0], st, line)
                return ("frac", v) if v is not None and v[0] == "F" else None
            if nm in ("abs", "fabs", "labs", "llabs"):
                v = self.ev(e[3][0], st, line)
                return ("abs", v) if v is not None else None
            if e[2] is not None and not e[3] and strip_cast(e[2])[0] == "t":
                return sym("c", nm)
        return None

    def bin(self, st, op, a, b):
        if a is None or b is None:
            return None
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            try:
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x // y if x * y >= 0 else -(-x // y), "%": lambda: x % y,
                     "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y,
                     "<": lambda: int(x < y), ">": lambda: int(x > y), "<=": lambda: int(x <= y), ">=": lambda: int(x >= y),
                     "==": lambda: int(x == y), "!=": lambda: int(x != y)}.get(op)
                return ("i", r()) if r else None
            except (ZeroDivisionError, ValueError):
                return None
        if op in ("+", "-"):
            return plus(self.whole(st, a), self.whole(st, b), 1 if op == "+" else -1)
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if y[0] == "prec" and x[0] == "F":
                    return ("mul", x, y)
                if y[0] == "i":
                    d = form(x)
                    return d and mkform({k: c * y[1] for k, c in d.items()})
            return None
        if op == "/":
            if b[0] == "prec":
                if a == ("i", 1):
                    return ("inv", b)
                a = self.whole(st, a)
                s = a[1] if a[0] == "num" else a
                if s[0] == "S" and s[2] == b:
                    return s[1]
                if a == ZERO:
                    return ZERO
            return None
        if op in ("&", "|", "^"):
            for x, y in ((a, b), (b, a)):
                if x == ("mask",) and op == "&":
                    return y
            n = max([64 if x[0] in ("F", "S") else len(x[1]) for x in (a, b) if x[0] in ("F", "S", "B")] or [0])
            if not n:
                return None
            for x in (a, b):
                if x[0] == "i" and not -(1 << (n - 1)) <= x[1] < 1 << n:
                    n = 64
            x, y = self.bits(st, a, n), self.bits(st, b, n)
            f = {"&": band, "|": bor, "^": bxor}[op]
            return self.whole(st, ("B", tuple(f(i, j) for i, j in zip(x, y)), "u"))
        if op in ("<<", ">>") and b[0] == "i":
            n = 64 if a[0] in ("F", "S") else max(32, len(a[1])) if a[0] == "B" else None
            if n is None or not 0 <= b[1] < n:
                return None
            x = self.bits(st, a, n)
            r = (0,) * b[1] + x[:n - b[1]] if op == "<<" else x[b[1]:] + (0,) * b[1]
            return self.whole(st, ("B", r, "u"))
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return ("cmp", op, a, b)
        return None

    # ------------------------------------------------------------ conditions
    def cond(self, st, e, truth, line):
        if e[0] == "u" and e[1] == "!":
            return self.cond(st, e[2], not truth, line)
        if e[0] == "b" and e[1] in ("&&", "||"):
            if (e[1] == "&&") == truth:
                st = self.cond(st, e[2], truth, line)
                return st if st is None else self.cond(st, e[3], truth, line)
            return st
        return self.assume(st, self.ev(e, st, line), truth)

    def assume(self, st, v, truth):
        if v is None:
            return st
        if v[0] == "not":
            return self.assume(st, v[1], not truth)
        if v[0] == "i":
            return st if bool(v[1]) == truth else None
        if v[0] in ("&&", "||"):
            if (v[0] == "&&") == truth:
                st = self.assume(st, v[1], truth)
                return st if st is None else self.assume(st, v[2], truth)
            if self.assume(dict(st), v[1], truth) is None:
                return self.assume(st, v[2], truth)
            if self.assume(dict(st), v[2], truth) is None:
                return self.assume(st, v[1], truth)
            return st
        if v[0] != "cmp":
            return self.limit(st, v, "!=" if truth else "==", 0)
        op, a, b = v[1:]
        if a[0] in ("i", "inv", "prec"):
            a, b = b, a
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        if not truth:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        if a[0] == "abs":
            if b[0] == "inv" and op in ("<", "<="):
                if a[1][0] == "frac":
                    st[("int", a[1][1])] = True
                else:
                    st[("near", a[1])] = True
            return st
        if a[0] == "frac":
            if b == ZERO and op == "==":
                st[("int", a[1])] = True
            return st
        if b[0] == "i":
            return self.limit(st, a, op, b[1])
        if a[0] in ("F", "S") and b[0] in ("F", "S") and not real(a) and not real(b):
            d = plus(a, b, -1)
            if d[0] == "i":
                return self.assume(st, self.bin(st, op, d, ZERO), True)
            return self.limit(st, d, op, 0)
        if op == "==" and a[0] == "F" and b[0] == "F":
            st[("near", plus(a, b, -1))] = True
        return st

    def limit(self, st, a, op, c):
        if a[0] == "B":
            a = self.whole(st, a)
        if a[0] == "i":
            return self.assume(st, self.bin(st, op, a, ("i", c)), True)
        if a[0] == "B":
            s = [(i, b) for i, b in enumerate(a[1]) if b != 0]
            if any(b is None for b in a[1]):
                return st
            if op in (">", "<=") and c == 0 and a[2] == "u":
                op = "!=" if op == ">" else "=="
            if op in ("==", "!="):
                if any((c >> i) & 1 != b for i, b in enumerate(a[1]) if isinstance(b, int)):
                    return st if op == "!=" else None
                s = [(i, b) for i, b in enumerate(a[1]) if not isinstance(b, int)]
                if len(s) == 1:
                    i, b = s[0]
                    want = ((c >> i) & 1) == (1 if op == "==" else 0)
                    want = int(want)
                    if b[0] == "b":
                        if self.known(st, b[1], b[2]) not in (None, want):
                            return None
                        st[("bit", b[1], b[2])] = want
                    return st
                if c == 0:
                    if st.get(("z", a[1]), op == "==") != (op == "=="):
                        return None
                    st[("z", a[1])] = op == "=="
                    pair = {frozenset(x[1] for x in b[1]) for b in a[1] if isinstance(b, tuple) and b[0] == "^" and all(isinstance(x, tuple) for x in b[1])}
                    if op == "==" and len(pair) == 1 and len(s) == 64 and len(next(iter(pair))) == 2:
                        x, y = next(iter(pair))
                        st[("near", plus(x, y, -1))] = True
            return st
        if a[0] in ("F", "S") and not real(a):
            # also as the opposite sum
            lo, hi = self.range(st, a)
            if op == "==":
                lo, hi = max(lo, c), min(hi, c)
            elif op == "!=":
                lo, hi = lo + (lo == c), hi - (hi == c)
            elif op == "<":
                hi = min(hi, c - 1)
            elif op == "<=":
                hi = min(hi, c)
            elif op == ">":
                lo = max(lo, c + 1)
            elif op == ">=":
                lo = max(lo, c)
            if lo > hi:
                return None
            st[("r", a)] = (lo, hi)
        return st

    # ------------------------------------------------------------ statements
    def step(self, n, st):
        """states after the node, and whether it ended by an exception"""
        ev, k = n.ev, n.k
        if k == "decl":
            st = dict(st)
            t = ev["t"] or ""
            if ev["init"] is None:
                st.pop(("v", ev["id"]), None)
                return st, False
            if t.rstrip().endswith("&"):
                r = self.place(ev["init"], st, n.line)
                if r is not None:
                    st[("ref", ev["id"])] = r
                return st, False
            v = self.ev(ev["init"], st, n.line)
            st[("v", ev["id"])] = self.fresh(n, self.conv(st, v, t), t)
            return st, False
        if k == "asg":
            st = dict(st)
            r = self.place(ev["lhs"], st, n.line)
            if r is None:
                return st, False
            op = ev["op"]
            if op == "=":
                v = self.ev(ev["rhs"], st, n.line)
            elif op in ("++", "--"):
                v = plus(self.rd(r, st), ("i", 1 if op == "++" else -1))
            else:
                v = self.bin(st, op[:-1], self.rd(r, st), self.ev(ev["rhs"], st, n.line))
            t = self.types.get(r[1]) if r[0] == "v" else self.ftype(r[1])
            self.put(r, self.fresh(n, v, t) if op == "=" else v, st)
            return st, False
        if k == "call":
            e = ev["e"]
            if e[0] != "c":
                return st, False
            s = short(e[1])
            if s == "BitSet::append" and len(e[3]) == 3:
                st = dict(st)
                q, c, b = (self.ev(x, st, n.line) for x in e[3])
                st["$out"] = st.get("$out", ()) + self.taken(st, q, c, b)
                self.first.setdefault(n.id, n)
                return st, False
            if s == "BitSet::retrieve" and self.stream is not None and len(e[3]) == 4:
                st = dict(st)
                return st, self.given(n, st, *(self.ev(x, st, n.line) for x in e[3][1:]))
            if s.split("::")[-1] in ("emplace_back", "push_back") and e[2] is not None and self.stream is not None:
                st = dict(st)
                a = e[3]
                if len(a) == 1:
                    a = strip_cast(a[0])
                    a = a[3] if a[0] in ("k", "c") else ()
                st["$dps"] = st.get("$dps", ()) + (tuple(self.ev(x, st, n.line) for x in a[:2]),)
                return st, False
            if s in self.pads and e[2] is not None and strip_cast(e[2])[0] == "t":
                st = dict(st)
                st["$out"] = st.get("$out", ()) + (("pad",),)
                return st, False
        return st, False

    def fresh(self, n, v, t):
        """a name for a small number that is not known"""
        if v is None and t is not None and plain(t) in ("unsigned char", "unsigned int", "int", "unsigned short"):
            return sym("o", (n.line, n.ev.get("n") or str(n.ev.get("lhs", ("",))[1])))
        return v

    def taken(self, st, q, c, b):
        if q is None or q[0] != "P":
            return (None,)
        r = q[1] + (0, None)
        w = self.width(r)
        if w is None or q[2] != 0:
            return (None,)
        v = self.bits(st, self.whole_of(r, st), 8 * w)
        if c is None or b is None or c[0] != "i" or b[0] != "i":
            return (("seg", v, c, b),)
        return tuple(v[8 * (m // 8) + 7 - m % 8] if m < 8 * w else None for m in range(b[1], b[1] + c[1]))

    def given(self, n, st, q, c, b):
        pos = st.get("$pos", 0)
        rest = self.stream[pos:]
        if not rest:
            if "$end" not in st:
                st["$end"] = n.id
                st["$env"] = frozenset((k, v) for k, v in st.items() if isinstance(k, tuple) and k[0] in ("v", "ref"))
            return True
        if q is None or q[0] != "P" or q[2] != 0:
            st["$bad"] = (n.line, "read to a place that is not known")
            return True
        r = q[1] + (0, None)
        w = self.width(r)
        key = q[1]
        if isinstance(rest[0], tuple) and rest[0][0] == "seg":
            _, v, c0, b0 = rest[0]
            if not (self.same(st, c, c0) and self.same(st, b, b0)):
                st["$bad"] = (n.line, "a run of bits is read with another length or start than it was written with")
                return True
            st["$pos"] = pos + 1
            st[key] = self.whole(st, ("B", v, "u"))
            return False
        if c is None or b is None or c[0] != "i" or b[0] != "i":
            st["$bad"] = (n.line, "a run of bits of a length that is not known is read where a fixed number was written")
            return True
        if len(rest) < c[1] or any(isinstance(x, tuple) and x[0] == "seg" for x in rest[:c[1]]):
            st["$bad"] = (n.line, "%d bits are read where %d were written" % (c[1], len(rest)))
            return True
        v = list(self.bits(st, self.whole_of(r, st), 8 * w))
        for i in range(c[1]):
            m = b[1] + i
            if m >= 8 * w:
                st["$bad"] = (n.line, "read past the end of the variable")
                return True
            v[8 * (m // 8) + 7 - m % 8] = rest[i]
        for m in range(b[1] + c[1], min(8 * w, (b[1] + c[1] + 7) // 8 * 8)):
            v[8 * (m // 8) + 7 - m % 8] = None      # what follows in the byte is not defined
        st["$pos"] = pos + c[1]
        t = self.types.get(q[1][1]) if q[1][0] == "v" else None
        st[key] = self.whole(st, ("B", tuple(v), tag_of(t) if t and not isreal(t) else "u"))
        return False

    def same(self, st, a, b):
        """equal, as far as the path knows"""
        if a is None or b is None:
            return False
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if x[0] == "B":
                w = self.whole(st, x, loose=True)
                if w == y:
                    return True
            if x == ("i", 64) and y[0] == "F" and opaque(y) and self.range(st, y) == (0, 0):
                return True     # 64 does not fit six bits and is written as 0
        d = plus(self.whole(st, a), self.whole(st, b), -1)
        if d is None:
            return False
        if d == ZERO:
            return True
        for x in self.zeros(st):
            if multiple(form(d), form(x)):
                return True
        return False

    def zeros(self, st):
        """sums the path has shown to be nothing"""
        for k, r in st.items():
            if not isinstance(k, tuple):
                continue
            if k[0] == "near":
                yield k[1]
            elif k[0] == "r" and r == (0, 0):
                if k[1][0] == "F" and not real(k[1]):
                    yield k[1]
                elif k[1][0] == "S" and (k[1][2] != "whole" or st.get(("int", k[1][1]))):
                    yield k[1][1]

    # ------------------------------------------------------------ paths
    def run(self, init, start=None):
        """(value returned, state, line) at every end"""
        out = []
        g = self.g
        work = [(start if start is not None else g.entry.id, dict(init))]
        seen = set()
        while work:
            i, st = work.pop()
            live = self.live[i] | self.pinned
            for k, v in st.items():
                if isinstance(k, tuple) and k[0] == "ref" and v[0] == "v":
                    live.add(v[1])
                elif isinstance(k, tuple) and k[0] == "v" and v is not None and v[0] == "P" and v[1][0] == "v":
                    live.add(v[1][1])
            st = {k: v for k, v in st.items() if v is not None and not (isinstance(k, tuple) and k[0] == "v" and k[1] not in live)}
            if i in self.heads:
                c = st.get(("it", i), 0)
                if c > TURNS:
                    continue
                st[("it", i)] = c + 1
            key = (i, frozenset(st.items()))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > (READ if self.stream is not None else LIMIT):
                raise Lost("too many states in %s" % self.f.short)
            n = g.nodes[i]
            if "$bad" in st:
                out.append((None, st, st["$bad"][0]))
                continue
            if n.k == "ret" and n.frame == 0:
                v = self.ev(n.ev["e"], st, n.line) if n.ev.get("e") is not None else None
                out.append((v, st, n.line))
                continue
            if i == g.exit.id:
                out.append((None, st, n.line))
                continue
            st, thrown = self.step(n, st)
            if "$bad" in st:
                out.append((None, st, st["$bad"][0]))
                continue
            any_eh = False
            for s, l in n.succ:
                if l is not None and l[0] in ("eh", "throw", "catch"):
                    if thrown and l[0] == "eh" or l[0] == "catch":
                        any_eh = True
                        work.append((s, st))
                    continue
                if thrown:
                    continue
                s2 = st
                if l is not None and l[0] == "cond":
                    s2 = self.cond(dict(st), l[1], l[2], n.line)
                elif l is not None and l[0] in ("case", "default"):
                    x = self.ev(l[1], st, n.line)
                    cs = [const_of(c) for c in l[2]]
                    if x is not None and None not in cs:
                        if l[0] == "case":
                            for c in cs:
                                s3 = self.assume(dict(st), self.bin(st, "==", x, ("i", c)), True)
                                if s3 is not None:
                                    work.append((s, s3))
                            continue
                        s2 = dict(st)
                        for c in cs:
                            s2 = s2 if s2 is None else self.assume(s2, self.bin(s2, "!=", x, ("i", c)), True)
                if s2 is not None:
                    work.append((s, s2))
            if thrown and not any_eh:
                for s in landing(g, n):
                    any_eh = True
                    work.append((s, st))
            if thrown and not any_eh:
                st = dict(st)
                st["$thrown"] = True
                out.append((None, st, n.line))
        return out


def multiple(a, b):
    if not a or not b or set(a) != set(b):
        return False
    k = next(iter(b))
    return all(a[x] * b[k] == a[k] * b[x] for x in b)


def heads(g):
    """where loops begin, exceptions followed too"""
    out, state, stack = set(), {}, [(g.entry.id, iter([s for s, _ in g.entry.succ]))]
    state[g.entry.id] = 1
    while stack:
        i, it = stack[-1]
        for s in it:
            if state.get(s) == 1:
                out.add(s)
            elif s not in state:
                state[s] = 1
                stack.append((s, iter([x for x, _ in g.nodes[s].succ])))
                break
        else:
            state[i] = 2
            stack.pop()
    return out


def landing(g, n):
    """where an exception leaving the node lands: at a handler of its function, or of one it was expanded into"""
    while True:
        r = [s for s, l in n.succ if l is not None and l[0] in ("eh", "throw")]
        if r or not n.depth:
            return r
        seen, work, up = set(), [n.id], None
        while work and up is None:
            for s, _ in g.nodes[work.pop()].succ:
                if s in seen:
                    continue
                seen.add(s)
                x = g.nodes[s]
                if x.k == "after" and x.depth == n.depth - 1:
                    up = x
                    break
                work.append(s)
        if up is None:
            return []
        n = up


def minus(v):
    d = form(v)
    return mkform({k: -c for k, c in d.items()}) if d is not None else v


def isreal(t):
    return plain(t).replace("&", "").strip() in ("double", "float")


def ptype(e):
    """type of what a pointer expression points to"""
    while e[0] == "cast":
        t = plain(e[1])
        if t.endswith("*"):
            return t[:-1].strip()
        e = e[2]
    return None


def band(x, y):
    for a, b in ((x, y), (y, x)):
        if b == 0:
            return 0
        if b == 1:
            return a
    return x if x == y else None


def bor(x, y):
    for a, b in ((x, y), (y, x)):
        if b == 1:
            return 1
        if b == 0:
            return a
    return x if x == y else None


def bxor(x, y):
    if x is None or y is None:
        return None
    if isinstance(x, int) and isinstance(y, int):
        return x ^ y
    s = {}
    c = 0
    for z in (x, y):
        for w in (z[1] if isinstance(z, tuple) and z[0] == "^" else (z,)):
            if isinstance(w, int):
                c ^= w
            elif w in s:
                del s[w]
            else:
                s[w] = 1
    if not s:
        return c
    if len(s) == 1 and not c:
        return next(iter(s))
    return ("^", frozenset(s) | ({1} if c else set()))
