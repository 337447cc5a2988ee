"""Which bytes of which value a record holds.

A flow analysis over the graph of a function that writes, or reads, a record of bytes.  Its domain
describes a value by the bytes it is made of: constants, byte k of a source (one of the values the
record is made from), or byte at offset o of the record read.  Branches taken are remembered as
ranges of the sources; states that agree in everything still of use are one state.
"""
from flow import Graph
from ir import strip_cast, walk, AnalysisError
from common import const_of

LIMIT = 60000
SIZES = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "double": 8, "float": 4}
INF = 1 << 70


def plain(t):
    return (t or "").replace("const ", "").replace("&", "").strip()


def size_of(t):
    return SIZES.get(plain(t))


def tag_of(t):
    t = plain(t)
    if t in ("double", "float"):
        return "d"
    return "u" if t.startswith("unsigned") or t == "bool" else "s"


class Bytes:
    """params: id -> value; flag: byte 0 of the record read (None for a function that writes)"""

    def __init__(self, p, f, g, params, entry=None, flag=None, needs=()):
        self.p, self.f, self.g = p, f, g
        self.params = params
        self.entry = entry          # type of the structure holding the fields
        self.flag = flag
        self.needs = needs
        self.types = {}
        self.outside = {}           # line -> offset read without enough bytes being there
        self.bad = {}               # line -> what was not understood
        self.live = liveness(g)
        for n in g:
            if n.k == "decl":
                self.types[n.ev["id"]] = n.ev["t"]
            elif n.k == "asg":
                l = strip_cast(n.ev["lhs"])
                if l[0] == "v" and l[1] == "$ret":
                    self.types[l[2]] = l[4]
        for q in f.params:
            self.types[(0, q["id"])] = q["t"]

    # ------------------------------------------------------------ values
    def bytes(self, v, n, t=None):
        if v is None:
            return (None,) * n
        if v[0] == "i":
            if not isinstance(v[1], int):
                return (None,) * n
            return tuple((v[1] >> (8 * k)) & 255 for k in range(n))
        if v[0] == "B":
            b = v[1]
            if len(b) < n:
                top = b[-1]
                if v[2] == "u":
                    b = b + (0,) * (n - len(b))
                elif isinstance(top, int):
                    b = b + ((255 if top & 128 else 0),) * (n - len(b))
                else:
                    b = b + (("sx", top),) * (n - len(b))
            return b[:n]
        if v[0] == "S":
            return tuple(("s", v, k) for k in range(n))
        return (None,) * n

    def conv(self, v, t):
        n = size_of(t)
        if v is None or n is None:
            return v
        tag = tag_of(t)
        if tag == "d":
            if v[0] == "B" and v[2] != "d":
                return ("num", v)
            return v
        if v[0] == "i" and isinstance(v[1], int):
            x = v[1] & ((1 << (8 * n)) - 1)
            if tag == "s" and x >> (8 * n - 1):
                x -= 1 << (8 * n)
            return ("i", x)
        if v[0] == "B":
            if v[2] == "d":
                return None
            return mk(self.bytes(v, n), tag)
        if v[0] == "S":
            if v[2] == "d":
                return None
            if n >= width(v):
                return v
            return mk(self.bytes(v, n), tag)
        if v[0] == "num":
            return self.conv(v[1], t)
        return v

    def load(self, st, ptr, line, t="unsigned char"):
        if ptr is None or ptr[0] != "P":
            return None
        if ptr[1] == "buf":
            if self.flag is None:
                v = st.get(("m", ptr[2]))
                return None if v is None else mk((v,), "u")
            return mk((self.inp(st, ptr[2], line),), "u")
        if isinstance(ptr[1], tuple) and ptr[1][0] == "var":
            k = ptr[1][1]
            vt = self.types.get(k)
            if size_of(t) == size_of(vt) and ptr[2] == 0:
                return st.get(("v", k))
            n = size_of(vt)
            if n is None or not 0 <= ptr[2] < n:
                return None
            return mk((self.bytes(st.get(("v", k)), n)[ptr[2]],), "u")
        return None

    def inp(self, st, off, line):
        if off >= st.get("$min", 0):
            self.outside.setdefault(line, off)
        return self.flag if off == 0 else ("in", off)

    def store(self, st, ptr, v, line, t="unsigned char"):
        if ptr is None or ptr[0] != "P":
            self.bad.setdefault(line, "written through a pointer that is not known")
            return
        if ptr[1] == "buf":
            b = self.bytes(v, 1)[0]
            st[("m", ptr[2])] = b
            self.emitted(st, b)
        elif isinstance(ptr[1], tuple) and ptr[1][0] == "var":
            k = ptr[1][1]
            vt = self.types.get(k)
            n = size_of(vt)
            if n is None:
                return
            if size_of(t) == n and ptr[2] == 0:
                st[("v", k)] = self.conv(v, vt)
                return
            b = list(self.bytes(st.get(("v", k)), n))
            if 0 <= ptr[2] < n:
                b[ptr[2]] = self.bytes(v, 1)[0]
            st[("v", k)] = mk(tuple(b), tag_of(vt))

    def emitted(self, st, b):
        """the exact range of a scaled value no longer matters once its bytes are written: only its width does"""
        if isinstance(b, tuple) and b[0] == "s" and b[1][2] == "sc":
            r = st.get(("b", b[1]))
            if r is not None and r[0] != "w":
                st[("b", b[1])] = ("w", signed_width(*r))

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, line):
        k = e[0]
        if k in ("i", "f"):
            return ("i", e[1]) if isinstance(e[1], int) else ("f", e[1])
        if k == "v":
            r = st.get(("ref", e[2]))
            if r is not None:
                return self.rd(r, st, line)
            if ("v", e[2]) in st:
                return st[("v", e[2])]
            if e[2] in self.params:
                return self.params[e[2]]
            c = const_of(e)
            return ("i", c) if isinstance(c, int) else None
        if k == "m":
            b = self.ev(e[1], st, line)
            if b is not None and b[0] == "P" and b[1] == "entry":
                f = e[2].split("::")[-1]
                v = st.get(("f", f))
                if v is None and self.flag is None:
                    v = self.entry.get(f)
                return v
            return None
        if k == "x":
            b = self.ev(e[1], st, line)
            i = self.ev(e[2], st, line)
            if b is not None and b[0] == "P" and i is not None and i[0] == "i":
                return self.load(st, ("P", b[1], b[2] + i[1]), line)
            return None
        if k == "u":
            op = e[1]
            if op == "&":
                x = strip_cast(e[2])
                if x[0] == "v":
                    if x[2] in self.params and self.params[x[2]][0] == "P" and self.params[x[2]][1] == "entry":
                        return self.params[x[2]]
                    r = st.get(("ref", x[2]))
                    if r is not None and r[0] == "v":
                        return ("P", ("var", r[1]), 0)
                    return ("P", ("var", x[2]), 0)
                if x[0] == "x":
                    return self.ptr(x, st, line)
                return None
            if op == "*":
                b = self.ev(e[2], st, line)
                if b is not None and b[0] == "P" and b[1] == "entry":
                    return b
                if b is not None and b[0] == "P" and isinstance(b[1], tuple):
                    return self.load(st, b, line, self.types.get(b[1][1]))
                return self.load(st, b, line)
            v = self.ev(e[2], st, line)
            if op in ("p++", "p--"):
                d = -1 if op == "p++" else 1
                return add(v, d)
            if op in ("++", "--", "+"):
                return v
            if op == "-" and v is not None and v[0] == "i":
                return ("i", -v[1])
            if op == "!" and v is not None and v[0] == "i":
                return ("i", 0 if v[1] else 1)
            if op == "~" and v is not None and v[0] == "i":
                return ("i", ~v[1])
            if op == "!":
                return ("not", v) if v is not None else None
            return None
        if k == "cast":
            return self.conv(self.ev(e[2], st, line), e[1])
        if k == "b":
            if e[1] == "=":
                return self.ev(e[3], st, line)
            if e[1] == ",":
                return self.ev(e[3], st, line)
            return self.bin(e[1], self.ev(e[2], st, line), self.ev(e[3], st, line))
        if k == "?":
            t = self.truth(e[1], st, line)
            if t is None:
                a, b = self.ev(e[2], st, line), self.ev(e[3], st, line)
                return a if a == b else None
            return self.ev(e[2] if t else e[3], st, line)
        if k == "c":
            nm = e[1].split("(")[0].split("::")[-1]
            if nm.startswith("__bswap_"):
                n = int(nm[8:]) // 8
                return mk(tuple(reversed(self.bytes(self.ev(e[3][0], st, line), n))), "u")
            if nm in ("llround", "lround"):
                v = self.ev(e[3][0], st, line)
                if v is not None and v[0] == "mul":
                    return ("S", v[1][1], "sc")
                return None
            if e[1] in self.needs:
                v = self.ev(e[3][0], st, line)
                if v is not None and v[0] == "S" and v[2] == "d":
                    return ("need", v[1])
                return None
            return None
        return None

    def bin(self, op, a, b):
        if a is None or b is None:
            return None
        if a[0] == "i" and b[0] == "i" and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            try:
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: int(x / y) if abs(x) < 1 << 50 else x // y, "%": lambda: x % y,
                     "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y,
                     "<": lambda: int(x < y), ">": lambda: int(x > y), "<=": lambda: int(x <= y), ">=": lambda: int(x >= y),
                     "==": lambda: int(x == y), "!=": lambda: int(x != y), "&&": lambda: int(bool(x and y)), "||": lambda: int(bool(x or y))}.get(op)
                return ("i", r()) if r else None
            except (ZeroDivisionError, ValueError):
                return None
        if op in ("+", "-"):
            if b[0] == "i":
                return add(a, b[1] if op == "+" else -b[1])
            if a[0] == "i" and op == "+":
                return add(b, a[1])
            for x, y in ((a, b), (b, a)):
                if y[0] == "begin" and op == "+":
                    l = lin(x)
                    return l and ("L", l[1], l[2], l[3], l[4] + 1)
            return None
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if y[0] == "prec" and x[0] == "S" and x[2] == "d":
                    return ("mul", x)
                if y[0] == "i":
                    l = lin(x)
                    return l and ("L", l[1], l[2] * y[1], l[3] * y[1], l[4] * y[1])
            return None
        if op == "/":
            if b[0] == "prec":
                if a[0] == "num":
                    return ("div", a[1])
                if a[0] == "B" and a[2] != "d":
                    return ("div", a)
            return None
        if op in ("&", "|"):
            if a[0] == "i":
                a, b = b, a
            n = 8 if a[0] == "S" else len(a[1]) if a[0] == "B" else None
            if b[0] == "B":
                n = max(n or 0, len(b[1]))
            if n is None:
                return None
            n = max(n, 4)
            if b[0] == "i" and b[1] >> 32 and b[1] > 0:
                n = 8
            x, y = self.bytes(a, n), self.bytes(b, n)
            return mk(tuple(band(i, j) if op == "&" else bor(i, j) for i, j in zip(x, y)), a[2] if a[0] == "B" and n == len(a[1]) else "s")
        if op in ("<<", ">>") and b[0] == "i" and b[1] % 8 == 0 and 0 <= b[1] < 64:
            n = 8 if a[0] == "S" else max(4, len(a[1])) if a[0] == "B" else None
            if n is None:
                return None
            x = self.bytes(a, n)
            s = b[1] // 8
            if s >= n:
                return None
            if op == "<<":
                return mk((0,) * s + x[:n - s], a[2] if a[0] == "B" and len(a[1]) == n else "s")
            tag = "u" if a[0] == "B" and a[2] == "u" else "s"
            return mk(self.bytes(("B", x[s:], tag), n), tag)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return ("cmp", op, a, b)
        return None

    def ptr(self, x, st, line):
        """address of an element"""
        b = self.ev(x[1], st, line)
        i = self.ev(x[2], st, line)
        if b is not None and b[0] == "P" and i is not None and i[0] == "i":
            return ("P", b[1], b[2] + i[1])
        return None

    # ------------------------------------------------------------ conditions
    def truth(self, e, st, line):
        r = self.assume(dict(st), self.ev(e, st, line), True), self.assume(dict(st), self.ev(e, st, line), False)
        if r[0] is None:
            return False
        if r[1] is None:
            return True
        return None

    def cond(self, st, e, truth, line):
        """the state with the condition known, or None when it cannot hold"""
        if e[0] == "u" and e[1] == "!":
            return self.cond(st, e[2], not truth, line)
        if e[0] == "b" and e[1] in ("&&", "||"):
            if (e[1] == "&&") == truth:
                st = self.cond(st, e[2], truth, line)
                return st if st is None else self.cond(st, e[3], truth, line)
            return st
        return self.assume(st, self.ev(e, st, line), truth)

    def assume(self, st, v, truth):
        if v is None:
            return st
        if v[0] == "not":
            return self.assume(st, v[1], not truth)
        if v[0] == "i":
            return st if bool(v[1]) == truth else None
        if v[0] == "cmp":
            op, a, b = v[1:]
            if a[0] == "i":
                a, b = b, a
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            if b[0] != "i" or not isinstance(b[1], int):
                return st
            if not truth:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
            return self.limit(st, a, op, b[1])
        return self.limit(st, v, "!=" if truth else "==", 0)

    def limit(self, st, a, op, c):
        if a[0] == "size":
            # size - a[1] op c
            if op in (">=", ">"):
                m = a[1] + c + (1 if op == ">" else 0)
                if m > st.get("$min", 0):
                    st["$min"] = m
            elif op in ("<", "<="):
                m = a[1] + c - (1 if op == "<" else 0)
                if m < st.get("$min", 0):
                    return None
            elif op == "==":
                if a[1] + c < st.get("$min", 0):
                    return None
                st["$min"] = max(st.get("$min", 0), a[1] + c)
            return st
        if a[0] == "B":
            sym = [(i, b) for i, b in enumerate(a[1]) if b != 0]
            if all(isinstance(b, int) for b in a[1]):
                return self.assume(st, ("cmp", op, ("i", int.from_bytes(bytes(a[1]), "little", signed=a[2] == "s")), ("i", c)), True)
            if op == ">" and c == 0 or op == ">=" and c == 1:
                op, c = "!=", 0
            if op == "<=" and c == 0 or op == "<" and c == 1:
                op, c = "==", 0
            if op in ("==", "!="):
                # one bit of one byte
                if len(sym) == 1 and isinstance(sym[0][1], tuple) and sym[0][1][0] == "and":
                    _, b, m = sym[0][1]
                    if c == 0:
                        want = op == "!="
                    elif c == m << (8 * sym[0][0]):
                        want = op == "=="
                    else:
                        return st
                    if m == 128:
                        if st.get(("sg", b), want) != want:
                            return None
                        st[("sg", b)] = want
                    return st
                if c == 0:
                    if st.get(("z", a[1]), op == "==") != (op == "=="):
                        return None
                    st[("z", a[1])] = op == "=="
            elif op in ("<", ">=") and c == 0 and a[2] == "s" and isinstance(a[1][-1], tuple):
                b = a[1][-1]
                if b[0] == "sx":
                    b = b[1]
                want = op == "<"
                if st.get(("sg", b), want) != want:
                    return None
                st[("sg", b)] = want
            return st
        if a[0] in ("S", "need"):
            lo, hi = self.range(st, a)
            if op == "==":
                lo, hi = max(lo, c), min(hi, c)
            elif op == "!=":
                if lo == c:
                    lo += 1
                if hi == c:
                    hi -= 1
            elif op == "<":
                hi = min(hi, c - 1)
            elif op == "<=":
                hi = min(hi, c)
            elif op == ">":
                lo = max(lo, c + 1)
            elif op == ">=":
                lo = max(lo, c)
            if lo > hi:
                return None
            st[("b", a)] = (lo, hi)
        return st

    def range(self, st, a):
        r = st.get(("b", a))
        if r is not None and r[0] == "w":
            r = None
        if r is not None:
            return r
        if a[0] == "need":
            return (1, 8)
        if a[2] == "sc":
            return (-(1 << 63), (1 << 63) - 1)
        if a[2] == "d":
            return (-INF, INF)
        return (0, (1 << (8 * width(a))) - 1)

    # ------------------------------------------------------------ statements
    def rd(self, r, st, line):
        if r[0] == "v":
            return st.get(("v", r[1]), self.params.get(r[1]))
        if r[0] == "f":
            return st.get(("f", r[1])) or (self.entry.get(r[1]) if self.flag is None else None)
        return self.load(st, r[1], line)

    def lv(self, e, st, line):
        """what an lvalue names"""
        e = strip_cast(e)
        if e[0] == "v":
            r = st.get(("ref", e[2]))
            return r if r is not None else ("v", e[2])
        if e[0] == "m":
            b = self.ev(e[1], st, line)
            if b is not None and b[0] == "P" and b[1] == "entry":
                return ("f", e[2].split("::")[-1])
            return None
        if e[0] == "x":
            return ("p", self.ptr(e, st, line))
        if e[0] == "u" and e[1] == "*":
            q = self.ev(e[2], st, line)
            if q is not None and q[0] == "P" and isinstance(q[1], tuple) and q[2] == 0:
                return ("v", q[1][1])
            return ("p", q)
        return None

    def put(self, r, v, st, line, t=None):
        if r is None:
            return
        if r[0] == "v":
            st[("v", r[1])] = self.conv(v, self.types.get(r[1]))
        elif r[0] == "f":
            st[("f", r[1])] = self.conv(v, t) if t else v
        else:
            self.store(st, r[1], v, line)

    def step(self, n, st):
        """states after the node"""
        ev = n.ev
        k = n.k
        if k == "decl":
            st = dict(st)
            if ev["init"] is None:
                st.pop(("v", ev["id"]), None)
                return st
            t = ev["t"] or ""
            if t.rstrip().endswith("&"):
                v = self.ev(ev["init"], st, n.line) if strip_cast(ev["init"])[0] in ("v", "u") else None
                if v is not None and v[0] == "P" and v[1] == "entry":
                    st[("v", ev["id"])] = v
                    return st
                r = self.lv(ev["init"], st, n.line)
                if r is not None:
                    st[("ref", ev["id"])] = r
                    return st
            st[("v", ev["id"])] = self.conv(self.ev(ev["init"], st, n.line), t)
            return st
        if k == "asg":
            st = dict(st)
            r = self.lv(ev["lhs"], st, n.line)
            op = ev["op"]
            lhs = ev["lhs"]
            t = lhs[3] if strip_cast(lhs)[0] == "m" else None
            if op == "=":
                v = self.ev(ev["rhs"], st, n.line)
            else:
                old = self.rd(r, st, n.line) if r is not None else None
                if op in ("++", "--"):
                    v = add(old, 1 if op == "++" else -1)
                else:
                    v = self.bin(op[:-1], old, self.ev(ev["rhs"], st, n.line))
            if r is None and self.flag is None and strip_cast(lhs)[0] in ("x", "u"):
                self.bad.setdefault(n.line, "written at a place that is not known")
            self.put(r, v, st, n.line, t)
            return st
        if k == "call":
            e = ev["e"]
            if e[0] == "c":
                nm = e[1].split("(")[0].split("::")[-1]
                if nm in ("memcpy", "memmove") and len(e[3]) == 3:
                    st = dict(st)
                    d, s, c = (self.ev(a, st, n.line) for a in e[3])
                    if d is None or s is None or d[0] != "P" or s[0] != "P" or c is None or c[0] != "i":
                        if d is None or d[0] == "P" and d[1] == "buf":
                            self.bad.setdefault(n.line, "copied from or to a place that is not known")
                        return st
                    vt = self.types.get(d[1][1]) if isinstance(d[1], tuple) else None
                    for i in range(min(c[1], 64)):
                        src = ("P", s[1], s[2] + i)
                        b = self.byte(st, src, n.line)
                        if vt is not None:
                            sz = size_of(vt)
                            old = list(self.bytes(st.get(("v", d[1][1])), sz))
                            if d[2] + i < sz:
                                old[d[2] + i] = b
                            st[("v", d[1][1])] = ("B", tuple(old), tag_of(vt))
                        else:
                            self.store(st, ("P", d[1], d[2] + i), ("B", (b,), "u"), n.line)
                    return st
            return st
        return st

    def byte(self, st, ptr, line):
        if ptr[1] == "buf":
            if self.flag is None:
                return st.get(("m", ptr[2]))
            return self.inp(st, ptr[2], line)
        if isinstance(ptr[1], tuple) and ptr[1][0] == "var":
            vt = self.types.get(ptr[1][1])
            sz = size_of(vt)
            if sz is None or not 0 <= ptr[2] < sz:
                return None
            return self.bytes(st.get(("v", ptr[1][1]), self.params.get(ptr[1][1])), sz)[ptr[2]]
        return None

    def reached(self, live, st):
        """with what live pointers and references name"""
        more = None
        for k, v in st.items():
            if not isinstance(k, tuple) or k[0] not in ("v", "ref") or k[1] not in live or v is None:
                continue
            t = None
            if v[0] == "P" and isinstance(v[1], tuple):
                t = v[1][1]
            elif k[0] == "ref" and v[0] == "v":
                t = v[1]
            elif k[0] == "ref" and v[0] == "p" and v[1] is not None and isinstance(v[1][1], tuple):
                t = v[1][1][1]
            if t is not None and t not in live:
                more = (more or set(live)) | {t}
        return live if more is None else self.reached(more, st)

    def run(self, init):
        """(value returned, state, line) at every return"""
        out = []
        g = self.g
        start = dict(init)
        work = [(g.entry.id, start)]
        seen = set()
        while work:
            i, st = work.pop()
            live = self.reached(self.live[i], st)
            st = {k: v for k, v in st.items() if v is not None and not (isinstance(k, tuple) and k[0] in ("v", "ref") and k[1] not in live)}
            key = (i, frozenset(st.items()))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > LIMIT:
                raise AnalysisError("too many states in %s" % self.f.short)
            n = g.nodes[i]
            if n.k == "ret" and n.frame == 0:
                v = self.ev(n.ev["e"], st, n.line) if n.ev.get("e") is not None else None
                out.append((v, st, n.line))
                continue
            if i == g.exit.id:
                out.append((None, st, n.line))
                continue
            st = self.step(n, st)
            for s, l in n.succ:
                if l is not None and l[0] in ("eh", "throw", "catch"):
                    continue
                s2 = st
                if l is not None and l[0] == "cond":
                    s2 = self.cond(dict(st), l[1], l[2], n.line)
                elif l is not None and l[0] in ("case", "default"):
                    x = self.ev(l[1], st, n.line)
                    cs = [const_of(c) for c in l[2]]
                    if x is not None and None not in cs:
                        if l[0] == "case":
                            for c in cs:
                                s3 = self.assume(dict(st), self.bin("==", x, ("i", c)), True)
                                if s3 is not None:
                                    work.append((s, s3))
                            continue
                        s2 = dict(st)
                        for c in cs:
                            s2 = s2 if s2 is None else self.assume(s2, self.bin("!=", x, ("i", c)), True)
                if s2 is not None:
                    work.append((s, s2))
        return out


def mk(b, tag):
    if all(isinstance(x, int) for x in b):
        return ("i", int.from_bytes(bytes(b), "little", signed=tag == "s"))
    # all the bytes of one source, in order
    return ("B", b, tag)


def band(x, y):
    for a, b in ((x, y), (y, x)):
        if isinstance(b, int):
            if b == 0:
                return 0
            if b == 255:
                return a
            if isinstance(a, int):
                return a & b
            if a is not None:
                return ("and", a, b)
    return None


def bor(x, y):
    for a, b in ((x, y), (y, x)):
        if isinstance(b, int):
            if b == 0:
                return a
            if b == 255:
                return 255
            if isinstance(a, int):
                return a | b
    return x if x == y else None


def add(v, d):
    if v is None:
        return None
    if v[0] == "i":
        return ("i", v[1] + d)
    if v[0] == "P":
        return ("P", v[1], v[2] + d)
    if v[0] == "size":
        return ("size", v[1] - d)
    l = lin(v)
    return l and ("L", l[1], l[2], l[3] + d, l[4])


def lin(v):
    if v[0] == "L":
        return v
    if v[0] == "B":
        return ("L", v, 1, 0, 0)
    if v[0] == "num":
        return ("L", v[1], 1, 0, 0)
    return None


def width(s):
    """bytes of the type of a source"""
    return s[3] if len(s) > 3 else 8


def signed_width(lo, hi):
    for w in range(1, 9):
        if -(1 << (8 * w - 1)) <= lo and hi <= (1 << (8 * w - 1)) - 1:
            return w
    return 9


def liveness(g):
    """node -> variables that may still be read from there"""
    use, kill = {}, {}
    for n in g:
        u, k = set(), set()
        es = []
        ev = n.ev
        if n.k == "asg":
            l = strip_cast(ev["lhs"])
            if l[0] == "v" and ev["op"] == "=":
                k.add(l[2])
            else:
                es.append(ev["lhs"])
            es.append(ev["rhs"])
        elif n.k == "decl":
            k.add(ev["id"])
            if ev["init"] is not None:
                es.append(ev["init"])
        elif ev:
            es += [x for x in (ev.get("e"), ev.get("lhs"), ev.get("rhs")) if isinstance(x, tuple)]
        for _, l in n.succ:
            if l is not None and l[0] in ("cond", "case", "default"):
                es.append(l[1])
        for e in es:
            for x in walk(e):
                if x[0] == "v":
                    u.add(x[2])
        use[n.id], kill[n.id] = u, k
    live = {n.id: set() for n in g}
    order = [i for i in reversed(g.rpo())]
    ch = True
    while ch:
        ch = False
        for i in order:
            out = set()
            for s, _ in g.nodes[i].succ:
                out |= live.get(s, set())
            new = use[i] | (out - (kill[i] - use[i]))
            if new != live[i]:
                live[i] = new
                ch = True
    return live
