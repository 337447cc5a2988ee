"""Where pointers into text can be, relative to the end of the text.

A cursor is a pointer variable into text that ends with a zero.  The state keeps,
for each cursor, how many characters from it on are known not to be the end: a
cursor may move over those, and no further.  Cursors with a known distance share
what is known."""
from common import *
import common

PLAIN = ("char *", "const char *", "char *&", "const char *&", "char *const", "const char *const", "char *__restrict", "const char *__restrict")
ISCH = ("isspace", "isdigit", "isalpha", "isalnum", "isxdigit", "isupper", "islower", "isprint", "isgraph", "ispunct")
FIND = ("strchr", "strrchr", "strstr", "strpbrk", "memchr", "strchrnul")
ENDS = ("strtol", "strtoul", "strtoll", "strtoull", "strtod", "strtof")
CAP = 12


def is_text(t):
    return t.strip() in PLAIN


def libname(c):
    return short(c[1]).replace("std::", "") if c[0] == "c" else None


class State:
    """at: key -> (group, offset, may be null); hi: group -> offset up to which
    the text is known to go; ch: char variable -> (group, offset); say: truth
    variable -> (claims if true, claims if false), None where it cannot be"""
    __slots__ = ("at", "hi", "ch", "say")

    def __init__(self, at=None, hi=None, ch=None, say=None):
        self.at, self.hi, self.ch, self.say = at or {}, hi or {}, ch or {}, say or {}

    def copy(self):
        return State(dict(self.at), dict(self.hi), dict(self.ch), dict(self.say))

    def holds(self, c):
        """is a claim true already: (group, offset) or (key,)"""
        return self.hi.get(c[0], -1) >= c[1] if len(c) == 2 else c[0] in self.at and not self.at[c[0]][2]

    def claim(self, c):
        if len(c) == 2:
            if c[0] in self.hi:
                self.hi[c[0]] = max(self.hi[c[0]], c[1])
        elif c[0] in self.at:
            g, o, n = self.at[c[0]]
            self.at[c[0]] = (g, o, False)

    def fresh(self, avail):
        g = object()
        self.hi[g] = avail
        return g

    def norm(self):
        groups = {}
        for k, (g, o, n) in self.at.items():
            groups.setdefault(g, []).append((k, o, n))
        out = []
        for g, ks in groups.items():
            lo = min(o for k, o, n in ks)
            top = max(o for k, o, n in ks)
            hi = min(self.hi[g], top + CAP)
            cs = tuple(sorted((repr(c), o - lo) for c, (gg, o) in self.ch.items() if gg is g and o >= lo - 2))
            ss = tuple(sorted((repr(v), i, c[1] - lo) for v, cl in self.say.items() for i in (0, 1) for c in cl[i] or () if len(c) == 2 and c[0] is g))
            out.append((tuple(sorted((repr(k), o - lo, n) for k, o, n in ks)), hi - lo, cs, ss))
        out.append(tuple(sorted((repr(v), i, repr(cl[i] is None), tuple(sorted(repr(c) for c in cl[i] or () if len(c) == 1))) for v, cl in self.say.items() for i in (0, 1))))
        return frozenset(out)


def join(a, b):
    r = State()
    made = {}
    for k in a.at:
        if k not in b.at:
            continue
        ga, oa, na = a.at[k]
        gb, ob, nb = b.at[k]
        sig = (id(ga), id(gb), oa - ob)
        if sig not in made:
            g = object()
            made[sig] = g
            r.hi[g] = min(a.hi[ga], b.hi[gb] + oa - ob)
        r.at[k] = (made[sig], oa, na or nb)
    for c in a.ch:
        if c in b.ch:
            ga, oa = a.ch[c]
            gb, ob = b.ch[c]
            g = made.get((id(ga), id(gb), oa - ob))
            if g is not None:
                r.ch[c] = (g, oa)
    for v in a.say:
        if v in b.say:
            r.say[v] = tuple(both(a, b, x, y, made) for x, y in zip(a.say[v], b.say[v]))
    return r


def both(a, b, x, y, made):
    """claims that can be made after either of two ways"""
    out = set()
    if x is None and y is None:
        return None
    for (ia, ib, d), g in made.items():
        for s, t, cs, ds, back in ((a, b, x, y, 0), (b, a, y, x, 1)):
            for c in cs or ():
                if len(c) == 2 and id(c[0]) == (ib if back else ia):
                    o = c[1] + d if back else c[1]
                    # the same place, seen from the other way
                    og = [gg for gg in t.hi if id(gg) == (ia if back else ib)]
                    oo = o if back else o - d
                    if ds is None or og and (t.hi[og[0]] >= oo or any(len(e) == 2 and e[0] is og[0] and e[1] >= oo for e in ds)):
                        out.add((g, o))
    for s, t, cs, ds in ((a, b, x, y), (b, a, y, x)):
        for c in cs or ():
            if len(c) == 1 and (ds is None or c in ds or t.holds(c)):
                out.add(c)
    return frozenset(out)


class Cursors:
    """analysis of one graph; problems: list of (node, message, cursor)"""

    def __init__(self, p, g, f, text, nulls):
        self.p, self.g, self.f = p, g, f
        self.text, self.nulls = text, nulls   # functions on text, those that may return null
        self.problems = {}
        self.used = {}
        self.refs = {}
        self.outs = written_only(f)
        for n in g.nodes:
            if n.k == "decl" and n.ev["t"].strip().endswith("&") and n.ev.get("init") is not None and is_text(n.ev["t"]):
                self.refs[n.ev["id"]] = n.ev["init"]

    # -- expressions
    def key(self, e):
        e = strip_cast(e)
        while e[0] == "b" and e[1] == "=":
            e = strip_cast(e[2])
        for _ in range(8):
            if e[0] != "v" or e[2] not in self.refs:
                break
            e = strip_cast(self.refs[e[2]])
        if e[0] == "v" and e[3] != "g" and is_text(e[4]):
            return ("v", e[2], e[1])
        if e[0] == "m" and is_text(e[3]):
            b = strip_cast(e[1])
            if b[0] == "t" or b[0] == "v":
                return ("m", b[1:3] if b[0] == "v" else None, e[2])
        return None

    def slot(self, e):
        """a variable or array element that keeps a character"""
        e = strip_cast(e)
        if e[0] == "v" and e[3] != "g":
            return e[2]
        if e[0] == "x" and const_of(e[2]) is not None and strip_cast(e[1])[0] == "v" and not is_text(strip_cast(e[1])[4]):
            return strip_cast(e[1])[2], const_of(e[2])
        return None

    def pos(self, st, e):
        """(key, distance) of a pointer expression"""
        e = strip_cast(e)
        if e[0] in ("v", "m"):
            k = self.key(e)
            if k and k[0] == "m" and k not in st.at:
                st.at[k] = (st.fresh(0), 0, False)
            return (k, 0) if k in st.at else None
        if e[0] == "u":
            if e[1] in ("p++", "++", "p--", "--"):
                r = self.pos(st, e[2])
                return r and (r[0], r[1] + {"p++": -1, "p--": 1}.get(e[1], 0))
            if e[1] == "&":
                x = strip_cast(e[2])
                if x[0] == "x" and const_of(x[2]) is not None:
                    r = self.pos(st, x[1])
                    return r and (r[0], r[1] + const_of(x[2]))
                if x[0] == "u" and x[1] == "*":
                    return self.pos(st, x[2])
        if e[0] == "b" and e[1] in ("+", "-") and const_of(e[3]) is not None:
            r = self.pos(st, e[2])
            return r and (r[0], r[1] + (const_of(e[3]) if e[1] == "+" else -const_of(e[3])))
        if e[0] == "b" and e[1] == "+":
            n = self.amount(st, e[3])
            r = self.pos(st, e[2])
            return (r[0], r[1] + n) if r and n is not None else None
        if e[0] == "b" and e[1] == "=":
            return self.pos(st, e[2])
        return None

    def amount(self, st, e):
        c = const_of(e)
        if c is not None:
            return c
        for o in origins(self.g, e):
            o = strip_cast(o)
            if libname(o) in ("strlen", "length") and o[3]:
                t = text_of(self.p, self.g, o[3][0])
                if t is not None:
                    return len(t)
            return None

    def abspos(self, st, e):
        r = self.pos(st, e)
        if not r:
            return None
        g, o, n = st.at[r[0]]
        return g, o + r[1], n, r[0]

    def charpos(self, st, e):
        """position of the character an expression reads"""
        e = strip_cast(e)
        if e[0] == "u" and e[1] == "*":
            return self.abspos(st, e[2])
        if e[0] == "x" and const_of(e[2]) is not None and self.abspos(st, e[1]):
            r = self.abspos(st, e[1])
            return r and (r[0], r[1] + const_of(e[2]), r[2], r[3])
        if self.slot(e) in st.ch:
            g, o = st.ch[self.slot(e)]
            return g, o, False, None
        if e[0] == "b" and e[1] == "=":
            return self.charpos(st, e[2])
        return None

    def value(self, st, e):
        """(group, offset, may be null) of a pointer value, making groups in st as needed"""
        e = strip_cast(e)
        r = self.abspos(st, e)
        if r:
            return r[:3]
        if e[0] == "n":
            return st.fresh(CAP), 0, True
        if e[0] == "s":
            return st.fresh(len(e[1])), 0, False
        if e[0] == "b" and e[1] == "+":
            x = strip_cast(e[3])
            if libname(x) == "strlen" and x[3] and self.pos(st, e[2]) and self.pos(st, x[3][0]) == self.pos(st, e[2]):
                return st.fresh(0), 0, False
        if e[0] == "?":
            a, b = self.value(st, e[2]), self.value(st, e[3])
            if a and b:
                return st.fresh(min(st.hi[a[0]] - a[1], st.hi[b[0]] - b[1])), 0, a[2] or b[2]
            return None
        if e[0] == "c":
            nm = libname(e)
            if nm in FIND and e[3] and self.pos(st, e[3][0]):
                c = const_of(e[3][1]) if len(e[3]) > 1 else None
                y = strip_cast(e[3][1]) if len(e[3]) > 1 else ("n",)
                t = len(y[1]) if y[0] == "s" and nm == "strstr" else 1 if c or c is None and y[0] == "v" and y[3] == "p" else 0
                return st.fresh(0 if nm == "strchrnul" else t), 0, nm != "strchrnul"
            if nm == "rawmemchr":
                return st.fresh(1), 0, False
            if e[1] in self.text:
                return st.fresh(0), 0, e[1] in self.nulls
            f = self.p.funcs.get(e[1])
            if f is not None and short(e[1]).endswith("trim_cstr"):
                return st.fresh(0), 0, False
        if e[0] in ("m", "v") and self.key(e) is not None and (e[0] == "m"):
            return st.fresh(0), 0, False
        return None

    # -- problems
    def bad(self, n, k, msg):
        self.problems.setdefault((n.id, k), (n, k, msg))

    def look(self, st, n, r, delta, write=None):
        """r is looked at (or written): must not be behind the end"""
        g, o, nul, k = r
        o += delta
        if k is None:
            return
        self.used.setdefault(k, n)
        if nul:
            self.bad(n, k, "%s may be null" % name(k))
            st.at[k] = (g, st.at[k][1], False)
        elif o > st.hi[g]:
            self.bad(n, k, "%s may be behind the end of the text" % name(k))
            del st.at[k]
        elif write is not None and write != 0 and o == st.hi[g]:
            self.bad(n, k, "the end of the text may be overwritten")
            st.hi[g] = o + 1

    def assign(self, st, k, v):
        if v is None:
            st.at.pop(k, None)
        else:
            st.at[k] = v

    # -- transfer
    def step(self, n, st):
        ev = n.ev
        if n.k == "deref":
            r = self.abspos(st, ev["e"])
            if r and "r" in ev["rw"]:
                self.look(st, n, r, 0)
        elif n.k == "sub":
            x = strip_cast(ev["e"]) if "e" in ev else None
            if x and x[0] == "x" and const_of(x[2]) is not None and "r" in ev["rw"]:
                r = self.abspos(st, x[1])
                if r:
                    self.look(st, n, r, const_of(x[2]))
        elif n.k == "decl":
            if is_text(ev["t"]):
                k = ("v", ev["id"], ev["n"])
                if ev["id"] in self.refs:
                    pass    # the same variable by another name
                elif ev.get("init") is not None:
                    v = self.value(st, ev["init"])
                    if ev.get("param"):
                        fr, raw = ev["id"]
                        f = self.g.framefunc[fr]
                        i = [j for j, x in enumerate(f.params) if x["id"] == raw]
                        if not i or sized(f, i[0]) or raw in written_only(f):
                            v = None
                        elif v is None:
                            v = st.fresh(0), 0, False
                    self.assign(st, k, v)
                else:
                    st.at.pop(k, None)
            elif ev["t"] in ("bool", "const bool"):
                st.say.pop(ev["id"], None)
                if ev.get("init") is not None:
                    st.say[ev["id"]] = self.claims(st, ev["init"])
            elif ev.get("init") is not None and ev["t"] in ("char", "const char", "int", "unsigned char"):
                r = self.charpos(st, ev["init"])
                if r:
                    st.ch[ev["id"]] = r[:2]
                else:
                    st.ch.pop(ev["id"], None)
        elif n.k == "asg":
            l = strip_cast(ev["lhs"])
            k = self.key(l)
            if k is not None:
                if ev["op"] in ("++", "--") or ev["op"] in ("+=", "-="):
                    if k in st.at:
                        d = 1 if ev["op"] in ("++", "--") else self.amount(st, ev["rhs"])
                        rhs = strip_cast(ev["rhs"]) if ev.get("rhs") else ("n",)
                        g, o, nul = st.at[k]
                        if nul:
                            self.bad(n, k, "%s may be null" % name(k))
                            nul = False
                        if ev["op"] == "+=" and d is None and libname(rhs) == "strlen" and rhs[3] and self.key(rhs[3][0]) == k:
                            st.at[k] = (st.fresh(0), 0, nul)
                        elif d is None:
                            st.at.pop(k)
                        else:
                            st.at[k] = (g, o + (d if ev["op"] in ("++", "+=") else -d), nul)
                elif ev["op"] == "=":
                    self.assign(st, k, self.value(st, self.rhs(ev["rhs"])))
            elif l[0] == "v" and l[3] != "g" and l[4] in ("bool", "const bool"):
                st.say[l[2]] = self.claims(st, ev["rhs"]) if ev["op"] == "=" and ev.get("rhs") is not None else (frozenset(), frozenset())
            elif self.slot(l) is not None:
                r = self.charpos(st, ev["rhs"]) if ev["op"] == "=" and ev.get("rhs") is not None else None
                if r:
                    st.ch[self.slot(l)] = r[:2]
                else:
                    st.ch.pop(self.slot(l), None)
            elif ev["op"] == "=":
                r = None
                if l[0] == "u" and l[1] == "*":
                    r, d = self.abspos(st, l[2]), 0
                elif l[0] == "x" and const_of(l[2]) is not None:
                    r, d = self.abspos(st, l[1]), const_of(l[2])
                if r:
                    self.look(st, n, r, d, write=const_of(ev["rhs"]) if const_of(ev["rhs"]) is not None else -1)
        elif n.k == "call" and ev["e"][0] == "c":
            e = ev["e"]
            nm = libname(e)
            if nm == "rawmemchr" and const_of(e[3][1]) != 0 and self.pos(st, e[3][0]):
                r = self.abspos(st, e[3][0])
                if not (const_of(e[3][1]) is None):
                    self.bad(n, r[3], "the search goes on behind the end of the text")
            f = self.p.funcs.get(e[1])
            lib = f is None
            ex = not lib and self.expanded(n)
            for i, a in enumerate(e[3]):
                t = f.params[i]["t"] if f is not None and i < len(f.params) else "const char *"
                x = strip_cast(a)
                r = self.abspos(st, a)
                if r and (is_text(t) or lib) and (nm in FIND + ENDS + ("strlen", "atoi", "atol", "atoll", "atof", "strcmp", "strncmp", "strcpy", "strncpy", "strdup") or not lib) and not ex:
                    if "&" in t and "const &" not in t and t.strip().endswith("&"):
                        if r[1] > st.hi[r[0]]:
                            self.bad(n, r[3], "%s may be behind the end of the text" % name(r[3]))
                    else:
                        self.look(st, n, (r[0], r[1], False, r[3]), 0)
                # changed by the call
                k = self.key(x)
                if k and t.strip().endswith("&") and not t.startswith("const char *const") and not lib and not ex:
                    st.at[k] = (st.fresh(0), 0, False)
                if x[0] == "u" and x[1] == "&":
                    k = self.key(x[2])
                    if k and nm in ENDS:
                        st.at[k] = (st.fresh(0), 0, False)
                    elif k:
                        st.at.pop(k, None)
                    y = strip_cast(x[2])
                    if y[0] == "v":
                        st.ch.pop(y[2], None)
            if not lib and not ex:
                for k in [k for k in st.at if k[0] == "m"]:
                    if not (self.p.funcs[e[1]].static if hasattr(self.p.funcs[e[1]], "static") else False):
                        st.at.pop(k)
        elif n.k == "ret" and ev.get("e") is not None and n.frame == self.g.entry.frame:
            if is_text(self.f.ret):
                r = self.abspos(st, ev["e"])
                if r and r[1] > st.hi[r[0]]:
                    self.bad(n, r[3], "what is returned may be behind the end of the text")
        return st

    def rhs(self, e):
        e = strip_cast(e)
        return e

    def expanded(self, n):
        return any(self.g.nodes[s].frame != n.frame or self.g.nodes[s].ev and self.g.nodes[s].ev.get("param") for s, _ in n.succ)

    # -- conditions
    def claims(self, st, e):
        """what a condition says about the text if true, if false"""
        c = const_of(e)
        if c is not None:
            return (None, frozenset()) if c == 0 else (frozenset(), None)
        out = []
        for t in (True, False):
            x = st.copy()
            for _ in (1, 2):
                for a, b in truths(("cond", e, t)):
                    self.learn(x, a, b)
            cs = {(g, h) for g, h in x.hi.items() if g in st.hi and h > st.hi[g]}
            cs |= {(k,) for k, v in x.at.items() if k in st.at and st.at[k][2] and not v[2]}
            out.append(frozenset(cs))
        return tuple(out)

    def nonzero(self, st, r):
        if r and r[1] == st.hi.get(r[0]):
            st.hi[r[0]] = r[1] + 1

    def learn(self, st, e, t):
        e = strip_cast(e)
        if e[0] == "b" and e[1] in ("==", "!=", "<", "<=", ">", ">="):
            op, a, b = e[1], strip_cast(e[2]), strip_cast(e[3])
            if const_of(a) is not None and const_of(b) is None:
                a, b = b, a
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            # null?
            k = self.key(a)
            if k in st.at and (b[0] == "n" or const_of(b) == 0):
                if op in ("==", "!="):
                    g, o, nul = st.at[k]
                    if (op == "!=") == t:
                        st.at[k] = (g, o, False)
                    else:
                        st.at[k] = (g, o, True)
                return
            c = const_of(b)
            r = self.charpos(st, a)
            if r:
                given = c is None and b[0] == "v" and b[3] == "p" and b[4] in ("char", "const char")
                if c is not None and c != 0 and (op == "==" and t or op == "!=" and not t):
                    self.nonzero(st, r)
                elif given and (op == "==" and t or op == "!=" and not t):
                    self.nonzero(st, r)
                elif c == 0 and (op == "!=" and t or op == "==" and not t or op == ">" and t):
                    self.nonzero(st, r)
                elif c is not None and c > 0 and (op in (">", ">=") and t or op in ("<", "<=") and not t):
                    self.nonzero(st, r)
                return
            nm = libname(a)
            if nm in ISCH and c == 0 and a[3] and op in ("==", "!="):
                if (op == "!=") == t:
                    self.nonzero(st, self.charpos(st, a[3][0]))
                return
            if nm in ("strncmp", "strcmp", "memcmp", "strncasecmp", "strcasecmp") and c == 0 and (op == "==") == t and op in ("==", "!="):
                x, y = self.abspos(st, a[3][0]), text_of(self.p, self.g, a[3][1])
                m = self.amount(st, a[3][2]) if len(a[3]) > 2 else None
                if x and y is not None:
                    ln = min(len(y), m) if m is not None else len(y) if len(a[3]) == 2 else 0
                    st.hi[x[0]] = max(st.hi[x[0]], x[1] + ln)
                return
            if nm == "strlen" and c is not None:
                x = self.abspos(st, a[3][0])
                ln = c if op in (">=", "==") and t or op == "<" and not t else c + 1 if op == ">" and t or op == "<=" and not t else 1 if c == 0 and (op == "!=") == t else 0
                if x:
                    st.hi[x[0]] = max(st.hi[x[0]], x[1] + ln)
                return
            if a[0] == "c" and short(a[1]).endswith("::find") and a[3]:
                if (op == "!=") == t and op in ("==", "!="):
                    self.nonzero(st, self.charpos(st, a[3][0]))
                return
            x, y = self.abspos(st, a), self.abspos(st, b)
            if x and (op in ("<", "!=") and t or op in (">=", "==") and not t):
                if op in ("<", ">=") or y:
                    st.hi[x[0]] = max(st.hi[x[0]], x[1] + 1)
            return
        if e[0] == "c" and libname(e) in ISCH and e[3] and t:
            self.nonzero(st, self.charpos(st, e[3][0]))
            return
        k = self.key(e)
        if k in st.at:
            g, o, nul = st.at[k]
            st.at[k] = (g, o, not t)
            return
        if e[0] == "v" and e[2] in st.say:
            for c in st.say[e[2]][0 if t else 1] or ():
                st.claim(c)
            return
        if t:
            self.nonzero(st, self.charpos(st, e))

    def edge(self, st, l):
        if not l:
            return st
        if l[0] == "cond":
            st = st.copy()
            for _ in (1, 2):
                for e, t in truths(l):
                    self.learn(st, e, t)
        elif l[0] in ("case", "default"):
            r = self.charpos(st, l[1])
            vals = [const_of(v) for v in l[2]]
            if r and (l[0] == "case" and 0 not in vals and None not in vals or l[0] == "default" and 0 in vals):
                st = st.copy()
                self.nonzero(st, r)
        return st

    def start(self):
        st = State()
        for i, x in enumerate(self.f.params):
            if is_text(x["t"]) and not sized(self.f, i) and x["id"] not in self.outs:
                st.at[("v", (0, x["id"]), x["n"])] = (st.fresh(0), 0, False)
        return st

    def run(self):
        g = self.g
        ins = {g.entry.id: self.start()}
        seen = {}
        count = {}
        todo = [g.entry.id]
        while todo:
            x = todo.pop()
            n = g.nodes[x]
            st = self.step(n, ins[x].copy()) if n.ev else ins[x].copy()
            for s, l in n.succ:
                if l and l[0] in ("eh", "throw"):
                    continue
                out = self.edge(st, l)
                if s not in ins:
                    ins[s] = out
                else:
                    j = join(ins[s], out)
                    if j.norm() == ins[s].norm():
                        continue
                    count[s] = count.get(s, 0) + 1
                    if count[s] > 60:
                        # give up what keeps changing
                        for k in list(j.at):
                            if k in ins[s].at and (j.hi[j.at[k][0]] - j.at[k][1]) != (ins[s].hi[ins[s].at[k][0]] - ins[s].at[k][1]):
                                j.hi[j.at[k][0]] = min(j.hi[j.at[k][0]], j.at[k][1])
                        if count[s] > 120:
                            continue
                    ins[s] = j
                todo.append(s)
        # references at the end
        if g.exit.id in ins:
            st = ins[g.exit.id]
            for x in self.f.params:
                k = ("v", (0, x["id"]), x["n"])
                if x["t"].strip().endswith("&") and k in st.at:
                    gg, o, nul = st.at[k]
                    if o > st.hi[gg]:
                        self.bad(g.exit, k, "%s may be left behind the end of the text" % x["n"])
        return self


def sized(f, i):
    """a buffer given together with its size"""
    return i + 1 < len(f.params) and f.params[i + 1]["t"] in ("size_t", "int", "unsigned long", "unsigned int", "long", "unsigned short", "std::size_t", "const size_t", "const int")


def written_only(f):
    """parameters a function only writes through: room for its result"""
    ids = {x["id"] for x in f.params if is_text(x["t"])}
    read, put = set(), set()
    for ev in f.events():
        if ev["k"] in ("deref", "sub"):
            e = strip_cast(ev["e"])
            for v in walk(e):
                if v[0] == "v" and v[2] in ids:
                    (read if "r" in ev["rw"] else put).add(v[2])
    return put - read


def name(k):
    return k[2].split("::")[-1] if isinstance(k[2], str) else str(k[2])


def text_of(p, g, e):
    for o in origins(g, e):
        o = strip_cast(o)
        if o[0] == "s":
            return o[1]
        if o[0] == "v" and o[3] == "g":
            i = p.globals.get(o[1], {}).get("init")
            i = strip_cast(i) if i else None
            if i and i[0] == "s":
                return i[1]
    return None
