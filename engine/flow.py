"""Canonical expressions, inlined control-flow graphs and the must-dataflow of
branch facts and copies on them."""
from ir import *

# --------------------------------------------------------------------------
# canonical expressions

FLIP = {">": "<", ">=": "<="}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


class Canon:
    """Canonicaliser.  env maps canonical lvalues to canonical expressions."""

    def __init__(self, prog):
        self.prog = prog
        self._cache = {}

    def __call__(self, e, env=None, depth=0):
        if env is None:
            r = self._cache.get(e)
            if r is None:
                r = self._canon(e, {}, 0)
                self._cache[e] = r
            return r
        return self._canon(e, env, depth)

    def lv(self, e, env):
        """canonical lvalue: substitute in the base but not the variable itself
        (except for reference variables)"""
        e = strip_cast(e)
        if e[0] == "v":
            k = e[:4]
            if e[4].rstrip().endswith("&") and k in env:
                return env[k]
            return k
        if e[0] == "m":
            return ("m", self._base(e[1], env, 0), e[2])
        if e[0] == "u" and e[1] == "*":
            x = self._canon(e[2], env, 0)
            if x[0] == "u" and x[1] == "&":
                return x[2]
            return ("u", "*", x)
        if e[0] == "x":
            return ("x", self._canon(e[1], env, 0), self._canon(e[2], env, 0))
        return self._canon(e, env, 0)

    def _base(self, b, env, d):
        b = self._canon(b, env, d)
        while isinstance(b, tuple) and b[0] == "u" and b[1] in ("*", "&"):
            b = b[2]
        return b

    def _canon(self, e, env, d):
        if not isinstance(e, tuple) or not e:
            return e
        k = e[0]
        if k == "i":
            return ("i", e[1])
        if k == "n":
            return ("i", 0)
        if k == "v":
            key = e[:4]
            if key in env and d < 12:
                return env[key]
            if e[3] == "g":
                g = self.prog.globals.get(e[1])
                if g and g["init"] is not None and g["init"][0] in ("s",) and "const" in g["t"]:
                    return g["init"]
            return key
        if k == "m":
            r = ("m", self._base(e[1], env, d), e[2])
            if r in env and d < 12:
                return env[r]
            return r
        if k == "cast":
            return self._canon(e[2], env, d)
        if k == "c":
            fid = e[1]
            g = None
            tg = fid
            if e[4]:
                t = self.prog.targets(e)
                if len(t) == 1:
                    tg = t[0]
                else:
                    tg = None
            if tg:
                g = self.prog.getter(tg)
            if g and d < 8:
                pids, body = g
                sub = {}
                for pid, a in zip(pids, e[3]):
                    sub[pid] = a
                body2 = subst(body, sub, e[2], ("g", e[-1]))
                return self._canon(body2, env, d + 1)
            sn = short(fid)
            if sn.startswith(("std::atomic", "std::__atomic_base")) and e[2] is not None:
                bn = sn.split("::")[-1]
                if bn == "load" or (bn.startswith("operator") and not e[3] and bn not in ("operator++", "operator--", "operator=")):
                    return self._canon(e[2], env, d)
            if sn.startswith("std::") and sn.endswith(("::operator bool",)) and e[2] is not None:
                return self._canon(e[2], env, d)
            if sn.startswith("std::") and sn.split("::")[-1] in ("operator->", "operator*") and e[2] is not None and not e[3]:
                return ("u", "*", self._canon(e[2], env, d)) if sn.endswith("operator*") else ("u", "*", self._canon(e[2], env, d))
            if sn in ("std::operator==", "std::operator!=") and e[2] is None and len(e[3]) == 2:
                return self._canon(("b", sn[-2:], e[3][0], e[3][1]), env, d)
            if sn.startswith("std::") and sn.split("::")[-1] in ("operator==", "operator!=") and e[2] is not None and len(e[3]) == 1:
                return self._canon(("b", sn[-2:], e[2], e[3][0]), env, d)
            base = self._base(e[2], env, d) if e[2] is not None else None
            return ("c", sn, base, tuple(self._canon(a, env, d) for a in e[3]), e[-1])
        if k == "ci":
            return ("ci", self._canon(e[1], env, d), tuple(self._canon(a, env, d) for a in e[2]), e[-1])
        if k == "k":
            return ("k", e[1], tuple(self._canon(a, env, d) for a in e[3]))
        if k == "u":
            x = self._canon(e[2], env, d)
            if e[1] == "*" and x[0] == "u" and x[1] == "&":
                return x[2]
            if e[1] == "&" and x[0] == "u" and x[1] == "*":
                return x[2]
            if e[1] == "!":
                return neg(x)
            if e[1] == "-":
                if x[0] == "i":
                    return ("i", -x[1])
                return lin_make(lin_scale(lin(x), -1))
            if e[1] == "+":
                return x
            return ("u", e[1], x)
        if k == "b":
            op = e[1]
            a = self._canon(e[2], env, d)
            b = self._canon(e[3], env, d)
            return binop(op, a, b)
        if k == "x":
            return ("x", self._canon(e[1], env, d), self._canon(e[2], env, d))
        if k == "?":
            c = self._canon(e[1], env, d)
            a = self._canon(e[2], env, d)
            b = self._canon(e[3], env, d)
            return ("?", c, a, b)
        if k == "new":
            return ("new", e[1], self._canon(e[2], env, d), self._canon(e[3], env, d), (), e[-1])
        return tuple(self._canon(x, env, d) if isinstance(x, tuple) else x for x in e)


def binop(op, a, b):
    if op in ("+", "-"):
        la, lb = lin(a), lin(b)
        if op == "-":
            lb = lin_scale(lb, -1)
        return lin_make(lin_add(la, lb))
    if op == "*":
        if a[0] == "i" and b[0] == "i":
            return ("i", a[1] * b[1])
        if a[0] == "i":
            return lin_make(lin_scale(lin(b), a[1]))
        if b[0] == "i":
            return lin_make(lin_scale(lin(a), b[1]))
        x, y = sorted((a, b), key=repr)
        return ("b", "*", x, y)
    if a[0] == "i" and b[0] == "i":
        x, y = a[1], b[1]
        try:
            if op == "<<":
                return ("i", x << y)
            if op == ">>":
                return ("i", x >> y)
            if op == "&":
                return ("i", x & y)
            if op == "|":
                return ("i", x | y)
            if op == "/" and y:
                return ("i", int(x / y))
            if op == "%" and y:
                return ("i", x - int(x / y) * y)
        except Exception:
            pass
    if op in FLIP:
        return ("b", FLIP[op], b, a)
    if op in ("==", "!=", "&", "|", "^"):
        x, y = sorted((a, b), key=lambda z: (z[0] == "i", repr(z)))
        return ("b", op, x, y)
    return ("b", op, a, b)


def neg(x):
    if x[0] == "not":
        return x[1]
    if x[0] == "b":
        if x[1] in NEG:
            return binop(NEG[x[1]], x[2], x[3])
        if x[1] == "&&":
            return ("b", "||", neg(x[2]), neg(x[3]))
        if x[1] == "||":
            return ("b", "&&", neg(x[2]), neg(x[3]))
    if x[0] == "i":
        return ("i", int(not x[1]))
    return ("not", x)


# linear forms: dict term -> coefficient, () -> constant
def lin(e):
    if e[0] == "i":
        return {(): e[1]}
    if e[0] == "sum":
        d = {t: c for t, c in e[2]}
        if e[1]:
            d[()] = e[1]
        return d
    return {e: 1}


def lin_scale(d, k):
    return {t: c * k for t, c in d.items() if c * k != 0}


def lin_add(a, b):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) + c
        if r[t] == 0:
            del r[t]
    return r


def lin_make(d):
    d = dict(d)
    k = d.pop((), 0)
    d = {t: c for t, c in d.items() if c}
    if not d:
        return ("i", k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return ("sum", k, tuple(sorted(d.items(), key=lambda z: repr(z))))


def subst(e, params, this, frame):
    """substitute parameters and this in a raw expression"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == "v" and e[3] == "p" and e[2] in params:
        return params[e[2]]
    if e[0] == "t":
        return this if this is not None else e
    return tuple(subst(x, params, this, frame) if isinstance(x, tuple) else x for x in e)


# --------------------------------------------------------------------------
# atoms

def atoms(x, truth=True):
    """facts implied by canonical boolean x having the given truth value"""
    if not truth:
        x = neg(x)
    out = set()
    if x[0] == "b" and x[1] == "&&":
        out |= atoms(x[2])
        out |= atoms(x[3])
        return out
    if x[0] == "b" and x[1] == "||":
        out.add(x)
        return out
    if x[0] == "i":
        return out
    if x[0] == "b" and x[1] in ("==", "!="):
        # bool compared with constants, pointers compared with null
        a, b = x[2], x[3]
        if b == ("i", 0):
            if x[1] == "==":
                out |= atoms_truth(a, False)
            else:
                out |= atoms_truth(a, True)
            if a[0] == "b" and a[1] in ("==", "!=", "<", "<=", "&&", "||"):
                return out
        if b == ("i", 1) and a[0] == "b" and a[1] in ("==", "!=", "<", "<=", "&&", "||"):
            return atoms(a, x[1] == "==")
        out.add(x)
        return out
    if x[0] == "b" and x[1] in ("<", "<="):
        out.add(x)
        return out
    if x[0] == "not":
        out |= atoms_truth(x[1], False)
        return out
    out |= atoms_truth(x, True)
    return out


def atoms_truth(a, truth):
    if a[0] == "b" and a[1] in ("==", "!=", "<", "<=", "&&", "||"):
        return atoms(a, truth)
    if a[0] == "not":
        return atoms_truth(a[1], not truth)
    if a[0] == "i":
        return set()
    return {("b", "!=" if truth else "==", a, ("i", 0))}


def nonzero(e):
    return ("b", "!=", e, ("i", 0))


def iszero(e):
    return ("b", "==", e, ("i", 0))


def implies(facts, atom):
    """does the set of facts imply the atom (simple syntactic reasoning)?"""
    if atom in facts:
        return True
    if atom[0] != "b":
        return False
    op, a, b = atom[1], atom[2], atom[3]
    if op == "||":
        return implies(facts, atom[2]) or implies(facts, atom[3])
    if op == "&&":
        return implies(facts, atom[2]) and implies(facts, atom[3])
    # difference form: a - b REL 0
    if op in ("<", "<=", "==", "!="):
        d = lin_add(lin(a), lin_scale(lin(b), -1))
        k = d.pop((), 0)
        key = tuple(sorted(d.items(), key=repr))
        lo, hi = None, None   # bounds for the non-constant part from facts
        ne = set()
        for f in facts:
            if f[0] != "b" or f[1] not in ("<", "<=", "==", "!="):
                continue
            fd = lin_add(lin(f[2]), lin_scale(lin(f[3]), -1))
            fk = fd.pop((), 0)
            fkey = tuple(sorted(fd.items(), key=repr))
            nkey = tuple(sorted(((t, -c) for t, c in fd.items()), key=repr))
            if fkey == key:
                # part + fk REL 0
                if f[1] == "<":
                    hi = min(x for x in (hi, -fk - 1) if x is not None)
                elif f[1] == "<=":
                    hi = min(x for x in (hi, -fk) if x is not None)
                elif f[1] == "==":
                    hi = min(x for x in (hi, -fk) if x is not None)
                    lo = max(x for x in (lo, -fk) if x is not None)
                else:
                    ne.add(-fk)
            elif nkey == key:
                # -part + fk REL 0
                if f[1] == "<":
                    lo = max(x for x in (lo, fk + 1) if x is not None)
                elif f[1] == "<=":
                    lo = max(x for x in (lo, fk) if x is not None)
                elif f[1] == "==":
                    hi = min(x for x in (hi, fk) if x is not None)
                    lo = max(x for x in (lo, fk) if x is not None)
                else:
                    ne.add(fk)
        if not key:
            lo = hi = 0
        v = -k
        if op == "<":
            return hi is not None and hi < v
        if op == "<=":
            return hi is not None and hi <= v
        if op == "==":
            return lo is not None and lo == hi == v
        if op == "!=":
            return v in ne or (hi is not None and hi < v) or (lo is not None and lo > v)
    return False


# --------------------------------------------------------------------------
# flattened (inlined) graphs

class Node:
    __slots__ = ("id", "k", "ev", "line", "func", "frame", "succ", "pred", "depth", "call", "block")

    def __repr__(self):
        return "<%d %s %s:%s>" % (self.id, self.k, self.func.short, self.line)

    @property
    def loc(self):
        return "%s:%s" % (self.func.file, self.line)


def by_ref(fid, _memo={}):
    """for each parameter in a signature: can the callee change the argument?"""
    if fid not in _memo:
        out = []
        i = fid.rfind(")")
        d, j = 0, i
        while j >= 0:
            if fid[j] == ")":
                d += 1
            elif fid[j] == "(":
                d -= 1
                if d == 0:
                    break
            j -= 1
        cur, d = "", 0
        for c in fid[j + 1:i] + ",":
            if c in "<(":
                d += 1
            elif c in ">)":
                d -= 1
            if c == "," and d == 0:
                t = cur.strip()
                out.append(t.endswith("&") and not (t.startswith("const ") and "*" not in t or t.endswith("const &")))
                cur = ""
            else:
                cur += c
        _memo[fid] = out
    return _memo[fid]


def _path(e, top=True):
    """field, variable, element or constant: no calls, arithmetic or allocation"""
    e = strip_cast(e)
    if e[0] in ("n", "i", "s"):
        return not top
    if e[0] in ("v", "t"):
        return True
    if e[0] == "m":
        return _path(e[1], False)
    if e[0] == "u" and e[1] in ("*", "&"):
        return _path(e[2], False)
    if e[0] == "x":
        return _path(e[1], False) and _path(e[2], False)
    return False


class Graph:
    """Graph of events of a function with selected callees inlined.

    inline(func, callexpr, depth) decides whether a callee body is expanded.
    Edges are (node id, label) with label None, ("cond", expr, truth),
    ("case", expr, values), ("default", expr, values), ("catch",), ("eh",),
    ("throw",)."""

    def __init__(self, prog, func, inline=None, maxdepth=6, keep_eh=True, alias=False):
        self.prog = prog
        self.func = func
        self.nodes = []
        self.inline = inline
        self.maxdepth = maxdepth
        self.frames = 0
        self.keep_eh = keep_eh
        self.stack = []
        self.framefunc = {}
        self.throw_exit = None
        self.entry = self._new("entry", None, func.line, func, 0, 0, ())
        self.exit = self._new("exit", None, func.end, func, 0, 0, ())
        self.texit = self._new("texit", None, func.end, func, 0, 0, ())
        e, = [self._expand(func, None, None, 0, self.exit, self.texit, 0, ())]
        self.entry.succ.append((e.id, None))
        self._prune()
        self._references()
        if alias:
            self._alias()
        else:
            self._tests()

    def _references(self):
        """writes references to a variable, or to a field of this object, as
        what they refer to"""
        sub = {}
        for n in self.nodes:
            if n.k == "decl" and n.ev["t"].endswith(" &") and n.ev.get("init") is not None:
                e = n.ev["init"]
                if e[0] == "v" and e[3] != "g" or e[0] == "m" and e[1][0] == "t" and not n.ev.get("param"):
                    sub[n.ev["id"]] = e if n.ev["id"] not in sub or sub[n.ev["id"]] == e else None
        sub = {k: v for k, v in sub.items() if v}
        if not sub:
            return
        def rep(e, depth=0):
            if not isinstance(e, tuple) or not e:
                return e
            if e[0] == "v" and e[3] != "g" and e[2] in sub and depth < 12:
                return rep(sub[e[2]], depth + 1)
            return tuple(rep(x, depth) if isinstance(x, tuple) else x for x in e)
        for n in self.nodes:
            if n.ev:
                n.ev = {k: rep(v) if isinstance(v, tuple) and k != "id" else v for k, v in n.ev.items()}
            n.succ = [(s, (l[0], rep(l[1])) + l[2:] if l and l[0] in ("cond", "case", "default") else l) for s, l in n.succ]
            n.pred = [(s, (l[0], rep(l[1])) + l[2:] if l and l[0] in ("cond", "case", "default") else l) for s, l in n.pred]

    def _tests(self):
        """writes a truth value that is kept in a local only to be branched on
        once as the comparison it was set to"""
        defs, uses = {}, {}
        for n in self.nodes:
            if n.k == "decl" and n.ev["t"] in ("bool", "const bool") and n.ev.get("init") is not None:
                defs.setdefault(n.ev["id"], []).append(n.ev["init"])
        if not defs:
            return
        for n in self.nodes:
            for v in n.ev.values() if n.ev else ():
                if isinstance(v, tuple):
                    for x in walk(v):
                        if x[0] == "v" and x[2] in defs:
                            uses.setdefault(x[2], set()).add(None)
            for s, l in n.succ:
                if l and l[0] in ("cond", "case", "default") and isinstance(l[1], tuple):
                    e = l[1]
                    while e[0] == "u" and e[1] == "!" or e[0] == "cast":
                        e = e[2]
                    for x in walk(l[1]):
                        if x[0] == "v" and x[2] in defs:
                            uses.setdefault(x[2], set()).add(n.id if x == e else None)
        sub = {}
        for k, ds in defs.items():
            e = ds[0]
            while len(ds) == 1 and (e[0] == "cast" or e[0] == "u" and e[1] == "!"):
                e = e[2]
            if len(ds) == 1 and len(uses.get(k, ())) == 1 and None not in uses[k] and (e[0] == "b" and e[1] in ("==", "!=", "<", ">", "<=", ">=") or e[0] == "c" and ("operator==" in e[1] or "operator!=" in e[1])):
                sub[k] = ds[0]
        for k in self._stale(sub):
            del sub[k]
        if not sub:
            return
        def rep(e):
            if not isinstance(e, tuple) or not e:
                return e
            if e[0] == "v" and e[2] in sub:
                return sub[e[2]]
            return tuple(rep(x) if isinstance(x, tuple) else x for x in e)
        for n in self.nodes:
            n.succ = [(s, (l[0], rep(l[1])) + l[2:] if l and l[0] == "cond" else l) for s, l in n.succ]
            n.pred = [(s, (l[0], rep(l[1])) + l[2:] if l and l[0] == "cond" else l) for s, l in n.pred]

    def _plain(self, t):
        """pointer, reference or number: not an object with operations of its own"""
        t = t.strip()
        return t.endswith(("*", "&", "*const")) or "<" not in t and "std::" not in t and t.replace("const ", "").replace("struct ", "") not in self.prog.records

    def _alias(self):
        """writes locals that only stand for another expression (one
        definition: a field, variable or the like, or any truth value) as that
        expression wherever they are used.  Names then agree between code that
        uses a field directly and code that keeps it in a local first."""
        defs, types, taken = {}, {}, set()
        for n in self.nodes:
            if n.k == "decl":
                types[n.ev["id"]] = n.ev["t"]
                if n.ev["init"] is not None:
                    defs.setdefault(n.ev["id"], []).append(n.ev["init"])
            elif n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["lhs"][3] != "g":
                defs.setdefault(n.ev["lhs"][2], []).append(n.ev["rhs"] if n.ev["op"] == "=" and n.ev["rhs"] is not None else None)
                types.setdefault(n.ev["lhs"][2], n.ev["lhs"][4] if len(n.ev["lhs"]) > 4 else "")
            if n.ev:
                for v in n.ev.values():
                    if isinstance(v, tuple):
                        for x in walk(v):
                            if x[0] == "u" and x[1] == "&" and x[2][0] == "v":
                                taken.add(x[2][2])
                            elif x[0] in ("c", "k"):
                                fid, args = (x[1], x[3]) if x[0] == "c" else (x[2], x[3])
                                if fid and any(a[0] == "v" for a in args):
                                    for a, r in zip(args, by_ref(fid)):
                                        if r and a[0] == "v":
                                            taken.add(a[2])
        sub = {}
        for k, ds in defs.items():
            if len(ds) == 1 and ds[0] is not None and k not in taken and (types.get(k) in ("bool", "const bool") or _path(ds[0]) and self._plain(types.get(k, ""))):
                sub[k] = ds[0]
        late = self._stale(sub)
        memo, all_memo = {}, {}
        def rep(e, depth=0):
            if not isinstance(e, tuple) or not e:
                return e
            if e[0] == "v" and e[3] != "g" and e[2] in sub and e[2] not in banned and depth < 12:
                if e[2] not in memo:
                    memo[e[2]] = e
                    memo[e[2]] = rep(sub[e[2]], depth + 1)
                return memo[e[2]]
            return tuple(rep(x, depth) if isinstance(x, tuple) else x for x in e)
        self.sub = sub
        for n in self.nodes:
            banned = frozenset(k for k in late if n.id in late[k])
            memo = all_memo.setdefault(banned, {})
            if n.ev:
                ev = {}
                for k, v in n.ev.items():
                    if isinstance(v, tuple) and not (k == "lhs" and v[0] == "v") and k not in ("id",):
                        v = rep(v)
                    ev[k] = v
                n.ev = ev
            n.succ = [(s, (l[0], rep(l[1])) + l[2:] if l and l[0] in ("cond", "case", "default") else l) for s, l in n.succ]
            
        for n in self.nodes:
            n.pred = []
        for n in self.nodes:
            for s, l in n.succ:
                self.nodes[s].pred.append((n.id, l))

    def _stale(self, sub):
        """where locals are used after what they stand for may have been
        assigned"""
        out = {}
        wr = {}
        for n in self.nodes:
            if n.k == "asg":
                x = n.ev["lhs"]
                wr.setdefault(("m", x[2]) if x[0] == "m" else ("v", x[2] or x[1]) if x[0] == "v" else None, []).append(n)
        for k in list(sub):
            ws = []
            for x in walk(sub[k]):
                key = ("m", x[2]) if x[0] == "m" else ("v", x[2] or x[1]) if x[0] == "v" else None
                if key:
                    ws += wr.get(key, ())
            if not ws:
                continue
            defs = [n.id for n in self.nodes if n.k == "decl" and n.ev["id"] == k and n.ev["init"] is not None or n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["lhs"][2] == k]
            after = self._from(defs, defs)
            ws = [n.id for n in ws if n.id in after]
            if not ws:
                continue
            def has(v):
                return isinstance(v, tuple) and any(x[0] == "v" and x[2] == k for x in walk(v))
            late = self._from(ws, defs)
            if any(i not in defs and (any(has(v) for v in self.nodes[i].ev.values()) if self.nodes[i].ev else False) or any(l and l[0] in ("cond", "case") and has(l[1]) for s, l in self.nodes[i].succ) for i in late):
                out[k] = late
        return out

    def _from(self, starts, stop):
        """nodes after starts, not going past stop"""
        seen, todo = set(), list(starts)
        while todo:
            for s, l in self.nodes[todo.pop()].succ:
                if s not in seen and s not in stop:
                    seen.add(s)
                    todo.append(s)
        return seen

    def _new(self, k, ev, line, func, frame, depth, call):
        n = Node()
        n.id = len(self.nodes)
        n.k = k
        n.ev = ev
        n.line = line
        n.func = func
        n.frame = frame
        n.succ = []
        n.pred = []
        n.depth = depth
        n.call = call
        n.block = None
        self.nodes.append(n)
        return n

    def _ren(self, e, frame, this, retmap):
        if not isinstance(e, tuple) or not e:
            return e
        k = e[0]
        if k == "v":
            if e[3] == "g":
                return e
            if isinstance(e[2], tuple):
                return e
            return (e[0], e[1], (frame, e[2])) + e[3:]
        if k == "t":
            return this if this is not None else e
        if k in ("c", "ci", "k", "new"):
            cid = (frame, e[-1])
            if cid in retmap:
                return retmap[cid]
            return tuple(self._ren(x, frame, this, retmap) if isinstance(x, tuple) else x for x in e[:-1]) + (cid,)
        return tuple(self._ren(x, frame, this, retmap) if isinstance(x, tuple) else x for x in e)

    def _expand(self, func, this, argmap, frame, exitn, texitn, depth, callchain):
        """adds nodes for func; returns its entry node"""
        self.stack.append(func.id)
        self.framefunc[frame] = func
        retmap = {}
        first = {}
        last = {}
        # heads of blocks
        for b in func.blocks.values():
            n = self._new("blk", None, None, func, frame, depth, callchain)
            n.block = b.id
            first[b.id] = n
        # which call ids to inline: decided block by block, in order
        todo = []
        for b in func.blocks.values():
            for ev in b.ev:
                if ev["k"] == "call" and ev["e"][0] == "c" and self.inline is not None and depth < self.maxdepth:
                    tg = self.prog.targets(ev["e"], func)
                    tg = [t for t in tg if t not in self.stack]
                    if tg and all(self.inline(self.prog.funcs[t], ev["e"], depth) for t in tg) and len(tg) <= 6:
                        self.frames += 1
                        fr = [self.frames + i for i in range(len(tg))]
                        self.frames += len(tg) - 1
                        f0 = self.prog.funcs[tg[0]]
                        rv = ("v", "$ret", (fr[0], "ret"), "l", f0.ret)
                        todo.append((b.id, ev, tg, fr, rv))
                        retmap[(frame, ev["e"][-1])] = rv
        tdm = {id(t[1]): t for t in todo}
        for b in func.blocks.values():
            cur = first[b.id]
            eh = [s for s in b.succ if s[1] and s[1][0] in ("eh",)]
            ehn = None
            if eh:
                s = eh[0][0]
                if s == func.exit:
                    ehn = None  # uncaught: not followed
                else:
                    ehn = first[s]
            thr = [s for s in b.succ if s[1] and s[1][0] == "throw"]
            for ev in b.ev:
                ne = dict(ev)
                for k in ("e", "lhs", "rhs", "init", "vla"):
                    if isinstance(ne.get(k), tuple):
                        if k == "e" and id(ev) in tdm:
                            rm = dict(retmap)
                            rm.pop((frame, ev["e"][-1]), None)
                            ne[k] = self._ren(ne[k], frame, this, rm)
                        else:
                            ne[k] = self._ren(ne[k], frame, this, retmap)
                if ev["k"] in ("decl", "dtor"):
                    ne["id"] = (frame, ev["id"])
                if ev["k"] == "ret" and frame != 0:
                    n = self._new("ret", ne, ev["l"], func, frame, depth, callchain)
                    cur.succ.append((n.id, None))
                    cur = n
                    if ne["e"] is not None:
                        rf = argmap["$ret"]
                        n2 = self._new("asg", {"k": "asg", "op": "=", "l": ev["l"], "lhs": rf, "rhs": ne["e"]}, ev["l"], func, frame, depth, callchain)
                        cur.succ.append((n2.id, None))
                        cur = n2
                    continue
                n = self._new(ev["k"], ne, ev.get("l"), func, frame, depth, callchain)
                cur.succ.append((n.id, None))
                cur = n
                if id(ev) in tdm:
                    _, _, tg, frs, rv = tdm[id(ev)]
                    after = self._new("after", {"k": "after", "e": ne["e"]}, ev["l"], func, frame, depth, callchain)
                    for t, fr in zip(tg, frs):
                        cf_ = self.prog.funcs[t]
                        c2 = cur
                        for i, p in enumerate(cf_.params):
                            a = ne["e"][3][i] if i < len(ne["e"][3]) else ("o", "noarg")
                            pn = self._new("decl", {"k": "decl", "l": ev["l"], "n": p["n"], "id": (fr, p["id"]), "t": p["t"], "init": a, "st": 0, "vla": None, "param": 1}, ev["l"], func, frame, depth, callchain)
                            c2.succ.append((pn.id, None))
                            c2 = pn
                        base = ne["e"][2]
                        if base is not None:
                            while base[0] == "u" and base[1] == "&":
                                base = base[2]
                        ent = self._expand(cf_, base, {"$ret": rv}, fr, after, ehn or texitn, depth + 1, callchain + ((func, ev["l"], cf_),))
                        c2.succ.append((ent.id, None))
                    cur = after
                if ehn is not None and ev["k"] == "call" and self.keep_eh:
                    # an exception may leave the call
                    if not any(s[0] == ehn.id for s in cur.succ):
                        cur.succ.append((ehn.id, ("eh",)))
            # terminator
            for s, lab in b.succ:
                if lab and lab[0] == "eh":
                    continue
                if lab and lab[0] == "throw":
                    if s == func.exit:
                        cur.succ.append((texitn.id, ("throw",)))
                    else:
                        cur.succ.append((first[s].id, ("throw",)))
                    continue
                l2 = lab
                if lab and lab[0] in ("cond", "case", "default"):
                    l2 = (lab[0], self._ren(lab[1], frame, this, retmap)) + lab[2:]
                if b.noret:
                    continue
                if s == func.exit:
                    if b.term and b.term.get("k") == "CXXTryStmt":
                        cur.succ.append((texitn.id, l2))
                    else:
                        cur.succ.append((exitn.id, l2))
                else:
                    cur.succ.append((first[s].id, l2))
            b_ = b
        self.stack.pop()
        return first[func.entry]

    def _prune(self):
        seen = {self.entry.id}
        st = [self.entry.id]
        while st:
            x = st.pop()
            for s, _ in self.nodes[x].succ:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        self.live = seen
        for n in self.nodes:
            n.pred = []
        for n in self.nodes:
            if n.id not in seen:
                continue
            for s, l in n.succ:
                self.nodes[s].pred.append((n.id, l))

    def __iter__(self):
        for n in self.nodes:
            if n.id in self.live:
                yield n

    def rpo(self):
        order = []
        seen = set()
        st = [(self.entry.id, 0)]
        seen.add(self.entry.id)
        while st:
            x, i = st.pop()
            su = self.nodes[x].succ
            if i < len(su):
                st.append((x, i + 1))
                s = su[i][0]
                if s not in seen:
                    seen.add(s)
                    st.append((s, 0))
            else:
                order.append(x)
        order.reverse()
        return order


# --------------------------------------------------------------------------
# must-dataflow: copies and branch facts

def expr_keys(e):
    """variables/fields/derefs an expression depends on"""
    out = set()
    for s in walk(e):
        if s[0] == "v":
            out.add(("v", s[1], s[2]))
        elif s[0] == "m":
            out.add(("f", s[2]))
        elif s[0] == "x":
            out.add(("mem",))
            r = root_of(s)
            out.add(("arr", r))
        elif s[0] == "u" and s[1] == "*":
            out.add(("mem",))
    return frozenset(out)


def root_of(e):
    while isinstance(e, tuple) and e and e[0] in ("x", "cast"):
        e = e[1] if e[0] == "x" else e[2]
    if isinstance(e, tuple) and e and e[0] == "v":
        return ("v", e[1], e[2])
    if isinstance(e, tuple) and e and e[0] == "m":
        return ("f", e[2])
    return ("?",)


class Facts:
    """must-analysis over a Graph; state_at(node) gives (env, facts) before
    the node."""

    def __init__(self, graph, extra_edge_facts=None):
        self.g = graph
        self.prog = graph.prog
        self.canon = Canon(graph.prog)
        self.mods = graph.prog.mods()
        self._keys = {}
        self.IN = {}
        self._solve()

    def keys(self, e):
        r = self._keys.get(e)
        if r is None:
            r = expr_keys(e)
            self._keys[e] = r
        return r

    def _kill(self, st, dead):
        env, facts = st
        bad = [k for k, v in env.items() if (self.keys(k) & dead and not (len(self.keys(k)) == 0)) or self.keys(v) & dead]
        if bad:
            env = dict(env)
            for k in bad:
                del env[k]
        f2 = {f for f in facts if not (self.keys(f) & dead)}
        if len(f2) != len(facts):
            facts = frozenset(f2)
        return env, facts

    def lv_dead(self, lv):
        if lv[0] == "v":
            return {("v", lv[1], lv[2])}
        if lv[0] == "m":
            return {("f", lv[2])}
        if lv[0] == "x":
            r = root_of(lv)
            return {("arr", r)}
        if lv[0] == "u" and lv[1] == "*":
            x = lv[2]
            return {("mem",)} if True else set()
        return set()

    def transfer(self, n, st):
        k = n.k
        ev = n.ev
        env, facts = st
        if k == "decl":
            key = ("v", ev["n"], ev["id"], "p" if ev.get("param") else "l")
            # parameters are referred to with kind "p"
            val = self.canon(ev["init"], env) if ev["init"] is not None else None
            st = self._kill(st, {("v", ev["n"], ev["id"])})
            if ev.get("st"):
                return st
            if val is not None and size(val) < 60 and ("v", ev["n"], ev["id"]) not in self.keys(val):
                env = dict(st[0])
                env[key] = val
                st = (env, st[1])
            return st
        if k == "asg":
            lv = self.canon.lv(ev["lhs"], env)
            if ev["op"] == "=":
                val = self.canon(ev["rhs"], env)
                dead = self.lv_dead(lv)
                st = self._kill(st, dead)
                if lv[0] in ("v", "m") and size(val) < 60 and not (self.keys(val) & dead):
                    # forget by-name aliases of the same field with another base: done by kill
                    env = dict(st[0])
                    env[lv] = val
                    st = (env, st[1])
                return st
            dead = self.lv_dead(lv)
            old = None
            if ev["op"] in ("++", "--", "+=", "-=") and lv[0] == "v":
                old = env.get(lv)
                d = ("i", 1) if ev["op"] in ("++", "--") else self.canon(ev["rhs"], env)
            st = self._kill(st, dead)
            if old is not None and not (self.keys(old) & dead) and not (self.keys(d) & dead):
                env = dict(st[0])
                env[lv] = binop("+" if ev["op"] in ("++", "+=") else "-", old, d)
                st = (env, st[1])
            return st
        if k in ("call", "after", "ctor"):
            e = ev["e"]
            if k == "call" and self.is_inlined(n):
                return st
            dead = set()
            if k == "after":
                return st
            if e[0] in ("c", "k"):
                tg = self.prog.targets(e, n.func)
                for t in tg:
                    for m in self.mods.get(t, ()):
                        dead.add(("f", m))
                        dead.add(("v", m, 0))
                args = e[3]
                if not tg:
                    # external: may modify through non-const reference / pointer arguments
                    sn = short(e[1] if e[0] == "c" else e[2])
                    for a in args:
                        a = strip_cast(a)
                        if a[0] == "u" and a[1] == "&":
                            dead |= self.lv_dead(self.canon.lv(a[2], env))
                        elif a[0] == "v" and a[3] in ("l",) and not is_const_ext(sn):
                            dead.add(("arr", ("v", a[1], a[2])))
                    if e[0] == "c" and e[2] is not None and not sn.endswith("const") and not e[1].endswith("const"):
                        b = strip_cast(e[2])
                        if b[0] == "m" and not is_ro_method(sn):
                            dead.add(("f", b[2]))
                        elif b[0] == "v" and not is_ro_method(sn):
                            dead.add(("v", b[1], b[2]))
                else:
                    for a in args:
                        a = strip_cast(a)
                        if a[0] == "u" and a[1] == "&":
                            dead |= self.lv_dead(self.canon.lv(a[2], env))
                    # by-reference parameters
                    f = self.prog.funcs[tg[0]]
                    for p, a in zip(f.params, args):
                        t = p["t"].strip()
                        if t.endswith("&") and not t.startswith("const "):
                            a = strip_cast(a)
                            dead |= self.lv_dead(self.canon.lv(a, env))
            if dead:
                st = self._kill(st, dead)
            return st
        return st

    def is_inlined(self, n):
        return any(self.g.nodes[s].k == "decl" and self.g.nodes[s].ev.get("param") for s, _ in n.succ) or \
            any(self.g.nodes[s].k == "blk" and self.g.nodes[s].frame != n.frame and self.g.nodes[s].depth == n.depth + 1 for s, _ in n.succ)

    def edge(self, st, label):
        if label is None:
            return st
        env, facts = st
        if label[0] == "cond":
            c = self.canon(label[1], env)
            fs = atoms_truth(c, label[2])
            raw = atoms_truth(self.canon(label[1], {}), label[2])
            return env, facts | fs | raw
        if label[0] == "case":
            c = self.canon(label[1], env)
            raw = self.canon(label[1], {})
            vals = label[2]
            if len(vals) == 1:
                v = self.canon(vals[0], {})
                return env, facts | {binop("==", c, v), binop("==", raw, v)}
            return st
        if label[0] == "default":
            c = self.canon(label[1], env)
            return env, facts | {binop("!=", c, self.canon(v, {})) for v in label[2]}
        return st

    def _solve(self):
        order = self.g.rpo()
        pos = {x: i for i, x in enumerate(order)}
        IN = self.IN
        IN[self.g.entry.id] = ({}, frozenset())
        import heapq
        work = [0]
        inq = {self.g.entry.id}
        OUTE = {}
        cnt = 0
        while work:
            i = heapq.heappop(work)
            x = order[i]
            inq.discard(x)
            n = self.g.nodes[x]
            cnt += 1
            if cnt > 400000:
                raise AnalysisError("facts analysis of %s does not converge" % self.g.func.short)
            out = self.transfer(n, IN[x])
            for idx, (s, l) in enumerate(n.succ):
                if l and l[0] in ("eh",):
                    o = (IN[x][0], IN[x][1])
                    o = self._meet(o, out)
                else:
                    o = self.edge(out, l)
                if s not in IN:
                    IN[s] = o
                else:
                    m = self._meet(IN[s], o)
                    if m[1] == IN[s][1] and len(m[0]) == len(IN[s][0]):
                        continue
                    IN[s] = m
                if s not in inq:
                    inq.add(s)
                    heapq.heappush(work, pos[s])

    def _meet(self, a, b):
        ea, fa = a
        eb, fb = b
        if ea is eb:
            e = ea
        else:
            e = {k: v for k, v in ea.items() if eb.get(k) == v}
        return e, (fa if fa is fb else fa & fb)

    def at(self, n):
        return self.IN.get(n.id if isinstance(n, Node) else n, ({}, frozenset()))

    def c(self, n, e):
        """canonical expression e as evaluated at node n"""
        return self.canon(e, self.at(n)[0])

    def holds(self, n, atom):
        return implies(self.at(n)[1], atom)


def size(e):
    n = 1
    for x in e:
        if isinstance(x, tuple):
            n += size(x)
    return n


RO_METHODS = {"begin", "end", "find", "front", "back", "at", "data", "rbegin", "rend", "size", "empty", "c_str", "load",
              "lower_bound", "upper_bound", "get", "operator->", "operator*", "count", "operator[]", "operator bool", "lock", "unlock"}


def is_ro_method(sn):
    return sn.split("::")[-1] in RO_METHODS


CONST_EXT = {"strlen", "strcmp", "strncmp", "memcmp", "strchr", "strstr", "printf", "fprintf", "write", "fwrite", "rm_file",
             "free", "strcasecmp", "atoi", "atoll", "fputs", "strdup", "fclose", "fflush"}


def is_const_ext(sn):
    return sn.split("::")[-1] in CONST_EXT


# --------------------------------------------------------------------------
# generic must-pass-before analysis

def must_before(graph, gen, start=None, kill=None):
    """For each node the set of tags that occurred on every path from entry
    to (before) it.  gen(node) -> iterable of tags; kill(node) -> tags."""
    order = graph.rpo()
    pos = {x: i for i, x in enumerate(order)}
    import heapq
    IN = {graph.entry.id: frozenset(start or ())}
    G = {}
    K = {}
    for x in order:
        G[x] = frozenset(gen(graph.nodes[x]) or ())
        K[x] = frozenset(kill(graph.nodes[x]) or ()) if kill else frozenset()
    work = [0]
    while work:
        i = heapq.heappop(work)
        x = order[i]
        out = (IN[x] - K[x]) | G[x]
        for s, l in graph.nodes[x].succ:
            o = out
            if l and l[0] == "eh":
                o = IN[x] & out
            if s not in IN:
                IN[s] = o
                heapq.heappush(work, pos[s])
            else:
                m = IN[s] & o
                if m != IN[s]:
                    IN[s] = m
                    heapq.heappush(work, pos[s])
    return IN


def may_before(graph, gen, kill=None):
    order = graph.rpo()
    pos = {x: i for i, x in enumerate(order)}
    import heapq
    IN = {x: frozenset() for x in order}
    G = {x: frozenset(gen(graph.nodes[x]) or ()) for x in order}
    K = {x: frozenset(kill(graph.nodes[x]) or ()) if kill else frozenset() for x in order}
    work = list(range(len(order)))
    heapq.heapify(work)
    inq = set(work)
    while work:
        i = heapq.heappop(work)
        inq.discard(i)
        x = order[i]
        out = (IN[x] - K[x]) | G[x]
        for s, l in graph.nodes[x].succ:
            if not out <= IN[s]:
                IN[s] = IN[s] | out
                if pos[s] not in inq:
                    inq.add(pos[s])
                    heapq.heappush(work, pos[s])
    return IN


def must_after(graph, gen, exits=None, kill=None):
    """For each node the tags that occur on every path from (after) it to a
    normal exit."""
    ex = exits or [graph.exit.id]
    # nodes that can reach an exit
    OUT = {}
    import collections
    order = graph.rpo()[::-1]
    G = {x: frozenset(gen(graph.nodes[x]) or ()) for x in order}
    ALL = frozenset().union(*G.values()) if G else frozenset()
    for x in order:
        OUT[x] = None   # unknown = top
    for e in ex:
        OUT[e] = frozenset()
    changed = True
    while changed:
        changed = False
        for x in order:
            if x in ex:
                continue
            m = None
            for s, l in graph.nodes[x].succ:
                if OUT.get(s) is None:
                    continue
                v = OUT[s] | G[s]
                m = v if m is None else (m & v)
            if m is not None and m != OUT[x]:
                OUT[x] = m
                changed = True
    return {x: (v if v is not None else ALL) for x, v in OUT.items()}


# --------------------------------------------------------------------------
# path search that remembers the values of local flags

class Leaving:
    """the edges out of a node that branches on its own result"""

    def __init__(self, node):
        self.node = node


class PathSearch:
    """Reachability over a Graph that tracks what is known about local
    variables and call results (constants, null, non-null), so that a flag or
    a helper's result tested twice does not open impossible paths."""

    LIMIT = 24      # different valuations kept per node

    def __init__(self, g):
        self.g = g
        self.refs = set()
        for n in g:
            if n.k == "decl" and n.ev["t"].rstrip().endswith("&") and n.ev["init"] is not None:
                for s in walk(n.ev["init"]):
                    if s[0] == "v":
                        self.refs.add(s[2])
        for n in g:
            for k in ("e", "rhs", "init"):
                e = n.ev.get(k) if n.ev else None
                if isinstance(e, tuple):
                    for s in walk(e):
                        if s[0] == "u" and s[1] == "&":
                            b = strip_cast(s[2])
                            if b[0] == "v":
                                self.refs.add(b[2])
                        elif s[0] == "lam":
                            for t in walk(s):
                                if t[0] == "v":
                                    self.refs.add(t[2])
        self._inl = {}
        # keys whose value can influence a branch
        keep = set()
        copies = {}
        for n in g:
            for s_, l in n.succ:
                if l and l[0] in ("cond", "case", "default"):
                    for x in walk(l[1]):
                        if x[0] == "v":
                            keep.add(x[2])
                        elif x[0] in ("c", "ci"):
                            keep.add(("c", x[-1]))
            if n.k == "decl" and n.ev["init"] is not None:
                copies.setdefault(n.ev["id"], []).append(n.ev["init"])
            elif n.k == "asg" and n.ev["lhs"][0] == "v":
                copies.setdefault(n.ev["lhs"][2], []).append(n.ev["rhs"])
        todo = list(keep)
        while todo:
            k = todo.pop()
            for r in copies.get(k, ()):
                for x in walk(r):
                    y = x[2] if x[0] == "v" else ("c", x[-1]) if x[0] in ("c", "ci") else None
                    if y is not None and y not in keep:
                        keep.add(y)
                        todo.append(y)
        self.keep = keep

    # values: ("=", n) or ("!", frozenset of excluded constants)
    def ev(self, e, env):
        """integer value, 'nz' or None"""
        e = strip_cast(e)
        k = e[0]
        if k == "i":
            return e[1]
        if k == "n":
            return 0
        if k in ("s", "new", "t", "lam"):
            return "nz"
        if k == "v":
            v = env.get(e[2])
            return self.val(v)
        if k in ("c", "ci"):
            return self.val(env.get(("c", e[-1])))
        if k == "u":
            if e[1] == "!":
                x = self.ev(e[2], env)
                return None if x is None else int(x == 0)
            if e[1] == "&":
                return "nz"
            if e[1] == "-":
                x = self.ev(e[2], env)
                return -x if isinstance(x, int) else None
            return None
        if k == "b":
            op = e[1]
            a = self.ev(e[2], env)
            if op == "&&":
                if a == 0:
                    return 0
                b = self.ev(e[3], env)
                if b == 0:
                    return 0
                return 1 if a is not None and b is not None else None
            if op == "||":
                if a is not None and a != 0:
                    return 1
                b = self.ev(e[3], env)
                if b is not None and b != 0:
                    return 1
                return 0 if a == 0 and b == 0 else None
            b = self.ev(e[3], env)
            if op in ("==", "!="):
                r = None
                if isinstance(a, int) and isinstance(b, int):
                    r = a == b
                elif (a == "nz" and b == 0) or (b == "nz" and a == 0):
                    r = False
                else:
                    for x, y in ((e[2], b), (e[3], a)):
                        ex = self.excl(x, env)
                        if ex and isinstance(y, int) and y in ex:
                            r = False
                if r is None:
                    return None
                return int(r == (op == "=="))
            if isinstance(a, int) and isinstance(b, int) and op in ("<", "<=", ">", ">="):
                return int({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])
            return None
        if k == "?":
            c = self.ev(e[1], env)
            if c is None:
                return None
            return self.ev(e[3] if c == 0 else e[2], env)
        return None

    def excl(self, e, env):
        e = strip_cast(e)
        key = e[2] if e[0] == "v" else ("c", e[-1]) if e[0] in ("c", "ci") else None
        v = env.get(key) if key is not None else None
        return v[1] if v and v[0] == "!" else None

    @staticmethod
    def val(v):
        if v is None:
            return None
        if v[0] == "=":
            return v[1]
        return "nz" if 0 in v[1] else None

    def learn(self, e, truth, env):
        """environment after e turned out true/false, or None if impossible"""
        v = self.ev(e, env)
        if v is not None:
            if (v != 0) != truth:
                return None
        e = strip_cast(e)
        k = e[0]
        if k == "u" and e[1] == "!":
            return self.learn(e[2], not truth, env)
        if k == "v" or k in ("c", "ci"):
            key = e[2] if k == "v" else ("c", e[-1])
            if k == "v" and (e[3] == "g" or e[2] in self.refs):
                return env
            return self._set(env, key, 0, not truth)
        if k == "b" and e[1] in ("&&", "||"):
            if (e[1] == "&&") == truth:
                e1 = self.learn(e[2], truth, env)
                return None if e1 is None else self.learn(e[3], truth, e1)
            # the other operand decides
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            if a is not None and (a != 0) != truth:
                return self.learn(e[3], truth, env)
            if b is not None and (b != 0) != truth:
                return self.learn(e[2], truth, env)
            return env
        if k == "b" and e[1] in ("==", "!="):
            eq = (e[1] == "==") == truth
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                c = self.ev(y, env)
                x = strip_cast(x)
                if isinstance(c, int) and (x[0] == "v" and x[3] != "g" and x[2] not in self.refs or x[0] in ("c", "ci")):
                    key = x[2] if x[0] == "v" else ("c", x[-1])
                    return self._set(env, key, c, eq)
                if isinstance(c, int) and c == 0 and x[0] == "b" and x[1] in ("==", "!=", "&&", "||", "<", ">", "<=", ">="):
                    return self.learn(x, not eq, env)
        return env

    def _set(self, env, key, c, eq):
        if key not in self.keep:
            return env
        env = dict(env)
        if eq:
            env[key] = ("=", c)
        else:
            old = env.get(key)
            if old and old[0] == "=":
                return None if old[1] == c else env
            env[key] = ("!", (old[1] if old else frozenset()) | {c})
        return env

    def step(self, n, env):
        ev = n.ev
        if n.k == "decl":
            if ev["id"] in self.refs or ev.get("t", "").rstrip().endswith("&"):
                return env
            return self._assign(env, ev["id"], ev["init"])
        if n.k == "asg":
            l = strip_cast(ev["lhs"])
            if l[0] == "v" and l[3] != "g" and l[2] not in self.refs:
                if ev["op"] == "=":
                    return self._assign(env, l[2], ev["rhs"])
                if l[2] in env:
                    env = dict(env)
                    del env[l[2]]
            return env
        if n.k == "call":
            e = ev["e"]
            key = ("c", e[-1])
            drop = [key] if key in env else []
            for a in (e[3] if e[0] == "c" else e[2]):
                a = strip_cast(a)
                if a[0] == "v" and a[2] in env and not self.inlined(n) and self.byref(e, a):
                    drop.append(a[2])
            if drop:
                env = {k: v for k, v in env.items() if k not in drop}
            return env
        return env

    def byref(self, e, a):
        """may the call change the variable passed as a?  (by reference)"""
        if e[0] != "c":
            return True
        f = self.g.prog.funcs.get(e[1])
        if f is None:
            # parameter types are part of the name
            ps = e[1][e[1].find("("):]
            return "&" in ps
        i = [strip_cast(x) for x in e[3]].index(a)
        if i < len(f.params):
            t = f.params[i]["t"]
            return "&" in t and not t.startswith("const")
        return True

    def inlined(self, n):
        r = self._inl.get(n.id)
        if r is None:
            r = any(self.g.nodes[s].frame != n.frame or self.g.nodes[s].ev and self.g.nodes[s].ev.get("param") for s, _ in n.succ)
            self._inl[n.id] = r
        return r

    def _assign(self, env, key, rhs):
        if key not in self.keep:
            return env
        if rhs is None:
            v = None
        else:
            x = self.ev(rhs, env)
            if x == "nz":
                v = ("!", frozenset([0]))
            elif x is not None:
                v = ("=", x)
            else:
                r = strip_cast(rhs)
                v = env.get(r[2]) if r[0] == "v" else None
        if env.get(key) == v:
            return env
        env = dict(env)
        if v is None:
            env.pop(key, None)
        else:
            env[key] = v
        return env

    def _plain(self, starts, goal, stop, stop_edge, eh):
        seen = set(s.id for s in starts)
        st = list(seen)
        while st:
            n = self.g.nodes[st.pop()]
            if goal(n):
                return True
            if stop and stop(n):
                continue
            for s, l in n.succ:
                if s in seen or (l and l[0] == "eh" and not eh) or (stop_edge and stop_edge(n, l)):
                    continue
                seen.add(s)
                st.append(s)
        return False

    def search(self, starts, goal, stop=None, stop_edge=None, eh=False, via=None):
        """starts: [(node, env or {})] searched from before the node.  Returns
        the chain of nodes to the first goal node found, or None.  With via, only
        paths through a node it accepts count.  A start may be Leaving(node): the
        search begins with the edges out of it."""
        begin = []
        for s in starts:
            if not isinstance(s, Leaving):
                begin.append((s, {}))
                continue
            for t, l in s.node.succ:
                if l and l[0] in ("eh", "throw") or stop_edge and stop_edge(s.node, l):
                    continue
                env = self.learn(l[1], l[2], {}) if l and l[0] == "cond" else {}
                if env is not None:
                    begin.append((self.g.nodes[t], env))
        if not self._plain([s for s, env in begin], goal, stop, stop_edge, eh):
            return None
        seen = {}
        st = []
        for s, env in begin:
            st.append((s.id, {**env, "$via": ("=", 0)} if via else env, None))
        while st:
            x, env, chain = st.pop()
            key = frozenset(env.items())
            have = seen.setdefault(x, set())
            if key in have or frozenset() in have:
                continue
            if len(have) >= self.LIMIT:
                env = {"$via": env["$via"]} if via else {}
                key = frozenset(env.items())
            # subsumed by a weaker valuation already searched?
            if any(h <= key for h in have):
                continue
            have.add(key)
            n = self.g.nodes[x]
            if via and via(n) and not (stop and stop(n)):
                env = dict(env)
                env["$via"] = ("=", 1)
            if goal(n) and (not via or env["$via"][1]):
                out = [n]
                while chain:
                    out.append(chain[0])
                    chain = chain[1]
                return out[::-1]
            if stop and stop(n):
                continue
            env2 = self.step(n, env) if n.ev else env
            ch = (n, chain)
            for s, l in n.succ:
                if l and l[0] == "eh" and not eh:
                    continue
                if stop_edge and stop_edge(n, l):
                    continue
                e3 = env2
                if l and l[0] == "cond":
                    e3 = self.learn(l[1], l[2], env2)
                    if e3 is None:
                        continue
                elif l and l[0] == "case":
                    v = self.ev(l[1], env2)
                    vals = [self.ev(c, {}) for c in l[2]]
                    if isinstance(v, int) and all(isinstance(c, int) for c in vals) and v not in vals:
                        continue
                elif l and l[0] == "default":
                    v = self.ev(l[1], env2)
                    vals = [self.ev(c, {}) for c in l[2]]
                    if isinstance(v, int) and v in vals:
                        continue
                st.append((s, e3, ch))
        return None
