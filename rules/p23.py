"""Text put together in buffers: what is printed or copied stays within them, and is ended."""
import re
from common import *
import common
from flow import lin, lin_add, lin_scale
from p18 import implies
from p22 import local, nm

ASSUMPTIONS = [
    "a constant piece of text fits into an empty buffer",
    "the length asked for by a formatted print is not negative",
]

SIZES = ("int", "unsigned long", "unsigned int", "size_t", "const unsigned long", "const int")
PRINTS = ("snprintf", "vsnprintf")
INIT = 64           # room in a buffer nothing was put into yet; only compared with the lengths of constant pieces
NUM = re.compile(r"%[-+ #0]*\d*(\.\d+)?(hh|h|ll|l|z|j|t)?[diuxXoc]")
CONV = re.compile(r"%[-+ #0]*[\d*]*(\.[\d*]+)?(hh|h|ll|l|z|j|t|L)?[a-zA-Z]")


def check(ctx):
    p = ctx.prog
    ctx.rule("left", "the size given to a print is what is left of its buffer", 40)
    ctx.rule("room", "a position is compared with the size before more is put there", 20)
    ctx.rule("pace", "a position and the room left after it move together", 3)
    ctx.rule("ended", "text copied up to a limit is ended", 4)
    ctx.rule("fits", "what is copied whole fits", 8)
    ctx.rule("asked", "what describes itself is given as much room as it asks for", 3)
    cnt = 0
    puts = putters(p)
    for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.file.startswith(("src/", "include/")):
            continue
        names = {nm(ev["e"]) for ev in f.events() if ev["k"] == "call" and ev["e"][0] == "c"}
        sized = [ev for ev in f.events() if ev["k"] == "call" and sized_arg(p, ev["e"], puts) is not None]
        if sized:
            cnt += 1
            T = Texts(ctx, p, f, puts)
            T.prints()
        if names & {"strncpy", "strcpy", "memcpy", "c_str", "copy"} or any(ev["k"] == "decl" and ev.get("vla") is not None for ev in f.events()):
            g = Graph(p, f)
            F = Facts(g)
            copies(ctx, p, f, g, F)
            spots(ctx, p, f, g, F)
    need_some(cnt, "functions that print into buffers")


def putters(p):
    """functions that put text into a buffer given to them, with its size: id -> position among the parameters"""
    out = {}
    while True:
        new = dict(out)
        for f in p.funcs.values():
            if f.id in new or not f.file.startswith(("src/", "include/")):
                continue
            ts = [q["t"] for q in f.params]
            for i in range(len(ts) - 1):
                if ts[i] != "char *" or ts[i+1] not in SIZES:
                    continue
                for ev in f.events():
                    j = sized_arg(p, ev["e"], out) if ev["k"] == "call" else None
                    if j is not None and any(s[0] == "v" and s[3] == "p" and s[1] == f.params[i]["n"] for s in walk(ev["e"][3][j])):
                        new[f.id] = i
        if new == out:
            return out
        out = new


def sized_arg(p, e, puts):
    """position of the destination among the arguments of a call that puts text into a buffer of a size given next to it"""
    e = strip_cast(e)
    if e[0] != "c":
        return None
    if nm(e) in PRINTS:
        return 0
    i = puts.get(e[1])
    return i if i is not None and i + 1 < len(e[3]) else None


def text_len(e, p=None):
    """upper bound for what a print may put, None if there is none"""
    e = strip_cast(e)
    if e[0] != "c" or nm(e) not in PRINTS:
        return None
    a = e[3]
    fmt = strip_cast(a[2]) if len(a) > 2 else ("?",)
    if fmt[0] != "s":
        return None
    t, k, rest = fmt[1].replace("%%", "x"), 0, list(a[3:])
    for m in CONV.finditer(t):
        arg = strip_cast(rest.pop(0)) if rest else None
        if NUM.fullmatch(m[0]):
            k += 24
        elif m[0].endswith("s") and arg is not None and arg[0] == "s":
            k += len(arg[1])
        elif m[0].endswith("s") and arg is not None and arg[0] == "v" and re.fullmatch(r"char ?\[(.*)\]", arg[4] or ""):
            m2 = re.fullmatch(r"char ?\[(\d+)\]", arg[4])
            k += int(m2[1]) if m2 else 1024
        else:
            return None
    return k + len(CONV.sub("", t))


def after_assign(e):
    """an assignment inside an expression, replaced by what was assigned to"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == "b" and e[1] in ("=", "+=", "-="):
        return after_assign(e[2])
    if e[0] == "u" and e[1] in ("++", "--"):
        return after_assign(e[2])
    return tuple(after_assign(x) if isinstance(x, tuple) else x for x in e)


def varof(c):
    """a variable, without its type"""
    return tuple(c[:4]) if c[0] == "v" else c


def place(e):
    """(base, offset) of an address"""
    e = strip_cast(e)
    if e[0] == "u" and e[1] == "&" and strip_cast(e[2])[0] == "x":
        x = strip_cast(e[2])
        return strip_cast(x[1]), x[2]
    return e, None


class Texts:
    def __init__(self, ctx, p, f, puts):
        self.puts = puts
        self.ctx, self.p, self.f = ctx, p, f
        self.g = local(p, f)
        self.F = Facts(self.g)
        self.c = self.F.c

    def form(self, n, e):
        return {varof(t) if t else t: k for t, k in lin(self.c(n, after_assign(e))).items()}

    def raw(self, e):
        return {varof(t) if t else t: k for t, k in lin(self.F.canon(after_assign(e), {})).items()}

    def dest(self, n, e):
        """(base atom, linear offset) of where a print goes"""
        b, o = place(e)
        off = self.form(n, o) if o is not None else {}
        d = self.form(n, b)
        k = d.pop((), 0)
        base = [t for t in d if t and d[t] == 1 and self.pointer(t, b)]
        if len(base) != 1:
            return (("?",) if base else varof(self.c(n, b))), off
        d.pop(base[0])
        return base[0], lin_add(lin_add(off, d), {(): k} if k else {})

    def pointer(self, t, raw):
        """is the atom the pointer in an address?"""
        for s in walk(raw):
            if s[0] in ("v", "m") and (s[4] if s[0] == "v" else s[3]) and self.ptr_type(s[4] if s[0] == "v" else s[3]):
                if varof(s)[:3] == t[:3] or (s[0] == "m" and t[:1] == ("m",) and t[2] == s[2]):
                    return True
        if t[0] == "c":
            return True
        if t[0] == "v":
            return any(n.k == "decl" and n.ev["id"] == t[2] and self.ptr_type(n.ev["t"]) for n in self.g) or any((0, q["id"]) == t[2] and self.ptr_type(q["t"]) for q in self.f.params)
        return t[0] == "m"

    @staticmethod
    def ptr_type(t):
        return "*" in t or "[" in t

    def moved(self, v, ops):
        """(assignment, by how much) where a variable is moved by one of the operators"""
        out = []
        for n in self.g:
            if n.k != "asg" or varof(strip_cast(n.ev["lhs"])) != v:
                continue
            r = strip_cast(n.ev["rhs"])
            if n.ev["op"] in ops:
                out.append((n, r))
            elif n.ev["op"] == "=" and r[0] == "b" and r[1] in ("+", "-") and r[1] + "=" in ops and varof(strip_cast(r[2])) == v:
                out.append((n, strip_cast(r[3])))
        return out

    def prints(self):
        g, p, ctx = self.g, self.p, self.ctx
        jobs = {}
        for n in g:
            i = sized_arg(p, n.ev["e"], self.puts) if n.k == "call" and n.ev.get("e") else None
            if i is None or n.call:
                continue
            dst, sz = n.ev["e"][3][i], n.ev["e"][3][i+1]
            base, off = self.dest(n, dst)
            size = self.form(n, sz)
            ext = nm(n.ev["e"]) in PRINTS
            if base == ("?",):
                continue
            if any(k < 0 for k in off.values()):
                continue        # put in front of something; what is in front of a response is the business of another property
            where_ = "%s in %s" % (name(base), n.func.short)
            total = lin_add(size, off)
            neg = [t for t in size if t and size[t] < 0]
            # the size kept apart from the position, in step with it
            z = [t for t in size if t and t[0] == "v" and t[3] in ("l", "p") and self.moved(t, ("-=", "--"))]
            if len(z) == 1 and size[z[0]] == 1 and not neg:
                Z = z[0]
                self.pace(n, dst, Z, where_)
                jobs.setdefault((None, Z), []).append((n, where_, size.get((), 0)))
                continue
            if base[0] == "v" and not any(s[0] == "v" and s[2] == base[2] for s in walk(sz)):
                far = [m for m, x in self.moved(base, ("+=",)) if const_of(x) is None and common.paths(g).search([m], lambda q: q is n) is not None]
                if far:
                    ctx.ob("pace", where_, False, far[0].loc, "the position moves without the room left after it")
                    continue
            n_arr = self.array(base, n)
            atoms = [t for t in total if t]
            if n_arr is not None:
                ok = not atoms and total.get((), 0) <= n_arr
            else:
                ok = (not atoms) or (len(atoms) == 1 and total[atoms[0]] == 1 and total.get((), 0) <= 0) and self.belongs(n, base, atoms[0])
            if not atoms and n_arr is None:
                ok = self.const_size(n, base, total.get((), 0))
            ctx.ob("left", where_, ok, n.loc, "the size given is not what is left of the buffer from where the text is put")
            pos = [t for t in off if t]
            if len(pos) == 1 and off[pos[0]] == 1:
                S = {tuple(sorted(total.items(), key=repr))}
                d2 = self.raw(sz)
                if d2.pop(pos[0], 0) == -1:
                    S.add(tuple(sorted(d2.items(), key=repr)))
                jobs.setdefault((pos[0], base), []).append((n, where_, -off.get((), 0), S))
        for (P, X), uses in jobs.items():
            if P is None:
                self.run(None, {((X, 1),)}, uses)
            else:
                self.run(P, {s for u in uses for s in u[3]}, uses, X)

    def array(self, base, n):
        """number of characters in an array"""
        t = None
        if base[0] == "v":
            for d in self.g:
                if d.k == "decl" and d.ev["id"] == base[2]:
                    t = d.ev["t"]
                    if d.ev["vla"] is not None:
                        x = self.form(d, d.ev["vla"])
                        return x.get((), 0) if not [a for a in x if a] else None
        elif base[0] == "m":
            for s in walk(n.ev["e"]):
                if s[0] == "m" and s[2] == base[2]:
                    t = s[3]
        m = re.fullmatch(r"(?:const )?(?:unsigned )?char ?\[(\d+)\]", t or "")
        return int(m[1]) if m else None

    def const_size(self, n, base, k):
        """a constant given as the size of a buffer that came from elsewhere: what the function itself says it needs"""
        if base[0] == "v" and base[3] == "p":
            cs = [f for f in self.p.funcs.values() if f.cls == n.func.cls and f.short.split("::")[-1] == "c_size"]
            ks = {const_of(ev["e"]) for f in cs for ev in f.events() if ev["k"] == "ret" and ev["e"] is not None}
            if ks and None not in ks:
                return k <= min(ks)
        return True

    def belongs(self, n, base, S):
        """is the size that of the buffer?"""
        b, s = str(base), str(S)
        if "alloc_network_buffer_small" in b:
            return "small" in s or "network" not in s
        if "alloc_network_buffer" in b:
            return "small" not in s
        return True

    def pace(self, n, dst, Z, where_):
        """every step of the position is a step of the room left"""
        b, o = place(dst)
        q = varof(strip_cast(o)) if o is not None else varof(strip_cast(b))
        if q[0] == "b" and q[1] == "+":
            q = varof(strip_cast(q[3]))
        down = [x for m, x in self.moved(Z, ("-=", "--"))]
        uses = lambda m: m.k == "call" and m is not None and sized_arg(self.p, m.ev["e"], self.puts) is not None and Z[2] in [s[2] for s in walk(m.ev["e"]) if s[0] == "v"]
        bad = [(m, y) for m, y in self.moved(q, ("+=",)) if common.paths(self.g).search([m], uses) is not None]
        bad = [m for m, y in bad if const_of(y) is None and not any(same(y, x) for x in down)]
        back = [x for m, x in self.moved(q, ("-=", "--"))]
        bad += [m for m, y in self.moved(Z, ("+=", "++")) if self.moved(q, ("+=", "++", "-=", "--")) and not any(same(y, x) for x in back)]
        self.ctx.ob("pace", where_, not bad, (bad[0] if bad else n).loc, "the position moves without the room left after it")

    def run(self, P, S, uses, base=None):
        """forward propagation of what is known about  position + others + k < size"""
        g = self.g
        sizes = [dict(s) for s in S]
        track = P if P is not None else [t for s in sizes for t in s if t][0]

        def fact(d, strict):
            """d < 0 (or <= 0) as a fact about the position"""
            for s in sizes:
                r = lin_add(d, s)
                if P is not None and r.pop(P, 0) != 1:
                    continue
                k = r.pop((), 0)
                if all(v == 1 for v in r.values()) and len(r) <= 1 and track not in r:
                    return (tuple(r), k if strict else k - 1)
            return None

        def facts_of(src, label):
            out = {}

            def test(e, t):
                e = strip_cast(e)
                if e[0] == "b" and e[1] in ("<", "<=", ">", ">=", "==", "!="):
                    for form in (lambda x: self.form(src, x), self.raw):
                        note(e, t, form(e[2]), form(e[3]))
                return False

            def note(e, t, a, b):
                op = e[1]
                if not t:
                    op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
                if op in (">", ">="):
                    a, b, op = b, a, {">": "<", ">=": "<="}[op]
                if op in ("<", "<="):
                    x = fact(lin_add(a, lin_scale(b, -1)), op == "<")
                    if x is not None:
                        out[x[0]] = max(out.get(x[0], -999), x[1])
            implies(g, label, test)
            return out

        def step(n, st):
            if n.k == "decl" or n.k == "asg":
                v = varof(strip_cast(n.ev["lhs"])) if n.k == "asg" else ("v", n.ev["n"], n.ev["id"], "l")
                rhs = n.ev["rhs"] if n.k == "asg" else n.ev["init"]
                op = n.ev["op"] if n.k == "asg" else "="
                if v == track or (v[0] == "v" and track[0] == "v" and v[2] == track[2]):
                    return self.advance(n, st, P, op, rhs, sizes, track)
                st = {k: s for k, s in st.items() if not any(same(v, t) for t in k)}
                if op == "=" and rhs is not None and () in st:
                    r = strip_cast(rhs)
                    # a print whose result is kept: what it adds to the position
                    k = text_len(r)
                    if k is not None:
                        st[(v,)] = st[()] - k
                if P is not None:
                    for s in sizes:
                        if v in s and op != "=":
                            return {}
            return st

        IN = {g.entry.id: {(): INIT if P is None or P[0] == "v" and P[3] == "l" else 0}}
        todo = [g.entry]
        nodes = {n.id: n for n in g}
        rounds = 0
        while todo:
            rounds += 1
            if rounds > 40000:
                break
            n = todo.pop()
            out = step(n, dict(IN[n.id]))
            for m, label in n.succ:
                m = nodes[m] if not hasattr(m, "id") else m
                o = dict(out)
                for k, s in (facts_of(n, label).items() if label and label[0] == "cond" else ()):
                    o[k] = max(o.get(k, -9999), s)
                if m.id not in IN:
                    IN[m.id] = o
                    todo.append(m)
                else:
                    old = IN[m.id]
                    new = {k: min(s, old[k]) for k, s in o.items() if k in old}
                    new = {k: s for k, s in new.items() if s > -200}
                    if new != old:
                        IN[m.id] = new
                        todo.append(m)
        for u in uses:
            n = u[0]
            if n.id not in IN:
                continue
            s = IN[n.id].get(())
            # what is left may be nothing, but never less than nothing
            self.ctx.ob("room", u[1], s is not None and s >= -1 + (-u[2] if P is not None else 0), n.loc, "text may be put here although what was put before it may have filled the buffer")
        if P is not None:
            self.reads(P, base, IN)
        else:
            self.starts(track, uses)

    def advance(self, n, st, P, op, rhs, sizes, track):
        up, down = ("+=", "++"), ("-=", "--")
        if P is None:
            up, down = down, up
        r = strip_cast(rhs) if rhs is not None else None
        s = st.get(())
        if op in up or op in down:
            c = const_of(r) if op in ("+=", "-=") else 1
            if c is not None:
                d = -c if op in up else c
                return {k: x + d for k, x in st.items()}
            if op in down:
                return dict(st)
            k = text_len(r)
            if k is not None and s is not None:
                return {(): s - k}
            v = varof(r)
            for key, x in st.items():
                if len(key) == 1 and same(key[0], v):
                    return {(): x}
            f = self.form(n, rhs)
            vs = [t for t in f if t]
            for key, x in st.items():
                if len(key) == 1 and len(vs) == 1 and f[vs[0]] == 1 and same(key[0], vs[0]):
                    return {(): x - f.get((), 0)}
            return {}
        if rhs is None:
            return {(): INIT}
        if P is None:
            # n = m - k of itself
            f = self.form(n, rhs)
            return self.self_set(n, st, f, track, -1) if track in f else {(): INIT}
        if const_of(r) is not None:
            return {(): INIT - max(0, const_of(r))}
        k = text_len(r)
        if k is not None:
            return {(): max(0, INIT - k)}
        if r[0] == "c" and nm(r) in PRINTS:
            return {}
        f = self.form(n, rhs)
        if track in f:
            return self.self_set(n, st, f, track, 1)
        for sz in sizes:
            d = lin_add(f, lin_scale(sz, -1))
            if not [t for t in d if t]:
                return {(): -d.get((), 0) - 1}
        if r[0] == "?" or (r[0] == "c" and nm(r) == "min"):
            # the smaller of the two
            alts = [r[2], r[3]] if r[0] == "?" else list(r[3])
            for a in alts:
                for sz in sizes:
                    d = lin_add(self.form(n, a), lin_scale(sz, -1))
                    if not [t for t in d if t]:
                        return {(): -d.get((), 0) - 1}
        return {}

    def self_set(self, n, st, f, track, sign):
        f = dict(f)
        if f.pop(track) != 1:
            return {}
        k = f.pop((), 0) * sign
        if not f:
            return {q: x - k for q, x in st.items()}
        if len(f) == 1:
            (t, c), = f.items()
            if c * sign < 0:
                return dict(st)
            for key, x in st.items():
                if len(key) == 1 and same(key[0], t) and c * sign == 1:
                    return {(): x - k}
        return {}

    def reads(self, P, base, IN):
        """single characters looked at or set relative to the position"""
        for n in self.g:
            if n.k != "sub" or n.id not in IN:
                continue
            x = strip_cast(n.ev["e"])
            if any(isinstance(s, tuple) and s and s[0] == "u" and s[1] in ("++", "--", "p++", "p--") for s in walk(x[2])):
                continue
            b = self.form(n, x[1])
            if b != {base: 1}:
                continue
            d = self.form(n, x[2])
            if d.get(P) != 1 or len([t for t in d if t]) != 1:
                continue
            k = d.get((), 0)
            s = IN[n.id].get(())
            self.ctx.ob("room", "%s of %s in %s" % (name(P), name(base), n.func.short), s is not None and s >= k, n.loc, "a character may be looked at or set here although the position may be past the end of the buffer")

    def starts(self, Z, uses):
        """what is left is no place relative to the start of the buffer"""
        starts = set()
        for n in self.g:
            if n.k == "call" and any(n is u[0] for u in uses):
                e = n.ev["e"]
                starts.add(self.dest(n, e[3][sized_arg(self.p, e, self.puts)])[0])
        for n in self.g:
            if n.k != "sub":
                continue
            x = strip_cast(n.ev["e"])
            raw = strip_cast(x[1])
            if raw[0] != "v" or any(m.k == "asg" and varof(strip_cast(m.ev["lhs"])) == varof(raw) for m in self.g):
                continue
            if any(isinstance(s, tuple) and s and s[0] == "v" and s[2] == Z[2] for s in walk(x[2])):
                before = common.paths(self.g).search([m for m, x in self.moved(Z, ("-=", "--"))], lambda m: m is n)
                self.ctx.ob("room", "%s[%s] in %s" % (raw[1], Z[1], n.func.short), before is None, n.loc, "what is left of the buffer is used as a position counted from its start")


def same(a, b):
    return a == b or (a[0] == "v" and b[0] == "v" and a[2] == b[2] and a[1] == b[1])


def name(t):
    if t[0] == "v":
        return t[1]
    if t[0] == "m":
        return t[2].split("::")[-1]
    if t[0] == "c":
        return short(t[1]).split("::")[-1] + "()"
    return t[0]


# --------------------------------------------------------------------------

def cap(p, g, F, e, n):
    """(form of the number of characters of an array, declaring node), None if it is not an array seen here"""
    e = strip_cast(e)
    if e[0] == "v" and e[3] == "l":
        for d in g:
            if d.k == "decl" and d.ev["id"] == e[2]:
                if d.ev["vla"] is not None:
                    return lin(F.c(d, d.ev["vla"]))
                m = re.fullmatch(r"(?:unsigned )?char ?\[(\d+)\]", d.ev["t"])
                return {(): int(m[1])} if m else None
    if e[0] == "m":
        m = re.fullmatch(r"(?:unsigned )?char ?\[(\d+)\]", e[3] or "")
        return {(): int(m[1])} if m else None
    return None


def plain_form(d):
    """a linear form with the identities of calls left out"""
    def s(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "c":
            return ("c", short(t[1]), s(t[2]) if t[2] else None, tuple(s(a) for a in t[3]))
        return tuple(s(x) if isinstance(x, tuple) else x for x in (t[:4] if t[0] == "v" else t))
    out = {}
    for t, c in d.items():
        out[s(t) if t else t] = out.get(s(t) if t else t, 0) + c
    return out


def at_most(a, b):
    """is the difference a - b a constant, not more than zero?"""
    d = lin_add(plain_form(a), lin_scale(plain_form(b), -1))
    return not [t for t in d if t] and d.get((), 0) <= 0


def copies(ctx, p, f, g, F):
    for n in g:
        if n.k != "call" or n.ev["e"][0] != "c":
            continue
        e = n.ev["e"]
        w = nm(e)
        if w == "strncpy" and len(e[3]) == 3:
            ended(ctx, p, g, F, n)
        elif w == "strcpy" and len(e[3]) == 2:
            fits(ctx, p, g, F, n)
        elif w == "memcpy" and len(e[3]) == 3 or w == "copy" and len(e[3]) in (2, 3) and e[2] is not None and "basic_string" in e[1]:
            k = cap(p, g, F, e[3][0], n)
            if k is not None:
                sz = lin(F.c(n, e[3][2 if w == "memcpy" else 1]))
                have = lin_add(plain_form(k), lin_scale(plain_form(sz), -1))
                ok = True if [t for t in have if t and not comparable(k, sz)] else at_most(sz, k)
                ctx.ob("fits", "%s in %s" % (name(strip_cast(e[3][0])), n.func.short), ok or "sizeof" in str(sz), n.loc, "more is copied than the buffer has room for")
            if w == "copy" and strip_cast(e[3][0])[0] == "v" and strip_cast(e[3][0])[3] == "l":
                b = strip_cast(e[3][0])
                zero = lambda m: m.k == "asg" and m.ev["op"] == "=" and const_of(m.ev["rhs"]) == 0 and strip_cast(m.ev["lhs"])[0] == "x" and strip_cast(strip_cast(m.ev["lhs"])[1])[:3] == b[:3]
                ctx.ob("ended", "%s in %s" % (name(b), n.func.short), not escapes(g, n, zero), n.loc, "text copied is left without an end")
        elif w == "c_str" and len(e[3]) == 1 and e[2] is not None and e[1] in p.funcs and p.funcs[e[1]].params and p.funcs[e[1]].params[0]["t"] == "char *":
            asked(ctx, p, g, F, n)


def spots(ctx, p, f, g, F):
    """characters set at a place given by the same value as the size of the buffer"""
    for n in g:
        if n.k != "asg" or strip_cast(n.ev["lhs"])[0] != "x":
            continue
        x = strip_cast(n.ev["lhs"])
        k = cap(p, g, F, x[1], n)
        if k is None or not [t for t in k if t]:
            continue
        d = lin_add(plain_form(lin(F.c(n, x[2]))), lin_scale(plain_form(k), -1))
        if not [t for t in d if t]:
            ctx.ob("fits", "place in %s in %s" % (name(strip_cast(x[1])), n.func.short), d.get((), 0) < 0, n.loc, "a character is set behind the end of the buffer")


def comparable(k, sz):
    """the room is given by a value, and not by a constant"""
    return bool([t for t in k if t])


def ended(ctx, p, g, F, n):
    dst, src, lim = n.ev["e"][3]
    dst = strip_cast(dst)
    L = lin(F.c(n, lim))
    k = cap(p, g, F, dst, n)
    what = "%s in %s" % (name(dst), n.func.short)
    if k is not None and not [t for t in L if t] and not [t for t in k if t]:
        ctx.ob("ended", what + " (limit)", L.get((), 0) <= k.get((), 0), n.loc, "the limit is larger than the buffer")

    def zero(m):
        if m.k != "asg" or m.ev["op"] != "=" or const_of(m.ev["rhs"]) != 0:
            return False
        x = strip_cast(m.ev["lhs"])
        if x[0] != "x" or F.c(m, x[1]) != F.c(n, dst) and strip_cast(x[1])[:3] != dst[:3]:
            return False
        i = lin(F.c(m, x[2]))
        d = lin_add(plain_form(i), lin_scale(plain_form(L), -1))
        if [t for t in d if t]:
            return "strlen" not in str(d) or "strlen" in str(L)
        if k is not None and not [t for t in k if t] and not [t for t in i if t] and i.get((), 0) >= k.get((), 0):
            return False
        return d.get((), 0) <= 0

    ok = not escapes(g, n, zero)
    # or the length of the source was looked at before
    ok = ok or any(fact[0] == "b" and fact[1] in ("<", "<=") and "strlen" in str(fact) for fact in F.at(n)[1])
    ctx.ob("ended", what, ok, n.loc, "text longer than the limit is left without an end")


def fits(ctx, p, g, F, n):
    dst, src = n.ev["e"][3]
    dst, src = strip_cast(dst), strip_cast(src)
    k = cap(p, g, F, dst, n)
    what = "%s in %s" % (name(dst), n.func.short)
    if k is None:
        return
    if src[0] == "s":
        ctx.ob("fits", what, [t for t in k if t] or len(src[1]) + 1 <= k.get((), 0), n.loc, "the text does not fit into the buffer")
        return
    b, o = place(src)
    ks = cap(p, g, F, b, n)
    if ks is not None:
        ctx.ob("fits", what, at_most(ks, k), n.loc, "the source may be longer than the buffer")
        return
    # sized by the length of the source
    need = plain_form({("c", "strlen", None, (F.c(n, src),)): 1, (): 1})
    c = plain_form(lin(F.c(n, src)))
    ok = False
    for t in [t for t in plain_form(k) if t]:
        if t[0] == "c" and "strlen" in t[1] and t[3]:
            d = lin_add(c, lin_scale(plain_form(lin(t[3][0])), -1))
            skip = d.pop((), 0)
            rest = dict(plain_form(k))
            rest.pop(t)
            if not d and skip >= 0 and set(rest) <= {()} and rest.get((), 0) + skip >= 1:
                ok = True
    ctx.ob("fits", what, ok, n.loc, "the buffer is not sized for the text with its end")


def asked(ctx, p, g, F, n):
    e = n.ev["e"]
    k = cap(p, g, F, e[3][0], n)
    if k is None:
        return
    cls = p.funcs[e[1]].cls
    what = "%s for %s in %s" % (name(strip_cast(e[3][0])), cls, n.func.short)
    if not [t for t in k if t]:
        ks = {const_of(ev["e"]) for f in p.funcs.values() if f.cls == cls and f.short.split("::")[-1] == "c_size" for ev in f.events() if ev["k"] == "ret" and ev["e"] is not None}
        ok = bool(ks) and None not in ks and k.get((), 0) >= max(ks)
        if not ks or None in ks:
            return
    else:
        ts = [t for t in k if t]
        ok = len(ts) == 1 and k[ts[0]] >= 1 and k.get((), 0) >= 0 and ts[0][0] == "c" and "c_size" in ts[0][1]
    ctx.ob("asked", what, ok, n.loc, "the buffer is smaller than what the object asks for")
