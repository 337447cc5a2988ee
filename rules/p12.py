"""Objects handed out by the pools are of the kind asked for, start clean, and are given back exactly once."""
import re
import common
from common import *

ASSUMPTIONS = [
    "objects lost while an exception unwinds are out of scope: the pool then creates a new one",
    "the lists of the pools are used by one thread only while they are set up and torn down",
]

ALLOC = "MemoryManager::alloc_recyclable"
FREE1 = "MemoryManager::free_recyclable"
FREES = (FREE1, "MemoryManager::free_recyclables")
LISTS = "MemoryManager::m_free_lists"
LOCKS = "MemoryManager::m_locks"
TAGGED = {"JsonValue": "JsonValue::type"}       # the other members count only as far as this one says so
WITH = {"Downsampler::m_fill_value": "Downsampler::m_fill"}     # counts only together with the other
SETUP = ("MemoryManager::init", "MemoryManager::cleanup")


def check(ctx):
    p = ctx.prog
    ctx.rule("kind", "what is created for a kind is what its users take it for", 40)
    ctx.rule("lists", "the list of a kind is used under the lock of that kind only", 4)
    ctx.rule("hand-out", "an object handed out is initialised, marked with its kind and unlinked", 3)
    ctx.rule("take-back", "an object is recycled before it is put on the list of its kind, and only if it may be", 3)
    ctx.rule("gone", "an object is not used, nor given back again, after it has been given back", 30)
    ctx.rule("emptied", "a container whose elements were given back is emptied or not used any more", 6)
    ctx.rule("dropped", "an object taken from a pool is given back, kept or passed on, on every path", 30)
    ctx.rule("owner", "what an object keeps is given back when the object itself goes", 5)
    ctx.rule("clean", "nothing of its previous use is left in an object handed out again", 40)
    made = kinds(ctx, p)
    lists(ctx, p)
    S = Sum(p)
    gone(ctx, p, S)
    dropped(ctx, p, S)
    owner(ctx, p, S)
    clean(ctx, p, made)


def recyclables(p):
    return set(p.subclasses_of("Recyclable")) | {"Recyclable"}


def cls_of(t):
    t = re.sub(r"\bconst\b", "", t).strip()
    return t[:-1].strip() if t.endswith("*") else None


def derives(p, c, b):
    todo, seen = [c], set()
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen or x not in p.records:
            continue
        seen.add(x)
        todo += [y if isinstance(y, str) else y.get("n") for y in (p.records[x].get("bases") or [])]
    return False


def lineage(p, c):
    """the class and its bases, most derived first"""
    out, todo = [], [c]
    while todo:
        x = todo.pop(0)
        if x in out or x not in p.records:
            continue
        out.append(x)
        todo += [y if isinstance(y, str) else y.get("n") for y in (p.records[x].get("bases") or [])]
    return out


# ---- kinds

def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


def created(p, g, start):
    """classes created from here up to where the cases meet"""
    out = set()
    seen, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        n = g.nodes[x]
        if n.k == "new":
            out.add(n.ev["e"][1])
            continue
        if is_call(n, "Recyclable::init") or n.k == "ret":
            continue
        if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] in p.funcs:
            f = p.funcs[n.ev["e"][1]]
            if (cls_of(f.ret) or "") in p.records and derives(p, cls_of(f.ret), "Recyclable"):
                out.add((f, n))
                continue
        todo += [s for s, l in n.succ if not (l and l[0] in ("eh", "throw"))]
    return out


def kinds(ctx, p):
    made = {}
    f = p.need(ALLOC)[0]
    ctx.analysed(f.short)
    g = Graph(p, f)
    names = {}
    for n in g:
        for s, l in n.succ:
            if not (l and l[0] == "case"):
                continue
            for v in l[2]:
                names[v[1]] = v[2] if len(v) > 2 else str(v[1])
                for c in created(p, g, s):
                    if isinstance(c, tuple):        # by way of a factory: the class depends on its argument
                        h, site = c
                        for cls in factory(p, h, site, v[1]):
                            made.setdefault(v[1], set()).add((cls, site))
                    else:
                        made.setdefault(v[1], set()).add((c, n))
    en = p.enums.get("RecyclableType", {})
    count = None
    for nm, v in en.get("consts", ()):
        names.setdefault(v, nm)
        if nm.endswith("RT_COUNT"):
            count = v
    by_name = {norm(nm.replace("RT_", "")): v for v, nm in names.items()}
    for v, nm in sorted(names.items()):
        if v == count:
            continue
        cs = {c for c, n in made.get(v, ())}
        ctx.ob("kind", "%s created" % nm, len(cs) == 1, "%s:%s" % (f.file, f.line),
               "nothing, or more than one class, is created for this kind" if len(cs) != 1 else "")
        for c in cs:
            o = by_name.get(norm(c))
            ctx.ob("kind", "%s is %s" % (nm, c), o is None or o == v, "%s:%s" % (f.file, f.line),
                   "the class created is the one of kind %s" % names.get(o))
            other = [names[w] for w in made if w != v and any(c == d for d, n in made[w])]
            ctx.ob("kind", "%s only for %s" % (c, nm), not other, "%s:%s" % (f.file, f.line), "the same class is created for %s" % other)
    # the users
    for h in p.funcs.values():
        if h.cls == "MemoryManager":
            continue
        gh = None
        for ev in h.events():
            for k in ("e", "rhs", "init"):
                e = ev.get(k)
                if not isinstance(e, tuple):
                    continue
                for s in walk(e):
                    if s[0] != "cast":
                        continue
                    x = strip_cast(s)
                    if not (x[0] == "c" and short(x[1]) == ALLOC):
                        continue
                    t = cls_of(s[1])
                    if t not in p.records or t == "Recyclable":
                        continue
                    if gh is None:
                        gh = Graph(p, h)
                    vs = constants(gh, x[3][0])
                    ctx.analysed(h.short)
                    for v in vs:
                        for c, n in made.get(v, ()):
                            ctx.ob("kind", "%s taken as %s in %s" % (names.get(v, v), t, h.short), derives(p, c, t), "%s:%s" % (h.file, ev["l"]),
                                   "the object is a %s" % c)
    return {c for v in made for c, n in made[v]}


def constants(g, e):
    """kinds an argument can name: constants, through local variables; of a sum, its constant part"""
    out = set()
    e = strip_cast(e)
    if e[0] == "i":
        return {e[1]}
    if e[0] == "?":
        return constants(g, e[2]) | constants(g, e[3])
    if e[0] == "b" and e[1] == "+":
        return constants(g, e[2]) | constants(g, e[3])
    if e[0] == "v" and e[3] == "l":
        for d in _defs2(g, e[2]):
            out |= constants(g, d)
    return out


def _defs2(g, i):
    out = []
    for n in g:
        if n.k == "decl" and n.ev["id"] == i and n.ev["init"] is not None:
            out.append(n.ev["init"])
        elif n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["lhs"][2] == i and n.ev["op"] == "=":
            out.append(n.ev["rhs"])
    return out


def factory(p, h, site, value):
    """classes a factory creates when it is called for a kind with this value"""
    a = site.ev["e"][3][0] if site.ev["e"][3] else None
    arg = None
    if a is not None:
        a = strip_cast(a)
        if a[0] == "i":
            arg = a[1]
        elif a[0] == "b" and a[1] == "-" and const_of(a[3]) is not None:
            arg = value - const_of(a[3])
        elif a[0] == "b" and a[1] == "+" and const_of(a[3]) is not None:
            arg = value + const_of(a[3])
        elif a[0] == "v":
            arg = value
    out = set()
    g = Graph(p, h)
    hit = set()
    for n in g:
        for s, l in n.succ:
            if l and l[0] == "case" and any(v[1] == arg for v in l[2]):
                hit.add(s)
    if hit:
        starts = hit
    else:
        starts = {g.entry.id}
    for s in starts:
        seen, todo = set(), [s]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            n = g.nodes[x]
            if n.k == "new":
                out.add(n.ev["e"][1])
                continue
            if n.k == "ret":
                continue
            for q, l in n.succ:
                if l and l[0] in ("eh", "throw"):
                    continue
                if l and l[0] == "cond" and arg is not None:
                    v = decide(l[1], arg)
                    if v is not None and v != bool(l[2]):
                        continue
                todo.append(q)
    return out


def decide(e, arg):
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("==", "!=") and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[3] == "p" and const_of(e[3]) is not None:
        return (const_of(e[3]) == arg) == (e[1] == "==")
    return None


# ---- the lists

def slot(e, name):
    """index expression of an element of the array"""
    for s in walk(e):
        if s[0] == "x" and is_global(strip_cast(s[1]), name):
            return s[2]
    return None


def lists(ctx, p):
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.short in SETUP or f.short.endswith(("<ctor>", "<dtor>")):
            continue
        if not any(ev["k"] == "sub" and slot(ev["e"], LISTS) is not None for ev in f.events()):
            continue
        ctx.analysed(f.short)
        g = Graph(p, f, inline=inliner(only=near_callees(p, f)))
        F = Facts(g)
        # lock objects: index they are for
        held = {}
        for n in g:
            if n.k == "decl" and n.ev["init"] is not None and "lock" in n.ev["t"]:
                i = slot(n.ev["init"], LOCKS)
                if i is not None:
                    held[n.ev["id"]] = (F.c(n, i), strip_cast(i))
        def gen(n):
            if n.k == "decl" and n.ev["id"] in held:
                return [(n.ev["id"], held[n.ev["id"]])]
            if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1].split("(")[0].endswith("mutex::lock") and n.ev["e"][2] is not None:
                i = slot(n.ev["e"][2], LOCKS)
                if i is not None:
                    return [("m", (F.c(n, i), strip_cast(i)))]
            return []
        def kill(n):
            if n.k == "dtor" and n.ev["id"] in held:
                return [(n.ev["id"], held[n.ev["id"]])]
            if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and n.ev["e"][1].split("(")[0].endswith("::unlock"):
                b = strip_cast(n.ev["e"][2])
                if b[0] == "v" and b[2] in held:
                    return [(b[2], held[b[2]])]
                i = slot(n.ev["e"][2], LOCKS)
                if i is not None:
                    return [("m", (F.c(n, i), strip_cast(i)))]
            return []
        IN = must_before(g, gen, kill=kill)
        for n in g:
            if n.k != "sub":
                continue
            i = slot(n.ev["e"], LISTS)
            if i is None:
                continue
            i = F.c(n, i), strip_cast(i)
            ctx.ob("lists", "list used in %s" % f.short, any(x[1][0] == i[0] or x[1][1] == i[1] for x in IN[n.id]), n.loc, "the lock of this kind is not held here")
        if f.short == ALLOC:
            handed(ctx, p, f, g, F)
        for n in g:
            if n.k == "asg" and n.ev["op"] == "=" and slot(n.ev["lhs"], LISTS) is not None and strip_cast(n.ev["lhs"])[0] == "x":
                listed(ctx, p, f, g, F, n)


def next_of(e):
    """x for x->next()"""
    e = strip_cast(e)
    if e[0] == "c" and short(e[1]).split("::")[-1] in ("next", "next_const") and e[2] is not None:
        return strip_cast(e[2])
    if e[0] == "m" and e[2] == "Recyclable::m_recyclable_next":
        return strip_cast(e[1])
    return None


def type_of(e):
    e = strip_cast(e)
    if e[0] == "c" and short(e[1]).split("::")[-1] == "recyclable_type" and e[2] is not None:
        return strip_cast(e[2])
    if e[0] == "m" and e[2] == "Recyclable::m_recyclable_type":
        return strip_cast(e[1])
    return None


def handed(ctx, p, f, g, F):
    par = f.params[0][0] if isinstance(f.params[0], (list, tuple)) else f.params[0]["n"]
    steps = {
        "initialised": lambda n: is_call(n, "Recyclable::init"),
        "marked with its kind": lambda n: n.k == "asg" and type_of(n.ev["lhs"]) is not None and any(s[0] == "v" and s[1] == par for s in walk(n.ev["rhs"])),
        "unlinked": lambda n: n.k == "asg" and next_of(n.ev["lhs"]) is not None and strip_cast(n.ev["rhs"])[0] == "n",
    }
    for what, A in steps.items():
        bad = None
        for n in returns(g):
            if n.ev.get("e") is None or strip_cast(n.ev["e"])[0] == "n":
                continue
            v = strip_cast(n.ev["e"])
            def null_edge(src, l):
                return any(null_test(e, t) and strip_cast(e)[0] != "c" and v in [strip_cast(x) for x in walk(e)] for e, t in truths(l)) or (l and l[0] == "default")
            r = paths(g).search([g.entry], lambda m: m is n, stop=A, stop_edge=null_edge)
            if r is not None:
                bad = n
        ctx.ob("hand-out", "object %s" % what, bad is None, bad.loc if bad else "%s:%s" % (f.file, f.line), "an object can be handed out without being %s" % what)


def listed(ctx, p, f, g, F, n):
    """n changes the head of a list"""
    r = strip_cast(n.ev["rhs"])
    i = F.c(n, slot(n.ev["lhs"], LISTS))
    if next_of(r) is not None:                  # takes the first off
        v = next_of(r)
        ok = any(m.k in ("asg", "decl") and (m.ev.get("rhs") or m.ev.get("init")) is not None and slot((m.ev.get("rhs") or m.ev.get("init")), LISTS) is not None
                 and (m.k == "decl" and m.ev["id"] == v[2] or m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == v[2]) for m in g) if v[0] == "v" else slot(v, LISTS) is not None
        ctx.ob("lists", "first taken off in %s" % f.short, ok, n.loc, "the list is cut at something else than its first object")
        return
    if r[0] != "v":
        ctx.ob("lists", "head set in %s" % f.short, False, n.loc, "the list is replaced")
        return
    same = lambda e: strip_cast(e)[0] == "v" and strip_cast(e)[2] == r[2]
    anew = lambda m: m.k == "decl" and m.ev["id"] == r[2] or m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == r[2]
    linked = lambda m: m.k == "asg" and next_of(m.ev["lhs"]) is not None and same(next_of(m.ev["lhs"])) and slot(m.ev["rhs"], LISTS) is not None and F.c(m, slot(m.ev["rhs"], LISTS)) == i
    unlink = lambda m: m.k == "asg" and next_of(m.ev["lhs"]) is not None and same(next_of(m.ev["lhs"])) and not linked(m)
    def must(A, kill):
        starts = [g.entry] + [m for m in g if kill(m)]
        return paths(g).search(starts, lambda m: m is n, stop=lambda m: A(m)) is None
    ctx.ob("take-back", "linked in %s" % f.short, must(linked, lambda m: anew(m) or unlink(m)), n.loc, "the rest of the list is lost")
    rec = lambda m: m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).split("::")[-1] == "recycle" and m.ev["e"][2] is not None and same(m.ev["e"][2])
    ctx.ob("take-back", "recycled in %s" % f.short, must(rec, anew), n.loc, "an object is put on the list without being recycled")
    def refused(src, l):
        for e, t in truths(l):
            e = strip_cast(e)
            neg = False
            while e[0] == "u" and e[1] == "!":
                e, neg = strip_cast(e[2]), not neg
            for o in origins(g, e):
                if o[0] == "c" and short(o[1]).split("::")[-1] == "recycle":
                    return True
        return False
    starts = [m for m in g if rec(m)]
    def no(src, l):         # an edge on which recycle() has said yes
        for e, t in truths(l):
            e = strip_cast(e)
            while e[0] == "u" and e[1] == "!":
                e, t = strip_cast(e[2]), not t
            if any(o[0] == "c" and short(o[1]).split("::")[-1] == "recycle" for o in origins(g, e)) and t:
                return True
        return False
    ok = not starts or paths(g).search(starts, lambda m: m is n, stop_edge=no) is None
    ctx.ob("take-back", "allowed in %s" % f.short, ok, n.loc, "an object that must not be used again is put on the list")
    idx = slot(n.ev["lhs"], LISTS)
    os = origins(g, idx)
    ctx.ob("take-back", "own list in %s" % f.short, bool(os) and all(type_of(o) is not None for o in os), n.loc, "the list is not the one of the object's kind")
    gone = lambda m: m.k == "del" and same(m.ev["e"][1])
    ctx.ob("take-back", "not deleted in %s" % f.short, paths(g).search([m for m in g if gone(m)], lambda m: m is n, stop=anew) is None if any(gone(m) for m in g) else True,
           n.loc, "a deleted object is put on the list")


# ---- who gives back, who creates, who keeps

class Sum:
    def __init__(self, p, alloc=(ALLOC,), free=FREES):
        self.p = p
        self.R = recyclables(p)
        self.alloc, self.free = alloc, free
        self.gs = {}
        self.frees = {}     # fid -> indices of parameters given back
        self.keeps = {}     # fid -> {index: set of fields or "?"}
        self.fresh = set()  # functions returning a new object
        self.outs = {}      # fid -> indices of T** parameters set to a new object
        self.freec = {}     # fid -> indices of container parameters whose elements are given back
        self.fills = {}     # fid -> indices of container parameters new objects are put in
        for f in [f for x in free for f in p.need(x)]:
            self.frees[f.id] = {0}
            self.keeps[f.id] = {0: {"freed"}}
        self.cand = [f for f in p.funcs.values() if f.cls != "MemoryManager" and self.relevant(f)]
        change = True
        while change:
            change = False
            for f in self.cand:
                change |= self.update(f)

    def ptr(self, t):
        t = t.replace("&", "").strip()
        return (cls_of(t) or "") in self.R

    def relevant(self, f):
        if any(self.ptr(t) or re.search(r"\b(%s) \*" % "|".join(map(re.escape, self.R)), t) for n, t in params(f)):
            return True
        if self.ptr(f.ret):
            return True
        for ev in f.events():
            if ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) in self.free + self.alloc:
                return True
            if ev["k"] == "decl" and self.ptr(ev["t"]):
                return True
        return False

    def graph(self, f):
        if f.id not in self.gs:
            self.gs[f.id] = Graph(self.p, f)
        return self.gs[f.id]

    def targets(self, e):
        """functions a call can reach; None if unknown"""
        if e[0] != "c":
            return None
        if e[4]:
            return [t for t in self.p.targets(e) if t in self.p.funcs] if hasattr(self.p, "targets") else None
        return [e[1]] if e[1] in self.p.funcs else None

    def call_idx(self, e, pick):
        """indices of the arguments for which pick (a table of functions) says something"""
        out = set()
        for t in self.targets(e) or ():
            t = t if isinstance(t, str) else t.id
            out |= set(pick.get(t, ()))
        return out

    def makes(self, e):
        """does the expression create an object?"""
        e = strip_cast(e)
        if e[0] == "?":
            return self.makes(e[2]) or self.makes(e[3])
        if e[0] != "c":
            return False
        if short(e[1]) in self.alloc:
            return True
        return any((t if isinstance(t, str) else t.id) in self.fresh for t in self.targets(e) or ())

    def names(self, g, i):
        """local variables that stand for the same object as variable i"""
        out, todo = {i}, [i]
        while todo:
            x = todo.pop()
            for n in g:
                e = n.ev.get("init") if n.k == "decl" else n.ev.get("rhs") if n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["lhs"][3] == "l" and n.ev["op"] == "=" else None
                if e is None:
                    continue
                if any(s[0] == "v" and s[2] == x for s in chain(e)):
                    j = n.ev["id"] if n.k == "decl" else n.ev["lhs"][2]
                    if j not in out:
                        out.add(j)
                        todo.append(j)
        return out

    def consumed(self, g, n, vs):
        """where node n puts the object named by one of the variables vs: set of field names, "freed", "?"; or None"""
        is_v = lambda e: any(s[0] == "v" and s[2] in vs for s in chain(e))
        if n.k == "ret" and n.ev.get("e") is not None and is_v(n.ev["e"]):
            return {"returned"}
        if n.k == "asg" and n.ev["op"] == "=" and is_v(n.ev["rhs"]):
            l = strip_cast(n.ev["lhs"])
            if l[0] == "v" and l[3] != "g" and not (l[3] == "p" and n.ev["lhs"][4].endswith("&") if len(n.ev["lhs"]) > 4 else False):
                return None
            if next_of(l) is not None:
                return {"linked"}
            return {l[2]} if l[0] == "m" else {"?"}
        es = []
        if n.k in ("call", "ctor") and n.ev["e"][0] in ("c", "k", "ci"):
            es = [n.ev["e"]]
        for e in es:
            if e[0] == "c" and (e[1].startswith("Logger::") or e[1].split("(")[0].split("::")[-1] in ("operator==", "operator!=", "find")):
                continue
            al = list(e[3] if e[0] == "c" else e[2] if e[0] == "ci" else e[3])
            for k, a in enumerate(al):
                a = strip_cast(a)
                if a[0] == "u" and a[1] == "&":
                    continue
                if not is_v(a):
                    if any(s[0] in ("k", "il", "new") and any(is_v(x) for x in walk(s)) for s in walk(a)):
                        return {"?"}
                    continue
                ts = self.targets(e) if e[0] == "c" else [e[2]] if e[0] == "k" and e[2] in self.p.funcs else None
                if ts is None:
                    if e[0] == "c" and e[2] is not None:
                        b = strip_cast(e[2])
                        for o in origins(g, b):
                            if o[0] == "m":
                                return {o[2]}
                            if o[0] == "v" and o[3] == "p":
                                return {("param", o[1])}
                    return {"?"}
                for t in ts:
                    t = t if isinstance(t, str) else t.id
                    kept = set(self.keeps.get(t, {}).get(k, ())) - {"returned"}
                    if kept:
                        return kept
        if n.k == "new" and any(is_v(s) for s in walk(n.ev["e"])):
            return {"?"}
        return None

    def update(self, f):
        g = self.graph(f)
        ch = False
        ps = params(f)
        ids = {}
        for n in g:
            for e in event_exprs(n):
                for s in walk(e):
                    if s[0] == "v" and s[3] == "p":
                        ids[s[1]] = s[2]
        for k, (nm, t) in enumerate(ps):
            if nm not in ids:
                continue
            if self.ptr(t) and "&" not in t:
                vs = self.names(g, ids[nm])
                got = {}
                for n in g:
                    c = self.consumed(g, n, vs)
                    if c:
                        got.setdefault(k, set()).update(x for x in c)
                    if n.k == "call" and n.ev["e"][0] == "c":
                        for j in self.call_idx(n.ev["e"], self.frees):
                            if j < len(n.ev["e"][3]) and any(s[0] == "v" and s[2] in vs for s in chain(n.ev["e"][3][j])):
                                if k not in self.frees.setdefault(f.id, set()):
                                    self.frees[f.id].add(k)
                                    ch = True
                if k in got and not got[k] <= self.keeps.setdefault(f.id, {}).get(k, set()):
                    self.keeps[f.id].setdefault(k, set()).update(got[k])
                    ch = True
        for n in g:
            if n.k == "call" and n.ev["e"][0] == "c":
                for j in self.call_idx(n.ev["e"], self.frees):
                    h = holder(g, n.ev["e"][3][j]) if j < len(n.ev["e"][3]) else None
                    if h is not None and h[0] == "v" and h[3] == "p":
                        k = [i for i, (nm, t) in enumerate(ps) if nm == h[1]]
                        if k and k[0] not in self.freec.setdefault(f.id, set()):
                            self.freec[f.id].add(k[0])
                            ch = True
        # new objects returned
        if f.id not in self.fresh and self.ptr(f.ret):
            for n in returns(g):
                if n.ev.get("e") is not None and (self.makes(n.ev["e"]) or any(self.new_var(g, s[2], True) for s in chain(n.ev["e"]) if s[0] == "v" and s[3] == "l")):
                    self.fresh.add(f.id)
                    ch = True
                    break
        # new objects put where a parameter points
        for n in g:
            if n.k == "asg" and n.ev["op"] == "=":
                l = strip_cast(n.ev["lhs"])
                if l[0] == "u" and l[1] == "*" and strip_cast(l[2])[0] == "v" and strip_cast(l[2])[3] == "p" and self.is_new(g, n.ev["rhs"]):
                    k = [i for i, (nm, t) in enumerate(ps) if nm == strip_cast(l[2])[1]]
                    if k and k[0] not in self.outs.setdefault(f.id, set()):
                        self.outs[f.id].add(k[0])
                        ch = True
        for v in self.new_vars(g):
            vs = self.names(g, v)
            for n in g:
                for c in self.consumed(g, n, vs) or ():
                    if isinstance(c, tuple):
                        k = [i for i, (nm, t) in enumerate(ps) if nm == c[1]]
                        if k and k[0] not in self.fills.setdefault(f.id, set()):
                            self.fills[f.id].add(k[0])
                            ch = True
        return ch

    def is_new(self, g, e):
        return self.makes(e) or any(self.new_var(g, s[2]) for s in chain(e) if s[0] == "v" and s[3] == "l")

    def born(self, g):
        """(node, variable) where a local variable is set to a new object"""
        for n in g:
            if n.k == "decl" and n.ev["init"] is not None and self.makes(n.ev["init"]):
                yield n, n.ev["id"], n.ev["n"]
            elif n.k == "asg" and n.ev["op"] == "=" and n.ev["lhs"][0] == "v" and n.ev["lhs"][3] == "l" and self.makes(n.ev["rhs"]):
                yield n, n.ev["lhs"][2], n.ev["lhs"][1]
            elif n.k == "call" and n.ev["e"][0] == "c":
                for j in self.call_idx(n.ev["e"], self.outs):
                    if j < len(n.ev["e"][3]):
                        a = strip_cast(n.ev["e"][3][j])
                        if a[0] == "u" and a[1] == "&" and strip_cast(a[2])[0] == "v" and strip_cast(a[2])[3] == "l":
                            yield n, strip_cast(a[2])[2], strip_cast(a[2])[1]

    def new_vars(self, g):
        return {v for n, v, nm in self.born(g)}

    def new_var(self, g, i, only=False):
        """is the variable, or one it stands for, set to a new object (that is not kept anywhere else)?"""
        for v in self.new_vars(g):
            vs = self.names(g, v)
            if i in vs and not (only and any((self.consumed(g, n, vs) or set()) - {"returned", "linked"} for n in g)):
                return True
        return False


def chain(e):
    """the expression itself, through casts, conditional operators and chained assignments"""
    e = strip_cast(e)
    yield e
    if e[0] == "?":
        yield from chain(e[2])
        yield from chain(e[3])
    elif e[0] == "b" and e[1] == "=":
        yield from chain(e[2])
        yield from chain(e[3])


def params(f):
    return [(x[0], x[1]) if isinstance(x, (list, tuple)) else (x["n"], x["t"]) for x in f.params]


# ---- not used once given back

def gone(ctx, p, S):
    for f in sorted(S.cand, key=lambda f: f.id):
        g = S.graph(f)
        for n in g:
            if n.k != "call" or n.ev["e"][0] != "c":
                continue
            for j in S.call_idx(n.ev["e"], S.frees):
                if j >= len(n.ev["e"][3]):
                    continue
                x = strip_cast(n.ev["e"][3][j])
                if x[0] == "v" and x[3] != "g":
                    ctx.analysed(f.short)
                    after(ctx, p, S, f, g, n, x)
                elif x[0] == "m" and not x[2].startswith("std::") or x[0] == "v" and x[3] == "g":
                    ctx.analysed(f.short)
                    field(ctx, p, f, g, n, x)
                element(ctx, p, S, f, g, n, x)


def sets(n, i):
    if n.k == "decl":
        return n.ev["id"] == i
    if n.k == "asg":
        return n.ev["op"] == "=" and n.ev["lhs"][0] == "v" and n.ev["lhs"][2] == i
    return False


def after(ctx, p, S, f, g, n, x):
    def used(m):
        if m is n and False:
            return False
        if sets(m, x[2]):
            e = m.ev.get("init") if m.k == "decl" else m.ev["rhs"]
            return e is not None and any(s[0] == "v" and s[2] == x[2] for s in walk(e))
        return any(s[0] == "v" and s[2] == x[2] for e in event_exprs(m) for s in walk(e))
    first = [g.nodes[s] for s, l in n.succ]
    r = paths(g).search(first, used, stop=lambda m: sets(m, x[2]) and not used(m))
    ctx.ob("gone", "%s in %s" % (x[1], f.short), r is None, r[-1].loc if r else n.loc, "used after it was given back at line %s" % n.line)
    # other variables standing for the same object
    same = [m for m in g if m.k == "decl" and m.ev["init"] is not None and m.ev["id"] != x[2] and strip_cast(m.ev["init"])[:3] == x[:3] and m.ev["t"].endswith("*")]
    for m in same:
        y = m.ev["id"]
        if any(sets(k, x[2]) for k in g) and any(k.k == "asg" and sets(k, x[2]) for k in g):
            continue            # moved on in between
        use = lambda k: k.k != "decl" and not sets(k, y) and any(s[0] == "v" and s[2] == y for e in event_exprs(k) for s in walk(e))
        r = paths(g).search(first, use, stop=lambda k: sets(k, y))
        ctx.ob("gone", "%s in %s" % (m.ev["n"], f.short), r is None, r[-1].loc if r else n.loc, "used after %s was given back at line %s" % (x[1], n.line))


def field(ctx, p, f, g, n, x):
    key = lambda s: s[0] == "m" and x[0] == "m" and s[2] == x[2] and strip_cast(s[1]) == strip_cast(x[1]) or s[0] == "v" and x[0] == "v" and s[3] == "g" and s[1] == x[1]
    name = x[2] if x[0] == "m" else x[1]
    def sets_it(m):
        return m.k == "asg" and m.ev["op"] == "=" and key(strip_cast(m.ev["lhs"]))
    def used(m):
        if sets_it(m):
            return any(key(s) for s in walk(m.ev["rhs"]))
        if m.k == "acc" and m.ev["rw"] == "w":
            return False
        return any(key(s) for e in event_exprs(m) for s in walk(e))
    first = [g.nodes[s] for s, l in n.succ]
    r = paths(g).search(first, used, stop=sets_it)
    ctx.ob("gone", "%s in %s" % (name, f.short), r is None, r[-1].loc if r else n.loc, "used after it was given back at line %s" % n.line)
    if not f.short.endswith("<dtor>"):
        r = paths(g).search(first, lambda m: m is g.exit, stop=sets_it)
        ctx.ob("gone", "%s left in %s" % (name, f.short), r is None, n.loc, "still refers to the object after it was given back")


def holder(g, e, depth=4):
    """the container an element expression was taken from: a field, variable or parameter"""
    e = strip_cast(e)
    if depth == 0:
        return None
    if e[0] == "v" and e[3] != "g" or e[0] == "v" and e[2]:
        ds = common._defs(g).get(e[2], ())
        for d in ds:
            h = holder(g, d, depth - 1)
            if h is not None:
                return h
        return None
    if e[0] == "m" and e[2].startswith("std::pair"):
        return holder(g, e[1], depth)
    if e[0] == "c" and e[2] is not None:
        h = e[1].split("(")[0]
        m = h.split("::")[-1]
        if m in ("operator*", "operator->"):
            return holder(g, e[2], depth - 1)
        if m in ("begin", "cbegin", "find", "erase") and h.startswith("std::"):
            return container(g, e[2])
        if m in ("operator[]", "at", "front", "back") and h.startswith("std::"):
            return container(g, e[2])
    return None


def container(g, e):
    e = strip_cast(e)
    for i in range(3):
        if e[0] == "v" and e[1].startswith("__range") and common._defs(g).get(e[2]):
            e = strip_cast(common._defs(g)[e[2]][0])
    return e if e[0] in ("v", "m") else None


def element(ctx, p, S, f, g, n, x):
    h = holder(g, x)
    if h is not None and x[0] == "v":           # only what reaches the call
        h = None
        for m in g:
            if sets(m, x[2]) and paths(g).search([g.nodes[s] for s, l in m.succ], lambda k: k is n, stop=lambda k: sets(k, x[2])) is not None:
                e = m.ev.get("init") if m.k == "decl" else m.ev["rhs"]
                h = h or (holder(g, e) if e is not None else None)
    if h is None:
        return
    same = lambda s: s[0] == h[0] and s[1:3] == h[1:3] or s[0] == "v" and s[1].startswith("__range") and container(g, s) == h
    name = h[2] if h[0] == "m" else h[1]
    lp = loop_of(g, n)
    body = lp[1] if lp else set()
    def empties(m):
        if m.k == "decl" and h[0] == "v" and m.ev["id"] == h[2]:
            return True
        if m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][2] is not None:
            b = strip_cast(m.ev["e"][2])
            if same(b) and m.ev["e"][1].split("(")[0].split("::")[-1] in ("clear", "erase", "pop_back", "pop", "swap", "operator="):
                return True
        return m.k == "dtor" and h[0] == "v" and m.ev["id"] == h[2]
    # taken out of the container before it is given back?
    v = x if x[0] == "v" else None
    out = lambda m: m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][2] is not None and same(strip_cast(m.ev["e"][2])) and m.ev["e"][1].split("(")[0].split("::")[-1] in ("erase", "pop_back", "pop", "pop_front")
    if v is not None:
        defs = [m for m in g if sets(m, v[2])]
        if defs and paths(g).search(defs, lambda m: m is n, stop=out) is None:
            ctx.ob("emptied", "%s in %s" % (name, f.short), True, n.loc, "")
            return
    moving = lambda m: m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1].split("(")[0].split("::")[-1] in ("end", "cend", "begin", "size", "empty") and m.id in body
    def used(m):
        if empties(m) or moving(m) or m.k == "decl" and m.ev["n"].startswith("__"):
            return m.k == "decl" and m.ev["n"].startswith("__range") and m.id not in body and m.ev["init"] is not None and same(strip_cast(m.ev["init"]))
        return any(same(s) for e in event_exprs(m) for s in walk(e)) and m.k in ("call", "ctor", "ret", "asg", "decl") and m.id not in body
    first = [g.nodes[s] for s, l in n.succ]
    local = h[0] == "v" and h[3] == "l" and not (len(h) > 4 and h[4].endswith("&"))
    ends = (lambda m: m is g.exit) if not local and not f.short.endswith("<dtor>") else (lambda m: False)
    r = paths(g).search(first, lambda m: used(m) or ends(m), stop=empties)
    ctx.ob("emptied", "%s in %s" % (name, f.short), r is None, n.loc, "objects given back here are still in the container %s" % ("afterwards" if r is None or r[-1] is g.exit else "at line %s" % r[-1].line))


# ---- not lost

def dropped(ctx, p, S):
    for f in sorted(S.cand, key=lambda f: f.id):
        g = S.graph(f)
        for n, v, nm in list(S.born(g)):
            ctx.analysed(f.short)
            vs = S.names(g, v)
            stored = {w for w in vs if w != v and any(S.consumed(g, m, {w}) for m in g)}
            def handed_on(m):
                if S.consumed(g, m, {v}):
                    return True
                if m.k in ("asg", "decl"):
                    e = m.ev.get("init") if m.k == "decl" else m.ev["rhs"]
                    i = m.ev["id"] if m.k == "decl" else m.ev["lhs"][2] if m.ev["lhs"][0] == "v" else None
                    if e is not None and i in stored and any(s[0] == "v" and s[2] == v for s in chain(e)):
                        return True
                # a list built by way of &v
                if m.k == "call" and m is not n and m.ev["e"][0] == "c":
                    for a in m.ev["e"][3]:
                        a = strip_cast(a)
                        if a[0] == "u" and a[1] == "&" and strip_cast(a[2])[0] == "v" and strip_cast(a[2])[2] == v:
                            return True
                return False
            by_ref = n.k == "call"
            def null_edge(src, l):
                return any(null_test(e, t) and any(s[0] == "v" and s[2] == v for s in walk(e)) for e, t in truths(l))
            first = [g.nodes[s] for s, l in n.succ]
            lost = lambda m: m is g.exit or sets(m, v) and not by_ref and not handed_on(m)
            r = paths(g).search(first, lost, stop=handed_on, stop_edge=null_edge)
            ctx.ob("dropped", "%s in %s" % (nm, f.short), r is None, n.loc,
                   "the object is neither given back nor kept when %s" % ("the function ends" if r is None or r[-1] is g.exit else "another takes its place at line %s" % r[-1].line))


# ---- given back with their owner

def owner(ctx, p, S):
    own = {}
    for f in S.cand:
        g = S.graph(f)
        for n in g:
            if n.k == "asg" and n.ev["op"] == "=" and strip_cast(n.ev["lhs"])[0] == "m" and S.is_new(g, n.ev["rhs"]):
                own.setdefault(strip_cast(n.ev["lhs"])[2], n)
            if n.k == "call" and n.ev["e"][0] == "c":
                e = n.ev["e"]
                for j, a in enumerate(e[3]):
                    a = strip_cast(a)
                    if a[0] == "m" and j in S.call_idx(e, S.fills):
                        own.setdefault(a[2], n)
                    if S.is_new(g, a):
                        c = None
                        ts = S.targets(e)
                        if ts:
                            for t in ts:
                                t = t if isinstance(t, str) else t.id
                                for x in S.keeps.get(t, {}).get(j, ()):
                                    if isinstance(x, str) and "::m_" in x:
                                        own.setdefault(x, n)
                        elif e[2] is not None and strip_cast(e[2])[0] == "m":
                            own.setdefault(strip_cast(e[2])[2], n)
    for fld, site in sorted(own.items()):
        cls = fld.rsplit("::", 1)[0]
        if cls not in p.records or cls == "Recyclable" or cls == "MemoryManager":
            continue
        rec = derives(p, cls, "Recyclable")
        ends = [f for f in p.funcs.values() if f.cls == cls and (f.short.endswith("::recycle") if rec else f.short.endswith("<dtor>"))]
        if cls in TAGGED:
            ends += [p.funcs[x] for x in S.frees if x in p.funcs and any(cls_of(t) == cls for i, (nm, t) in enumerate(params(p.funcs[x])) if i in S.frees[x])]
        ok = False
        for f in ends:
            g = AGraph(p, f, inline=lambda fn, e, d: fn.cls == cls and not fn.short.endswith(("<ctor>", "<dtor>")))
            ctx.analysed(f.short)
            hit = lambda s: s[0] == "m" and s[2] == fld
            def frees(m):
                if m.k != "call" or m.ev["e"][0] != "c":
                    return False
                for j in S.call_idx(m.ev["e"], S.frees) | S.call_idx(m.ev["e"], S.freec):
                    if j < len(m.ev["e"][3]):
                        a = m.ev["e"][3][j]
                        if any(hit(s) for s in walk(a)) or any(hit(s) for o in origins(g, a) for s in walk(o)):
                            return True
                        h = holder(g, a)
                        if h is not None and hit(h):
                            return True
                return False
            if not any(frees(m) for m in g):
                continue
            # reached on every path, but for finding nothing there
            def nothing(src, l):
                if cls in TAGGED and l and l[0] in ("case", "default") and any(s[0] == "m" and s[2] == TAGGED[cls] for s in walk(l[1])):
                    return paths(g).search([t for t in [g.nodes[x] for x, y in src.succ if y is l]], frees) is None
                return any(null_test(e, t) and any(hit(s) for s in walk(e)) for e, t in truths(l))
            fs = [m for m in g if frees(m)]
            start = lambda m: frees(m) or any(loop_of(g, x) and m.id == loop_of(g, x)[0] for x in fs)
            if paths(g).search([g.entry], lambda m: m is g.exit, stop=start, stop_edge=nothing) is None:
                ok = True
        replaced(ctx, p, S, cls, fld, rec)
        ctx.ob("owner", fld, ok, site.loc, "not given back when the object that keeps it %s" % ("is recycled" if rec else "is destroyed"))


def replaced(ctx, p, S, cls, fld, rec):
    """what the field refers to is not forgotten when the field is set"""
    hit = lambda s: s[0] == "m" and s[2] == fld and strip_cast(s[1])[0] == "t"
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls != cls or f.short.endswith(("<ctor>", "<dtor>", "::init")):
            continue
        # a plain setter leaves it to its caller that nothing is there
        given = lambda ev: strip_cast(ev["rhs"])[0] == "v" and strip_cast(ev["rhs"])[3] == "p"
        sites = [ev for ev in f.events() if ev["k"] == "asg" and ev["op"] == "=" and hit(strip_cast(ev["lhs"])) and not given(ev)]
        if not sites:
            continue
        g = Graph(p, f)
        ctx.analysed(f.short)
        def free_of(e):
            return [m for m in g if m.k == "call" and m.ev["e"][0] == "c" and any(j < len(m.ev["e"][3]) and
                    any(hit(s) for o in [m.ev["e"][3][j]] + list(origins(g, m.ev["e"][3][j])) for s in walk(o)) for j in S.call_idx(m.ev["e"], S.frees))]
        fr = set(m.id for m in free_of(None))
        moved = lambda m: m.k in ("decl", "asg") and (m.ev.get("init") if m.k == "decl" else m.ev["rhs"]) is not None and any(hit(s) for s in chain(m.ev.get("init") if m.k == "decl" else m.ev["rhs"])) and not (m.k == "decl" and m.ev["t"].endswith("&"))
        done = lambda m: m.id in fr or moved(m) or m.k == "asg" and m.ev["op"] == "=" and hit(strip_cast(m.ev["lhs"]))
        none = lambda src, l: any(null_test(e, t) and any(hit(x) for x in tested(e)) for e, t in truths(l))
        for n in g:
            if n.k == "asg" and n.ev["op"] == "=" and hit(strip_cast(n.ev["lhs"])) and not given(n.ev):
                r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m is not n and done(m), stop_edge=none)
                ctx.ob("owner", "%s replaced in %s" % (fld, f.short), r is None, n.loc, "what it referred to is neither given back nor passed on")


# ---- clean when handed out again

def resets(p, g, n, fld):
    """does the node give the field a new value, or empty it?"""
    if n.k == "asg" and n.ev["op"] == "=":
        l = strip_cast(n.ev["lhs"])
        if l[0] == "m" and l[2] == fld:
            return True
        if l[0] == "x" and strip_cast(l[1])[0] == "m" and strip_cast(l[1])[2] == fld:
            return True
    if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None:
        b = strip_cast(n.ev["e"][2])
        if b[0] == "m" and b[2] == fld:
            m = n.ev["e"][1].split("(")[0].split("::")[-1]
            return m in ("clear", "reset", "recycle", "init", "store", "operator=", "assign", "resize", "close") or m.startswith("set")
    if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is None and n.ev["e"][3]:
        if n.ev["e"][1].split("(")[0].split("::")[-1] in ("memset", "memcpy", "strcpy", "strncpy"):
            b = strip_cast(n.ev["e"][3][0])
            return any(s[0] == "m" and s[2] == fld for s in walk(b))
    return False


def clean(ctx, p, made):
    writes = {}     # field -> functions changing it
    for f in p.funcs.values():
        last = f.short.split("::")[-1]
        if last in ("<ctor>", "<dtor>"):
            continue
        for ev in f.events():
            fld = None
            if ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m":
                fld = strip_cast(ev["lhs"])[2]
            elif ev["k"] == "acc" and "w" in ev["rw"] and ev["e"][0] == "m":
                fld = ev["e"][2]
            if fld:
                writes.setdefault(fld, set()).add(f.short)
    allocs = alloc_sites(p)
    done = set()
    for c in sorted(made):
        line = lineage(p, c)
        G = {}
        for what in ("init", "recycle"):
            # the one that is called on an object of this class
            for x in line:
                fs = [f for f in p.funcs.values() if f.cls == x and f.short == x + "::" + what and not f.params]
                if fs:
                    G[what] = AGraph(p, fs[0], inline=lambda fn, e, d: fn.cls in line and not fn.short.endswith(("<ctor>", "<dtor>")))
                    break
        for x in line:
            if x == "Recyclable":
                continue
            for fl in p.records[x]["fields"]:
                fld = x + "::" + fl["n"]
                ws = {w for w in writes.get(fld, ()) if w.split("::")[-1] not in ("init", "recycle")}
                if not ws or fl.get("static") or c in TAGGED and fld != TAGGED[c]:
                    continue
                fld, name = WITH.get(fld, fld), fld
                ok, where_ = False, None
                for what, g in G.items():
                    hit = lambda s: s[0] == "m" and s[2] == fld
                    def nothing(src, l):
                        return any(any(hit(s) for s in walk(e)) for e, t in truths(l))
                    if paths(g).search([g.entry], lambda m: m is g.exit, stop=lambda m: resets(p, g, m, fld), stop_edge=nothing) is None and \
                            any(resets(p, g, m, fld) for m in g):
                        ok = True
                        break
                    where_ = "%s:%s" % (g.func.file, g.func.line) if hasattr(g, "func") else None
                if not ok:
                    ok, where_ = set_by_users(ctx, p, c, fld, allocs, where_)
                ctx.ob("clean", "%s in %s" % (name, c), ok, where_ or "src/core/memmgr.cpp:1", "neither reset when the object is recycled or initialised, nor set by everyone who takes one")


def alloc_sites(p):
    out = []
    for f in p.funcs.values():
        if f.cls == "MemoryManager":
            continue
        if any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == ALLOC for ev in f.events()):
            out.append(f)
    return out


def set_by_users(ctx, p, c, fld, allocs, where_):
    """is the field set after every allocation of the class?"""
    kinds_of = None
    found = False
    for f in allocs:
        g0 = Graph(p, f)
        for n in g0:
            if n.k != "call" or n.ev["e"][0] != "c" or short(n.ev["e"][1]) != ALLOC:
                continue
            t = None
            for m in g0:
                for e in event_exprs(m):
                    for s in walk(e):
                        if s[0] == "cast" and strip_cast(s)[0] == "c" and strip_cast(s)[-1] == n.ev["e"][-1]:
                            t = cls_of(s[1])
            if t is None or t not in p.records:
                continue
            if not (derives(p, c, t)):
                continue
            if t != c and not kind_makes(p, g0, n, c):
                continue
            g = AGraph(p, f, inline=lambda fn, e, d: (derives(p, c, fn.cls) if fn.cls in p.records else False) and not fn.short.endswith(("<ctor>", "<dtor>")) and fn.id != f.id)
            starts = [m for m in g if m.k == "call" and m.frame == 0 and m.ev["e"][0] == "c" and m.ev["e"][-1] == n.ev["e"][-1]]
            found = True
            for s in starts:
                none = lambda src, l: any(null_test(e, t) and any(x[0] == "v" and x[3] == "l" and derives(p, c, cls_of(x[4]) or "") for x in tested(e)) for e, t in truths(l))
                if escapes(g, s, lambda m: resets(p, g, m, fld) or virtual_reset(p, m, c, fld), edge_stop=none) is not None:
                    return False, s.loc
    return (True, None) if found else (False, where_)


def virtual_reset(p, n, c, fld):
    """a virtual call that for this class sets the field"""
    if n.k != "call" or n.ev["e"][0] != "c" or not n.ev["e"][4] or n.ev["e"][2] is None:
        return False
    m = short(n.ev["e"][1]).split("::")[-1]
    line = lineage(p, c)
    if short(n.ev["e"][1]).split("::")[0] not in line:
        return False
    for x in line:
        fs = [f for f in p.funcs.values() if f.cls == x and f.short == x + "::" + m and len(f.params) == len(n.ev["e"][3])]
        if fs:
            g = AGraph(p, fs[0], inline=lambda fn, e, d: fn.cls in line and not fn.short.endswith(("<ctor>", "<dtor>")))
            return paths(g).search([g.entry], lambda m: m is g.exit, stop=lambda m: resets(p, g, m, fld)) is None
    return False


def tested(e):
    """what a null test is about"""
    e = strip_cast(e)
    return [strip_cast(x) for x in e[2:4]] if e[0] == "b" else [e]


def kind_makes(p, g, n, c):
    """can the kind asked for at n be class c?  (compared by name; not known counts as yes)"""
    vs = [s for s in walk(n.ev["e"][3][0]) if s[0] == "i" and len(s) > 2]
    if len(vs) != 1:
        return True
    return kind_class(p).get(vs[0][1]) in (None, c)


def kind_class(p):
    if not hasattr(p, "_kind_class"):
        out = {}
        g = Graph(p, p.need(ALLOC)[0])
        for n in g:
            for s, l in n.succ:
                if l and l[0] == "case":
                    for v in l[2]:
                        cs = [x for x in created(p, g, s) if not isinstance(x, tuple)]
                        if len(cs) == 1:
                            out[v[1]] = cs[0]
        p._kind_class = out
    return p._kind_class
