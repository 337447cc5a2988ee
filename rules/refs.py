"""References counted by hand: taken, handed on and released exactly once.

The rules that use this module name the counted class with use(): T (class),
COUNT (field), INC/DEC (functions that change it), GET (functions that return a
referenced object), SETS (functions that fill a vector with referenced objects:
name -> index of the vector), OWNER (field that owns a reference) and, for the
rule ids, what to call things."""
from common import *


class cfg:
    pass


def use(**kw):
    for k, v in kw.items():
        setattr(cfg, k, v)
    cfg.PTR = cfg.T + " *"
    cfg.VEC = "vector<%s *>" % cfg.T


def pairing(ctx, p):
    C = consumers(p)
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.file.startswith(NO_INLINE_FILES) or f.short in cfg.SKIP:
            continue
        names = set(short(ev["e"][1]) for ev in f.events() if ev["k"] == "call" and ev["e"][0] == "c")
        if names & (set(cfg.GET) | set(cfg.SETS) | set(cfg.INC)):
            singles(ctx, p, f, C)
            sets(ctx, p, f, C)
        elif names & set(cfg.DEC):
            stray(ctx, p, f)


def rel(n):
    return is_call(n, *cfg.DEC) or changes(n, ("--", "-="), ("operator--", "fetch_sub"))


def acq(n):
    return is_call(n, *cfg.INC) or changes(n, ("++", "+="), ("operator++", "fetch_add"))


def changes(n, ops, names):
    """the count itself is changed"""
    if n.func.short in cfg.INC + cfg.DEC:
        return False
    if n.k == "asg" and n.ev["op"] in ops:
        return mentions_field(n.ev["lhs"], cfg.COUNT)
    return n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "m" and strip_cast(n.ev["e"][2])[2] == cfg.COUNT \
        and short(n.ev["e"][1]).split("::")[-1] in names


def base(n):
    """the object whose count is changed"""
    e = n.ev["lhs"] if n.k == "asg" else n.ev["e"][2]
    e = strip_cast(e) if e is not None else None
    if e is not None and e[0] == "m" and e[2] == cfg.COUNT:
        e = strip_cast(e[1])
    while e is not None and e[0] == "u" and e[1] in ("*", "&"):
        e = strip_cast(e[2])
    return e


def consumers(p):
    """(function, parameter index) that take over a reference"""
    out = {}
    change = True
    while change:
        change = False
        for f in p.funcs.values():
            ids = {q["id"]: i for i, q in enumerate(f.params) if q["t"].replace("const ", "").strip() in (cfg.PTR, cfg.PTR + "const")}
            if not ids:
                continue
            have = out.setdefault(f.id, set())
            # takes a reference of its own
            for ev in f.events():
                if ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) in cfg.INC and ev["e"][2] is not None:
                    ids.pop(strip_cast(ev["e"][2])[2] if strip_cast(ev["e"][2])[0] == "v" else None, None)
            def add(e):
                e = strip_cast(e) if e is not None else None
                if e is not None and e[0] == "v" and e[2] in ids and ids[e[2]] not in have:
                    have.add(ids[e[2]])
                    return True
                return False
            for ev in f.events():
                if ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m" and strip_cast(ev["lhs"])[2] == cfg.OWNER and ev["rhs"] is not None:
                    change |= add(ev["rhs"])
                elif ev["k"] == "init" and ev.get("f") == cfg.OWNER:
                    change |= add(ev.get("e"))
                elif ev["k"] == "call" and ev["e"][0] == "c":
                    if short(ev["e"][1]) in cfg.DEC:
                        change |= add(ev["e"][2])
                    for i in out.get(ev["e"][1], ()):
                        if i < len(ev["e"][3]):
                            change |= add(ev["e"][3][i])
                elif ev["k"] == "ctor" and ev["e"][0] == "k":
                    for i in out.get(ev["e"][2], ()):
                        if i < len(ev["e"][3]):
                            change |= add(ev["e"][3][i])
    return out


def is_v(e, v):
    e = strip_cast(e) if e is not None else None
    return e is not None and e[0] == "v" and e[2] == v


def transfers(g, n, v, C):
    """the reference held by v is handed on at n"""
    if n.k == "call" and n.ev["e"][0] == "c":
        e = n.ev["e"]
        if any(i < len(e[3]) and is_v(e[3][i], v) for i in C.get(e[1], ())):
            return True
        if "::push_back(" in e[1] or "::emplace_back(" in e[1]:
            return any(is_v(a, v) for a in e[3])
    if n.k == "ctor" and n.ev["e"][0] == "k":
        e = n.ev["e"]
        if any(i < len(e[3]) and is_v(e[3][i], v) for i in C.get(e[2], ())):
            return True
    if n.k == "ret" and n.ev["e"] is not None and is_v(n.ev["e"], v) and n.frame == 0:
        return True
    if n.k == "asg" and n.ev["rhs"] is not None and is_v(n.ev["rhs"], v) and strip_cast(n.ev["lhs"])[0] == "m":
        return True
    return False


def from_inst(e):
    return e is not None and any(x[0] == "c" and short(x[1]) in cfg.GET or x[0] == "v" and x[1] == "$ret" for x in walk(e))


def gives(n, C):
    """variables whose reference is released or handed on at n"""
    out = []
    if rel(n):
        out.append(base(n))
    elif n.k == "call" and n.ev["e"][0] == "c":
        out += [strip_cast(n.ev["e"][3][i]) for i in C.get(n.ev["e"][1], ()) if i < len(n.ev["e"][3])]
    elif n.k == "ctor" and n.ev["e"][0] == "k":
        out += [strip_cast(n.ev["e"][3][i]) for i in C.get(n.ev["e"][2], ()) if i < len(n.ev["e"][3])]
    return [e for e in out if e is not None and e[0] == "v"]


def sets_var(n, v):
    return n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["lhs"][2] == v or n.k == "decl" and n.ev["id"] == v


def null_of(v):
    def edge(s, l):
        return any(null_test(e, t) and any(x[0] == "v" and x[2] == v for x in walk(e)) and (e[0] == "v" or e[0] == "b") for e, t in truths(l))
    return edge


def null_any(s, l):
    """something is found missing"""
    return any(null_test(e, t) and any(x[0] == "v" and cfg.PTR in str(x[4] if len(x) > 4 else "") for x in walk(e)) for e, t in truths(l))


def near(p, f):
    names = near_callees(p, f)
    return lambda fn, e, d: fn.short in names and fn.file == f.file and not fn.short.startswith("PageInMemory::") and \
        fn.short not in cfg.GET and fn.short not in cfg.SETS and fn.short not in cfg.INC + cfg.DEC


def singles(ctx, p, f, C):
    g = AGraph(p, f, inline=near(p, f), maxdepth=3)
    ctx.analysed(f)
    for n in g:
        v = None
        if is_call(n, *cfg.GET):
            cid = n.ev["e"][-1]
            v, at = holder(g, n, cid)
            what = "%s in %s" % (short(n.ev["e"][1]), f.short)
            if v is None:
                ctx.ob("release", what, at, n.loc, "the reference taken is not kept, so it can never be released")
                continue
        elif acq(n):
            b = base(n)
            if b is None or b[0] != "v" or b[3] == "g":
                # element of a set or the like
                ctx.ob("release", "reference in %s" % f.short, b is not None and b[0] != "t" and in_loop_balanced(g, n, b), n.loc, "the reference taken is not released")
                continue
            v, at = b[2], n
            what = "reference to %s in %s" % (b[1], f.short)
        if v is None:
            continue
        def gone(m):
            return rel(m) and base(m) is not None and is_v(base(m), v) or transfers(g, m, v, C)
        def lost(m):
            return m.id == g.exit.id or m is not at and sets_var(m, v) and not (m.k == "decl" and m.ev["init"] is None)
        r = paths(g).search([at], lambda m: m is not at and lost(m), stop=lambda m: m is not at and gone(m), stop_edge=null_of(v)) or \
            self_loop(g, at, gone, null_of(v))
        ctx.ob("release", what, r is None, n.loc, "the reference is not released on some path%s" % via(r))
        rs = [m for m in g if gone(m)]
        for m in rs:
            r = paths(g).search([x for x in nexts(g, m)], lambda x: gone(x), stop=lambda x: sets_var(x, v) or acq(x) and base(x) is not None and is_v(base(x), v))
            ctx.ob("release", what + ", once", r is None, m.loc, "the reference can be released or handed on twice%s" % via(r))


    used_after(ctx, g, f)
    for n in g:
        # released or handed on without having been taken
        for v in gives(n, C):
            if v[3] != "l" or n.frame != 0 and any(q["id"] == v[2][1] for q in n.func.params if isinstance(v[2], tuple)):
                continue
            if from_set(g, v):
                continue
            def takes(m):
                return acq(m) and is_v(base(m), v[2]) or sets_var(m, v[2]) and from_inst(m.ev["init"] if m.k == "decl" else m.ev["rhs"])
            r = paths(g).search([g.entry], lambda m: m is n, stop=takes, stop_edge=null_of(v[2]))
            ctx.ob("release", "%s handed on or released in %s" % (v[1], f.short), r is None, n.loc, "a reference that was never taken is released or handed on%s" % via(r))


def nexts(g, n):
    return [g.nodes[s] for s, l in n.succ if not (l and l[0] in ("eh", "throw"))]


def via(r):
    if not r:
        return ""
    ls = []
    for m in r:
        if m.line and (not ls or ls[-1] != m.line):
            ls.append(m.line)
    return " (lines %s)" % ",".join(str(x) for x in ls[-4:])


def stored(g, e):
    """e is a new reference"""
    return any(x[0] == "c" and short(x[1]) in cfg.GET for x in [strip_cast(e)] + list(origins(g, e)))


def holder(g, n, cid):
    """variable that receives the result of call n"""
    def has(e):
        return e is not None and any(x[0] == "c" and x[-1] == cid for x in walk(e))
    for m in g:
        if m.k == "decl" and m.ev["init"] is not None and strip_cast(m.ev["init"])[0] == "c" and strip_cast(m.ev["init"])[-1] == cid:
            return m.ev["id"], m
        if m.k == "asg" and m.ev["rhs"] is not None and strip_cast(m.ev["rhs"])[0] == "c" and strip_cast(m.ev["rhs"])[-1] == cid and m.ev["lhs"][0] == "v":
            return m.ev["lhs"][2], m
    for m in g:
        # used directly as an argument that takes it over, or returned
        if writes_field(m, cfg.OWNER) and has(m.ev["rhs"]):
            return None, True
        if m.k == "ret" and has(m.ev["e"]) or m.k == "ctor" and has(m.ev["e"]) and m.ev["e"][1] == "PageInMemory" or is_call(m, "PageInMemory::init") and any(has(a) for a in args(m)):
            return None, True
    return None, False


def in_loop_balanced(g, n, b):
    return any(rel(m) and strip_cast(base(m)) == b for m in g)


def stray(ctx, p, f):
    """functions that only release: members that own a reference, or loops over a set that was referenced"""
    g = AGraph(p, f)
    ctx.analysed(f)
    for n in g:
        if rel(n):
            b = base(n)
            ok = b is not None and (b[0] == "m" and b[2] == cfg.OWNER or b[0] == "v" and (b[3] == "p" or from_set(g, b) or any(o[0] == "m" and o[2] == cfg.OWNER for o in origins(g, b))) or b[0] == "c" and cfg.VEC in b[1])
            ctx.ob("release", "release in %s" % f.short, ok, n.loc, "a reference is released that was not taken")


def from_set(g, e):
    return any(o[0] == "c" and cfg.VEC in o[1] for o in origins(g, e))


def vec_of(e):
    """the container an element expression or scan belongs to"""
    e = strip_cast(e) if e is not None else None
    while e is not None and e[0] == "u":
        e = strip_cast(e[2])
    return e


def vec_key(e):
    e = vec_of(e)
    if e is None:
        return None
    if e[0] == "v":
        return ("v", e[2]) if e[3] != "g" else ("g", e[1])
    if e[0] == "m":
        return ("m", e[2])
    return None


def scans(g, n):
    """key of the vector that n starts to go through"""
    if vec_scan(n, cfg.PTR):
        return vec_key(n.ev["e"][2])
    return None


def elem_key(g, n):
    """key of the vector that n takes an element from"""
    e = n.ev["e"]
    if "operator[]" in e[1] or "::at(" in e[1]:
        return vec_key(e[2])
    # iterator: where does it come from
    b = e[2] if e[2] is not None else (e[3][0] if e[3] else None)
    if b is None:
        return None
    for o in origins(g, b):
        if o[0] == "c" and o[2] is not None and ("::begin(" in o[1] or "::cbegin(" in o[1]):
            k = vec_key(o[2])
            if k and k[0] == "v":
                # range-for: reference to the range
                for d in origins(g, o[2]):
                    if vec_key(d):
                        return vec_key(d)
            return k
    return None


def resolve(g, k):
    """follow references to the range of a range-for"""
    if k and k[0] == "v":
        ks = set(vec_key(d) for d in origins(g, ("v", "", k[1], "l", "")))
        ks.discard(None)
        if len(ks) == 1:
            return ks.pop()
    return k


def sets(ctx, p, f, C):
    g = AGraph(p, f, inline=near(p, f), maxdepth=3)
    for n in g:
        if is_call(n, *cfg.SETS):
            k = resolve(g, vec_key(args(n)[cfg.SETS[short(n.ev["e"][1])]]))
        elif fills(g, n):
            k = resolve(g, vec_key(n.ev["e"][2]))
            if k is None or k[0] != "v" or any((0, q["id"]) == k[1] for q in f.params):
                continue
        else:
            continue
        what = "%s collected in %s" % (cfg.MANY, f.short)
        if k is None:
            ctx.ob("each", what, False, n.loc, "the set of references cannot be released")
            continue
        if k[0] == "m":
            field_set(ctx, p, f, g, n, k[1])
            continue
        if k[0] == "v" and any((0, q["id"]) == k[1] for q in f.params):
            ctx.ob("each", what, True, n.loc, "")
            continue
        rl = [m for m in g if rel(m) and elem_of(g, m, k)]
        fetch = [m for m in g if fetches(m, cfg.PTR) and resolve(g, elem_key(g, m)) == k]
        rloops = []
        for m in fetch:
            lp = loop_of(g, m)
            if lp and any(x.id in lp[1] for x in rl):
                rloops.append((m, lp))
        ctx.ob("each", what + " released", bool(rloops), n.loc, "the references are never released")
        if not rloops:
            continue
        heads = set(lp[0] for m, lp in rloops)
        def none(s, l):
            return any(t and e[0] == "c" and "::empty(" in e[1] and resolve(g, vec_key(e[2])) == k for e, t in truths(l))
        # every path goes through a loop that releases
        r = paths(g).search([n], lambda m: m.id == g.exit.id, stop=lambda m: m.id in heads, stop_edge=none)
        ctx.ob("each", what + " released on every path", r is None, n.loc, "the references are not released on some path%s" % via(r))
        for m, lp in rloops:
            h, body = lp
            r = paths(g).search(nexts(g, m), lambda x: x is m or x.id == h or x.id not in body, stop=lambda x: x in rl)
            ctx.ob("each", what + ", each", r is None, m.loc, "a reference is not released on some path through the loop%s" % via(r))
            why = partial(g, m)
            ctx.ob("each", what + ", the whole set", why is None, m.loc, "not all references are released: %s" % why)
            early = [x for x in left_early(g, m)]
            ctx.ob("each", what + ", all", not early, m.loc, "the loop that releases the references can be left before all are released (line %s)" % (early[0][0].line if early else ""))
            for x in rl:
                if x.id in body:
                    r = paths(g).search(nexts(g, x), lambda y: y in rl and y.id in body, stop=lambda y: y is m or y.id == h or y.id not in body)
                    ctx.ob("each", what + ", each once", r is None, x.loc, "a reference is released twice%s" % via(r))
        # two loops that release, one after the other
        def cleared(m):
            return m.k == "call" and m.ev["e"][0] == "c" and ("::clear(" in m.ev["e"][1] or "::swap(" in m.ev["e"][1]) and resolve(g, vec_key(m.ev["e"][2])) == k
        for m in g:
            if cleared(m):
                r = paths(g).search(nexts(g, n), lambda x: x is m, stop=lambda x: x.id in heads)
                ctx.ob("each", what + ", before they are dropped", r is None, m.loc, "they are dropped without releasing the references%s" % via(r))
        for m, lp in rloops:
            outs = [g.nodes[s] for x in lp[1] for s, l in g.nodes[x].succ if s not in lp[1] and not (l and l[0] in ("eh", "throw"))]
            r = paths(g).search(outs, lambda x: x.id in heads and x.id != lp[0], stop=lambda x: cleared(x) or x.id == lp[0], stop_edge=none)
            ctx.ob("each", what + ", one loop", r is None, m.loc, "the references can be released by two loops%s" % via(r))


def fills(g, n):
    """a reference held by a variable is put into a vector"""
    return n.k == "call" and n.ev["e"][0] == "c" and cfg.VEC in n.ev["e"][1] and ("::push_back(" in n.ev["e"][1] or "::emplace_back(" in n.ev["e"][1]) and any(
        from_inst(o) for o in origins(g, args(n)[0]))


def used_after(ctx, g, f):
    for n in g:
        b = base(n) if rel(n) else None
        if b is not None and b[0] == "v" and b[3] != "g":
            v = b[2]
            r = paths(g).search(nexts(g, n), lambda x: uses(x, v), stop=lambda x: sets_var(x, v), stop_edge=null_of(v))
            ctx.ob("unreferenced-use", "%s after its release in %s" % (b[1], f.short), r is None, n.loc, "it is used after its reference was released%s" % via(r))


def elem_of(g, m, k):
    b = base(m)
    if b is None:
        return False
    for o in origins(g, b):
        for x in walk(o):
            if x[0] == "c" and cfg.VEC in x[1]:
                class N:
                    pass
                n = N()
                n.ev = {"e": x}
                if resolve(g, elem_key(g, n)) == k:
                    return True
    return False


def field_set(ctx, p, f, g, n, fld):
    """references kept in a field: released by the destructor, under the same condition"""
    cls = fld.rsplit("::", 1)[0]
    ds = p.all(cls + "::<dtor>")
    ctx.ob("each", "%s released by the destructor" % fld, bool(ds), n.loc, "references are kept in %s but never released" % fld)
    for h in p.funcs.values():
        if h.cls == cls:
            gh = None
            for ev in h.events():
                if ev["k"] == "call" and ev["e"][0] == "c" and cfg.VEC in ev["e"][1] and ev["e"][2] is not None and vec_key(ev["e"][2]) == ("m", fld) and any(
                        x in ev["e"][1] for x in ("::clear(", "::erase(", "::pop_back(", "::resize(", "::operator=(", "::swap(")):
                    gh = gh or AGraph(p, h)
                    ok = all(preceded(gh, m, rel) for m in gh if m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1] == ev["e"][1] and vec_key(m.ev["e"][2]) == ("m", fld))
                    ctx.ob("each", "%s dropped in %s" % (fld, h.short), ok, h.loc(), "references kept in %s are dropped without being released" % fld)
    for d in ds:
        gd = AGraph(p, d, inline=near(p, d), maxdepth=2)
        ctx.analysed(d)
        fetch = [m for m in gd if fetches(m, cfg.PTR) and resolve(gd, elem_key(gd, m)) == ("m", fld)]
        ok = bool(fetch)
        for m in fetch:
            r = self_loop(gd, m, rel) or paths(gd).search(nexts(gd, m), lambda x: x.id == gd.exit.id, stop=rel)
            ctx.ob("each", "%s, each" % fld, r is None, m.loc, "a reference may not be released")
            why = partial(gd, m)
            ctx.ob("each", "%s, the whole set" % fld, why is None and not left_early(gd, m), m.loc, "not all references are released: %s" % (why or "the loop is left early"))
        def skipped(edge):
            return paths(gd).search([gd.entry], lambda m: m.id == gd.exit.id, stop=lambda m: scans(gd, m) and resolve(gd, scans(gd, m)) == ("m", fld), stop_edge=edge)
        def says(flag, t):
            return lambda s, l: any(strip_cast(e)[0] == "m" and strip_cast(e)[2] == flag and tt == t for e, tt in truths(l))
        flags = set(strip_cast(e)[2] for m in gd for s, l in m.succ for e, t in truths(l) if strip_cast(e)[0] == "m")
        cond = [(x, t) for x in sorted(flags) for t in (True, False) if skipped(says(x, t)) is None] if skipped(None) is not None else []
        ctx.ob("each", "%s gone through" % fld, ok and (skipped(None) is None or bool(cond)), d.loc(), "the references kept are not released")
        if cond:
            # not released if flag is t: not taken then either
            ok = any(paths(g).search([g.entry], lambda m: m is n, stop_edge=says(x, not t)) is None for x, t in cond)
            ctx.ob("each", "%s taken only when released" % fld, ok, n.loc, "references are taken that the destructor does not release")


def owner(ctx, p):
    for f in p.funcs.values():
        if not any(ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m" and strip_cast(ev["lhs"])[2] == cfg.OWNER for ev in f.events()):
            continue
        if f.short.endswith("<ctor>") or f.id not in ctx.locks.all_reach:
            continue
        callers = [c for c in p.callgraph()[1].get(f.id, ())]
        if callers and all(p.funcs[c].short.endswith("<ctor>") for c in callers):
            continue    # only while the page is made
        g = AGraph(p, f)
        ctx.analysed(f)
        def r(m):
            return rel(m) and base(m) is not None and (base(m)[0] == "m" and base(m)[2] == cfg.OWNER or any(o[0] == "m" and o[2] == cfg.OWNER for o in origins(g, base(m))))
        def fine(s, l):
            for e, t in truths(l):
                if null_test(e, t) and any(mentions_field(o, cfg.OWNER) for x in walk(e) if x[0] in ("v", "m") for o in [x] + list(origins(g, x))):
                    return True
            return False
        writes = [n for n in g if writes_field(n, cfg.OWNER)]
        for n in writes:
            src = strip_cast(n.ev["rhs"])
            q = paths(g).search([g.entry], lambda m: m is n, stop=r, stop_edge=fine) and \
                paths(g).search(nexts(g, n), lambda m: m.id == g.exit.id, stop=lambda m: r(m) and base(m)[0] == "v", stop_edge=fine)
            ctx.ob("owner", "old reference released in %s" % f.short, q is None, n.loc, "another one is put in place without releasing the reference to the old one%s" % via(q))
            if stored(g, n.ev["rhs"]):
                continue
            q = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: any(differs(e, t, src) for e, t in truths(l)))
            ctx.ob("owner", "only when it differs in %s" % f.short, q is None, n.loc, "the reference is released although it is kept")
        for n in g:
            if r(n):
                q = paths(g).search(nexts(g, n), r)
                ctx.ob("owner", "released once in %s" % f.short, q is None, n.loc, "the reference is released twice")
                if paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m in writes) is None:
                    continue
                q = paths(g).search(nexts(g, n), lambda m: m.id == g.exit.id, stop=lambda m: m in writes)
                ctx.ob("owner", "replaced after release in %s" % f.short, q is None, n.loc, "what was released is kept in use")


def differs(e, t, src):
    e = strip_cast(e)
    return e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "!=") == t and (mentions_field(e[2], cfg.OWNER) or mentions_field(e[3], cfg.OWNER)) and not any(strip_cast(x)[0] == "n" for x in e[2:4])


def uses(n, v):
    """dereferences v or passes it on"""
    if n.k in ("cmp", "decl", "dtor") or n.k == "ret":
        return n.k == "ret" and n.ev["e"] is not None and is_v(n.ev["e"], v)
    if n.k == "acc":
        return any(x[0] == "v" and x[2] == v for x in walk(n.ev["e"])) and n.ev["e"][0] != "v"
    if n.k == "call" and n.ev["e"][0] == "c":
        return n.ev["e"][2] is not None and any(x[0] == "v" and x[2] == v for x in walk(n.ev["e"][2])) or any(is_v(a, v) for a in n.ev["e"][3])
    return False
