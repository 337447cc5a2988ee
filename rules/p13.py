"""Network buffers go back, once, to the pool they came from."""
import p12
from p12 import Sum, cls_of, chain, holder, params, sets
from common import *
import common

ASSUMPTIONS = [
    "buffers lost while an exception unwinds are out of scope",
    "the lists are used by one thread only while they are set up",
]

MM = "MemoryManager::"
POOLS = {       # list, lock, size, getter of the size, hand out, take back
    "large": (MM + "m_network_buffer_free_list", MM + "m_network_lock", MM + "m_network_buffer_len", MM + "get_network_buffer_size",
              MM + "alloc_network_buffer", MM + "free_network_buffer"),
    "small": (MM + "m_network_buffer_small_free_list", MM + "m_network_small_lock", MM + "m_network_buffer_small_len", MM + "get_network_buffer_small_size",
              MM + "alloc_network_buffer_small", MM + "free_network_buffer_small"),
}
ALLOCS = tuple(x[4] for x in POOLS.values())
FREES = tuple(x[5] for x in POOLS.values())
PTRS = ("char *", "uint8_t *", "unsigned char *", "void *", "const char *")


def check(ctx):
    p = ctx.prog
    ctx.rule("list", "the list of a pool is used under the lock of that pool only", 4)
    ctx.rule("hand-out", "a buffer handed out was taken off the list of its pool or has the size of its pool", 2)
    ctx.rule("take-back", "a buffer given back is linked in front of the list of its pool", 2)
    ctx.rule("pool", "a buffer is given back to the pool it came from", 8)
    ctx.rule("gone", "a buffer is not used, nor given back again, after it has been given back", 8)
    ctx.rule("emptied", "a container whose buffers were given back is emptied or not used any more", 0)
    ctx.rule("dropped", "a buffer is given back, kept or passed on, on every path", 8)
    ctx.rule("owner", "a buffer kept by an object is given back with the object", 3)
    ctx.rule("size", "a buffer is used with the size of its pool", 6)
    ctx.rule("response", "where the buffer of an answered request is given back, so is that of the response", 1)
    lists(ctx, p)
    S = BSum(p)
    pool(ctx, p, S)
    p12.gone(ctx, p, S)
    p12.dropped(ctx, p, S)
    p12.owner(ctx, p, S)
    aliased(ctx, p, S)
    size(ctx, p, S)
    response(ctx, p, S)


class BSum(Sum):
    def __init__(self, p):
        self.owners = owners(p)
        super().__init__(p, ALLOCS, FREES)

    def ptr(self, t):
        return t.replace("&", "").strip() in PTRS

    def relevant(self, f):
        return f.id in self.near

    @property
    def near(self):
        if not hasattr(self, "_near"):
            p = self.p
            callees, callers = p.callgraph()
            base = set()
            for x in ALLOCS + FREES:
                for f in p.all(x):
                    base |= set(callers.get(f.id, ()))
            for x in list(base):    # and who may hand a buffer to them, or get one from them
                f = p.funcs.get(x)
                if f is not None and (self.ptr(f.ret) or any(self.ptr(t) for n, t in params(f))):
                    base |= set(callers.get(x, ()))
            self._near = base
        return self._near

    def consumed(self, g, n, vs):
        r = super().consumed(g, n, vs)
        if r is None:
            return None
        if n.k in ("call", "ctor", "new"):
            r = {x for x in r if x != "?" and (x in self.owners or x in ("freed", "returned") or isinstance(x, tuple))}
        else:
            r = {x for x in r if not (isinstance(x, str) and "::" in x) or x in self.owners}
        return r or None


def owners(p):
    """fields whose buffer, or whose elements, are given back by somebody"""
    out = set()
    callees, callers = p.callgraph()
    todo = set()
    for x in FREES:
        for f in p.all(x):
            todo |= set(callers.get(f.id, ()))
    for fid in todo:
        f = p.funcs.get(fid)
        if f is None or f.cls == "MemoryManager" and False:
            continue
        g = Graph(p, f)
        for n in g:
            if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) in FREES and n.ev["e"][3]:
                a = n.ev["e"][3][0]
                for o in [strip_cast(a)] + list(origins(g, a)):
                    if o[0] == "m" and not o[2].startswith("std::"):
                        out.add(o[2])
                h = holder(g, a)
                if h is not None and h[0] == "m":
                    out.add(h[2])
    return out


# ---- the lists of the pools

def is_list(e):
    e = strip_cast(e)
    for k, x in POOLS.items():
        if is_global(e, x[0]):
            return k
    return None


def lists(ctx, p):
    K = ctx.locks
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        evs = [ev for ev in f.events() if any(is_list(s) for k in ("e", "lhs", "rhs", "init") if isinstance(ev.get(k), tuple) for s in walk(ev[k]))]
        if not evs or f.short.endswith(("<ctor>", "<dtor>")) or f.short == MM + "init":
            continue
        ctx.analysed(f.short)
        L = K.fl.get(f.id)
        if L is None:
            continue
        g = L.g
        for n in g:
            for e in event_exprs(n):
                for s in walk(e):
                    k = is_list(s)
                    if k is None:
                        continue
                    held = set(h[0] for h in K.held_at(L, n))
                    ctx.ob("list", "%s list in %s" % (k, f.short), POOLS[k][1] in held, n.loc, "the lock of the pool is not held here")
            if n.k == "asg" and n.ev["op"] == "=" and is_list(n.ev["lhs"]):
                put(ctx, p, f, g, n, is_list(n.ev["lhs"]))
    for k, x in POOLS.items():
        for f in p.need(x[4]):
            g = AGraph(p, f, inline=lambda fn, e, d: fn.cls == "MemoryManager" and fn.file == f.file)
            ctx.analysed(f.short)
            for n in returns(g):
                if n.ev.get("e") is None:
                    continue
                ok, why = True, ""
                for o in origins(g, n.ev["e"]):
                    if o[0] in ("n", "i"):
                        continue
                    if is_list(o):
                        if is_list(o) != k:
                            ok, why = False, "the buffer comes off the list of the other pool"
                    elif o[0] == "c":
                        sz = None
                        for a in o[3]:
                            for s in [strip_cast(a)] + list(origins(g, a)):
                                for q, y in POOLS.items():
                                    if any(is_global(t, y[2]) or t[0] == "c" and short(t[1]) == y[3] for t in walk(s)):
                                        sz = q
                        if sz != k:
                            ok, why = False, "a buffer created here does not have the size of the pool"
                ctx.ob("hand-out", k, ok, n.loc, why)
        # what is handed out is not left on the list
            for n in g:
                v = n.ev["id"] if n.k == "decl" and n.ev["init"] is not None and is_list(n.ev["init"]) == k else \
                    n.ev["lhs"][2] if n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["lhs"][3] == "l" and is_list(n.ev["rhs"]) == k else None
                if v is None:
                    continue
                off = lambda m: m.k == "asg" and is_list(m.ev["lhs"]) == k
                null = lambda src, l: any(null_test(e, t) and any(s[0] == "v" and s[2] == v or is_list(s) for s in walk(e)) for e, t in truths(l))
                r = paths(g).search([g.nodes[s] for s, l in n.succ], lambda m: m is g.exit, stop=off, stop_edge=null)
                ctx.ob("hand-out", "%s taken off" % k, r is None, n.loc, "the buffer handed out is still on the list")
        for f in p.need(x[5]):
            g = AGraph(p, f, inline=lambda fn, e, d: fn.cls == "MemoryManager" and fn.file == f.file)
            ctx.analysed(f.short)
            par = params(f)[0][0]
            put_ = lambda m: m.k == "asg" and m.ev["op"] == "=" and is_list(m.ev["lhs"]) == k and any(s[0] == "v" and s[1] == par for o in [m.ev["rhs"]] + list(origins(g, m.ev["rhs"])) for s in walk(o))
            null = lambda src, l: any(null_test(e, t) and any(s[0] == "v" and s[1] == par for s in walk(e)) for e, t in truths(l))
            r = paths(g).search([g.entry], lambda m: m is g.exit, stop=put_, stop_edge=null)
            ctx.ob("take-back", k, r is None, "%s:%s" % (f.file, f.line), "a buffer given back does not get on the list of the pool")


def first_word(e):
    """v for *(char**)v"""
    e = strip_cast(e)
    if e[0] == "u" and e[1] == "*":
        return strip_cast(e[2])
    if e[0] == "x" and strip_cast(e[2])[0] == "i" and strip_cast(e[2])[1] == 0:
        return strip_cast(e[1])
    return None


def reaching(g, n, v):
    """what the variable can have been set to last before n"""
    out = []
    for m in g:
        if v[0] == "v" and sets(m, v[2]) and paths(g).search([g.nodes[s] for s, l in m.succ], lambda x: x is n, stop=lambda x: sets(x, v[2])) is not None:
            e = m.ev.get("init") if m.k == "decl" else m.ev["rhs"]
            if e is not None:
                out += list(chain(e))
    return out


def put(ctx, p, f, g, n, k):
    """the head of a list is changed: either the first is taken off, or one is put in front"""
    r = strip_cast(n.ev["rhs"])
    vals = [r] + [o for o in origins(g, r)]
    for o in vals:
        v = first_word(o)
        if v is not None:
            src = [v] + reaching(g, n, v)
            ctx.ob("take-back", "%s list cut in %s" % (k, f.short), any(is_list(s) == k for s in src) and not any(is_list(s) not in (None, k) for s in src), n.loc,
                   "the list is set to what follows a buffer that is not its first")
            return
    if r[0] != "v":
        ctx.ob("take-back", "%s list set in %s" % (k, f.short), r[0] == "n" and False, n.loc, "the buffers on the list are lost")
        return
    linked = lambda m: m.k == "asg" and first_word(m.ev["lhs"]) is not None and any(strip_cast(o)[:3] == r[:3] for o in [first_word(m.ev["lhs"])] + list(origins(g, first_word(m.ev["lhs"])))) and \
        any(is_list(s) == k for o in [m.ev["rhs"]] + list(origins(g, m.ev["rhs"])) for s in walk(o))
    ok = paths(g).search([g.entry], lambda m: m is n, stop=linked) is None
    ctx.ob("take-back", "%s list in %s" % (k, f.short), ok, n.loc, "the rest of the list is lost")


# ---- the pool a buffer is of

def kind_of_call(p, S, e, depth=3):
    s = short(e[1])
    for k, x in POOLS.items():
        if s == x[4]:
            return {k}
    out = set()
    if depth and e[1] in S.fresh:
        f = p.funcs[e[1]]
        g = S.graph(f)
        for n in returns(g):
            if n.ev.get("e") is not None:
                for o in [strip_cast(n.ev["e"])] + list(origins(g, n.ev["e"])):
                    if o[0] == "c":
                        out |= kind_of_call(p, S, o, depth - 1)
    return out


def frees_of(p, S):
    """fid -> {index: pools}"""
    out = {}
    for k, x in POOLS.items():
        for f in p.need(x[5]):
            out[f.id] = {0: {k}}
    change = True
    while change:
        change = False
        for fid, idx in S.frees.items():
            f = p.funcs.get(fid)
            if f is None or f.short in FREES:
                continue
            g = S.graph(f)
            ps = [nm for nm, t in params(f)]
            for n in g:
                if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] in out:
                    for j, ks in list(out[n.ev["e"][1]].items()):
                        if j < len(n.ev["e"][3]):
                            for s in chain(n.ev["e"][3][j]):
                                if s[0] == "v" and s[3] == "p" and s[1] in ps:
                                    i = ps.index(s[1])
                                    if not ks <= out.setdefault(fid, {}).get(i, set()):
                                        out[fid].setdefault(i, set()).update(ks)
                                        change = True
    return out


def pool(ctx, p, S):
    of_field = {}
    def sources(g, e):
        out = set()
        for o in [strip_cast(e)] + list(origins(g, e)):
            for c in chain(o):
                if c[0] == "c":
                    out |= kind_of_call(p, S, c)
                elif c[0] == "m":
                    out.add(c[2])
        return out
    for f in S.cand:
        g = S.graph(f)
        for n in g:
            fld = v = None
            if n.k == "asg" and n.ev["op"] == "=" and strip_cast(n.ev["lhs"])[0] == "m":
                fld, v = strip_cast(n.ev["lhs"])[2], n.ev["rhs"]
            elif n.k in ("init",):
                fld, v = n.ev["f"], n.ev["e"]
            elif n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "m" and n.ev["e"][3]:
                fld, v = strip_cast(n.ev["e"][2])[2], n.ev["e"][3][0]
            if fld in S.owners and isinstance(v, tuple):
                of_field.setdefault(fld, {}).setdefault("x", set()).update(x for x in sources(g, v) if x in POOLS)
                # the object remembers which
                ks = {x for x in sources(g, v) if x in POOLS}
                if ks:
                    of_field[fld].setdefault("sites", []).append((f, g, n, ks))
    fr = frees_of(p, S)
    for f in sorted(S.cand, key=lambda f: f.id):
        g = S.graph(f)
        for n in g:
            if n.k != "call" or n.ev["e"][0] != "c" or n.ev["e"][1] not in fr:
                continue
            for j, ks in fr[n.ev["e"][1]].items():
                if j >= len(n.ev["e"][3]):
                    continue
                a = n.ev["e"][3][j]
                src = sources(g, a)
                h = holder(g, a)
                if h is not None and h[0] == "m":
                    src.add(h[2])
                got, mixed = {x for x in src if x in POOLS}, None
                for x in src:
                    if x not in POOLS:
                        got |= of_field.get(x, {}).get("x", set())
                        if len(of_field.get(x, {}).get("x", ())) > 1:
                            mixed = x
                if not got or len(ks) > 1:
                    continue
                ctx.analysed(f.short)
                nm = strip_cast(a)
                nm = nm[2] if nm[0] == "m" else nm[1] if nm[0] == "v" else "buffer"
                if mixed is None:
                    ctx.ob("pool", "%s in %s" % (nm, f.short), got == ks, n.loc, "a buffer of the %s pool is given back to the %s one" % ("/".join(sorted(got)), "/".join(sorted(ks))))
                else:
                    decided(ctx, p, f, g, n, nm, next(iter(ks)), mixed)
    for fld, d in sorted(of_field.items()):
        if len(d["x"]) > 1:
            for f, g, n, ks in d["sites"]:
                marked(ctx, p, f, g, n, fld, ks)


def pool_of_size(g, e):
    for o in [strip_cast(e)] + list(origins(g, e)):
        for s in walk(o):
            for k, x in POOLS.items():
                if is_global(s, x[2]) or s[0] == "c" and short(s[1]) == x[3]:
                    return k
    return None


def size_field(p, fld):
    """the field of the same class in which the size of a pool is kept"""
    cls = fld.rsplit("::", 1)[0]
    for f in p.funcs.values():
        if f.cls != cls:
            continue
        for ev in f.events():
            if ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m" and strip_cast(ev["lhs"])[2].startswith(cls + "::"):
                if any(s[0] == "c" and short(s[1]) in [x[3] for x in POOLS.values()] or s[0] == "v" and s[3] == "g" and s[1] in [x[2] for x in POOLS.values()] for s in walk(ev["rhs"])):
                    yield strip_cast(ev["lhs"])[2]


def decided(ctx, p, f, g, n, nm, k, fld):
    """a buffer of either pool: given back to one only where its size says so"""
    sf = set(size_field(p, fld))
    other = [x for x in POOLS if x != k][0]
    def says(src, l):
        for e, t in truths(l):
            e = strip_cast(e)
            while e[0] == "u" and e[1] == "!":
                e, t = strip_cast(e[2]), not t
            if e[0] == "v" and e[3] == "l" and len(list(origins(g, e))) == 1:
                e = strip_cast(next(iter(origins(g, e))))
            if e[0] != "b" or e[1] not in ("==", "!="):
                continue
            if not any(s[0] == "m" and s[2] in sf for s in walk(e)):
                continue
            q = pool_of_size(g, e[2]) or pool_of_size(g, e[3])
            if q is None:
                continue
            eq = (e[1] == "==") == t
            if (q == k) == eq:
                return True
        return False
    r = paths(g).search([g.entry], lambda m: m is n, stop_edge=says)
    ctx.ob("pool", "%s to %s in %s" % (nm, k, f.short), r is None, n.loc, "the buffer may be one of the %s pool" % other)


def marked(ctx, p, f, g, n, fld, ks):
    sf = set(size_field(p, fld))
    if not sf:
        ctx.ob("pool", "%s in %s" % (fld, f.short), False, n.loc, "nothing says which pool the buffer came from")
        return
    sets_ = lambda m: m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "m" and strip_cast(m.ev["lhs"])[2] in sf
    good = lambda m: sets_(m) and {pool_of_size(g, m.ev["rhs"])} == ks
    after = paths(g).search([g.nodes[s] for s, l in n.succ], lambda m: m is g.exit or sets_(m) and not good(m), stop=good)
    before = paths(g).search([g.entry], lambda m: m is n, stop=good)
    later = paths(g).search([g.nodes[s] for s, l in n.succ], lambda m: sets_(m) and not good(m))
    ctx.ob("pool", "%s marked in %s" % (fld, f.short), after is None or before is None and later is None, n.loc, "the size kept with the buffer is not that of its pool")


# ---- fields that share a buffer with a local variable

def aliased(ctx, p, S):
    for f in sorted(S.cand, key=lambda f: f.id):
        g = S.graph(f)
        for n in g:
            if n.k != "call" or n.ev["e"][0] != "c":
                continue
            for j in S.call_idx(n.ev["e"], S.frees):
                if j >= len(n.ev["e"][3]):
                    continue
                x = strip_cast(n.ev["e"][3][j])
                if x[0] != "v" or x[3] != "l":
                    continue
                for m in g:
                    fld = None
                    if sets(m, x[2]):
                        e = m.ev.get("init") if m.k == "decl" else m.ev["rhs"]
                        fld = next((s for s in chain(e) if s[0] == "m" and s[2] in S.owners), None) if e is not None else None
                    elif m.k == "asg" and m.ev["op"] == "=" and strip_cast(m.ev["lhs"])[0] == "m" and strip_cast(m.ev["lhs"])[2] in S.owners and any(s[0] == "v" and s[2] == x[2] for s in chain(m.ev["rhs"])):
                        fld = strip_cast(m.ev["lhs"])
                    if fld is None:
                        continue
                    anew = lambda k: k is not m and k.k == "asg" and k.ev["op"] == "=" and strip_cast(k.ev["lhs"])[0] == "m" and strip_cast(k.ev["lhs"])[2] == fld[2]
                    ctx.analysed(f.short)
                    a = paths(g).search([g.nodes[s] for s, l in m.succ], lambda k: k is n, stop=lambda k: anew(k) or sets(k, x[2]))
                    b = paths(g).search([g.nodes[s] for s, l in n.succ], lambda k: k is g.exit, stop=anew)
                    ctx.ob("gone", "%s left in %s" % (fld[2], f.short), a is None or b is None, n.loc, "still refers to the buffer after it was given back")


# ---- sizes

def size(ctx, p, S):
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.id not in S.near or f.cls == "MemoryManager" and f.short in ALLOCS + FREES:
            continue
        g = S.graph(f)
        for n in g:
            if n.k not in ("call", "ctor") or n.ev["e"][0] not in ("c", "k"):
                continue
            al = n.ev["e"][3]
            b = z = None
            for a in al:
                for o in [strip_cast(a)] + list(origins(g, a)):
                    for s in walk(o):
                        if s[0] == "c" and kind_of_call(p, S, s):
                            b = b or kind_of_call(p, S, s)
                q = pool_of_size(g, a)
                if q is not None:
                    z = q
            if b and z:
                ctx.analysed(f.short)
                ctx.ob("size", "%s in %s" % (short(n.ev["e"][1] if n.ev["e"][0] == "c" else n.ev["e"][2] or n.ev["e"][1]), f.short), b == {z} or b == {"large"}, n.loc,
                       "a buffer of the %s pool is used with the size of the %s one" % ("/".join(sorted(b)), z))
    # containers of buffers: the size used with them
    for fld in sorted(S.owners):
        cls = fld.rsplit("::", 1)[0]
        ks = set()
        for f in S.cand:
            g = S.graph(f)
            for n in g:
                if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "m" and strip_cast(n.ev["e"][2])[2] == fld:
                    for a in n.ev["e"][3]:
                        for o in [strip_cast(a)] + list(origins(g, a)):
                            if o[0] == "c":
                                ks |= kind_of_call(p, S, o)
                elif n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["lhs"])[2] == fld:
                    for o in [strip_cast(n.ev["rhs"])] + list(origins(g, n.ev["rhs"])):
                        for c in chain(o):
                            if c[0] == "c":
                                ks |= kind_of_call(p, S, c)
        if len(ks) != 1:
            continue
        for f in p.funcs.values():
            if f.cls != cls:
                continue
            for ev in f.events():
                for key in ("e", "rhs", "init"):
                    if isinstance(ev.get(key), tuple) and ev["k"] in ("decl", "asg", "cmp"):
                        for s in walk(ev[key]):
                            for k, x in POOLS.items():
                                if s[0] == "c" and short(s[1]) == x[3]:
                                    ctx.analysed(f.short)
                                    ctx.ob("size", "%s in %s" % (fld, f.short), {k} == ks or ks == {"large"}, "%s:%s" % (f.file, ev["l"]),
                                           "a buffer of the %s pool is used with the size of the %s one" % ("/".join(ks), k))


# ---- request and response

def response(ctx, p, S):
    buf = "TcpConnection::buff"
    rec = ("HttpResponse::recycle",)
    for f in sorted(S.cand, key=lambda f: f.id):
        g = None
        if not any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "HttpServer::send_response" for ev in f.events()):
            continue
        g = AGraph(p, f, inline=lambda fn, e, d: fn.cls == f.cls and fn.file == f.file and not fn.short.endswith(("send_response", "parse_header", "process_request", "undo_header", "recv_http_data_cont", "collect_self_stats")))
        fr = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) in FREES]
        if not fr:
            continue
        ctx.analysed(f.short)
        done = lambda m: is_call(m, *rec) or m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).split("::")[-1] == "recycle"
        unsent = lambda src, l: any(any(s[0] == "c" and short(s[1]) == "HttpServer::send_response" for o in [strip_cast(e)] + list(origins(g, e)) for s in walk(o)) and not t for e, t in truths(l))
        for n in fr:
            a = paths(g).search([g.nodes[s] for s, l in n.succ], lambda k: k is g.exit, stop=done, stop_edge=unsent)
            b = paths(g).search([m for m in g if is_call(m, "HttpServer::send_response")], lambda k: k is n, stop=done, stop_edge=unsent)
            ctx.ob("response", f.short, a is None or b is None, n.loc, "the buffer of the response stays with the connection after the request was answered")
