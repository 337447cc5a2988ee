"""Descriptors, streams and directory handles are closed, once, and not used afterwards."""
from common import *
from p12 import chain, lineage, params
import common

ASSUMPTIONS = [
    "handles lost while an exception unwinds are out of scope",
    "a stream made from a descriptor takes the descriptor over, also when making it fails",
    "memory mappings are not counted as handles",
]

OPEN = ("open", "open64", "creat", "openat", "socket", "accept", "accept4", "epoll_create", "epoll_create1", "eventfd", "timerfd_create",
        "fopen", "fopen64", "fdopen", "freopen", "opendir", "fdopendir", "dup", "popen", "tmpfile")
CLOSE = ("close", "fclose", "closedir", "pclose")
OVER = ("fdopen", "fdopendir")          # the handle made takes the argument over
DUPFD = (0, 1030)
SETUP = ("init", "start")


def check(ctx):
    p = ctx.prog
    ctx.rule("released", "a handle opened is closed, kept or passed on, on every path", 10)
    ctx.rule("gone", "a handle is not used, nor closed again, after it was closed", 12)
    ctx.rule("left", "a member whose handle was closed no longer names it", 8)
    ctx.rule("owner", "a handle kept in a member is closed with its owner", 8)
    ctx.rule("overwritten", "a member naming an open handle is not set to another one", 6)
    ctx.rule("duplicate", "of a descriptor and its duplicate only the one handed back stays open", 1)
    ctx.rule("connection", "a connection given back had its descriptor closed", 1)
    H = Handles(p)
    released(ctx, p, H)
    gone(ctx, p, H)
    owner(ctx, p, H)
    overwritten(ctx, p, H)
    forgotten(ctx, p, H)
    duplicate(ctx, p, H)
    connection(ctx, p, H)


def ext(e):
    """name of the library function called"""
    if e[0] != "c" or e[2] is not None:
        return None
    return e[1].split("(")[0].split("::")[-1]


def handle_type(t):
    t = t.replace("const", "").replace("&", "").replace("*const", "*").strip()
    return t in ("int", "_IO_FILE *", "__dirstream *", "FILE *", "DIR *")


class Handles:
    def __init__(self, p):
        self.p = p
        self.gs = {}
        self.fresh = set()      # functions returning a handle they opened
        self.frees = {}         # fid -> indices of parameters closed (on some path)
        self.keeps = {}         # fid -> indices of parameters closed, stored or passed on
        base = set()
        for f in p.funcs.values():
            for ev in f.events():
                if ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][1] not in p.funcs and ext(ev["e"]) in OPEN + CLOSE + ("fcntl", "pipe", "pipe2"):
                    base.add(f.id)
                    break
        callees, callers = p.callgraph()
        near = set(base)
        for i in range(3):
            for x in list(near):
                f = p.funcs[x]
                if handle_type(f.ret) or any(handle_type(t) for n, t in params(f)):
                    near |= {c for c in callers.get(x, ()) if c in p.funcs}
        # functions a descriptor is handed to
        for x in list(near):
            for c in callees.get(x, ()):
                f = p.funcs.get(c)
                if f is not None and not f.file.startswith("src/utils/logger") and any(handle_type(t) for n, t in params(f)):
                    near.add(c)
        self.cand = [p.funcs[x] for x in sorted(near)]
        change = True
        while change:
            change = False
            for f in self.cand:
                change |= self.update(f)

    def graph(self, f):
        if f.id not in self.gs:
            self.gs[f.id] = Graph(self.p, f)
        return self.gs[f.id]

    def targets(self, e):
        if e[0] != "c":
            return []
        if e[4]:
            return [t if isinstance(t, str) else t.id for t in self.p.targets(e)]
        return [e[1]] if e[1] in self.p.funcs else []

    def makes(self, e):
        e = strip_cast(e)
        if e[0] == "?":
            return self.makes(e[2]) or self.makes(e[3])
        if e[0] == "b" and e[1] == "=":
            return self.makes(e[3])
        if e[0] != "c":
            return False
        if e[1] not in self.p.funcs:
            if ext(e) == "fcntl":
                return len(e[3]) > 1 and const_of(e[3][1]) in DUPFD
            return ext(e) in OPEN
        return any(t in self.fresh for t in self.targets(e))

    def closing(self, e):
        """indices of the arguments the call closes"""
        if e[0] != "c":
            return set()
        if e[1] not in self.p.funcs and ext(e) in CLOSE:
            return {0}
        out = set()
        for t in self.targets(e):
            out |= self.frees.get(t, set())
        return out

    def taking(self, e):
        """indices of the arguments the call takes over"""
        if e[0] != "c":
            return set()
        if e[1] not in self.p.funcs:
            return {0} if ext(e) in CLOSE + OVER else set()
        out = set()
        for t in self.targets(e):
            out |= self.keeps.get(t, set())
        return out

    def by_ref(self, e, j):
        for t in self.targets(e):
            ps = params(self.p.funcs[t])
            if j < len(ps) and ps[j][1].strip().endswith("&"):
                return True
        return False

    def names(self, g, i):
        """local variables that stand for the same handle"""
        out, todo = {i}, [i]
        while todo:
            x = todo.pop()
            for n in g:
                e = n.ev.get("init") if n.k == "decl" else n.ev.get("rhs") if n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["lhs"][3] == "l" and n.ev["op"] == "=" else None
                if e is None:
                    continue
                if any(s[0] == "v" and s[2] == x for s in chain(e)):
                    j = n.ev["id"] if n.k == "decl" else n.ev["lhs"][2]
                    if j not in out:
                        out.add(j)
                        todo.append(j)
        return out

    def texts(self, g, vs):
        """buffers the number of the descriptor is written into"""
        out = set()
        for n in g:
            if n.k == "call" and n.ev["e"][0] == "c" and ext(n.ev["e"]) in ("snprintf", "sprintf") and n.ev["e"][3]:
                a = strip_cast(n.ev["e"][3][0])
                if a[0] == "v" and any(s[0] == "v" and s[2] in vs for x in n.ev["e"][3][1:] for s in walk(x)):
                    out.add(a[2])
            if n.k == "decl" and n.ev["init"] is not None and n.ev["id"] not in vs:
                e = n.ev["init"]
                if "basic_string" in n.ev["t"] and any(s[0] == "v" and s[2] in vs for s in walk(e)):
                    out.add(n.ev["id"])
        return out

    def consumed(self, g, n, vs):
        """does node n close, store, return or pass on the handle named by one of the variables?"""
        is_v = lambda e: any(s[0] == "v" and s[2] in vs for s in chain(e))
        if n.k == "ret":
            return n.ev.get("e") is not None and is_v(n.ev["e"])
        if n.k == "asg" and n.ev["op"] == "=":
            l = strip_cast(n.ev["lhs"])
            if is_v(n.ev["rhs"]):
                return not (l[0] == "v" and l[3] != "g")
            return False
        if n.k == "init":
            return n.ev.get("e") is not None and is_v(n.ev["e"])
        if n.k in ("ctor", "new"):
            return any(s[0] == "v" and s[2] in vs for s in walk(n.ev["e"]))
        if n.k == "call" and n.ev["e"][0] in ("c", "ci"):
            e = n.ev["e"]
            if e[0] == "ci":
                return any(is_v(a) for a in e[2])
            if e[1].startswith("Logger::"):
                return False
            for j in self.taking(e):
                if j < len(e[3]) and is_v(e[3][j]):
                    return True
            if e[1] not in self.p.funcs and e[2] is not None and e[1].startswith("std::") and e[1].split("(")[0].split("::")[-1] in ("push_back", "insert", "emplace", "emplace_back", "store"):
                return any(s[0] == "v" and s[2] in vs for a in e[3] for s in walk(a))
            if e[1] in self.p.funcs:        # the number written out for somebody else
                ts = self.texts(g, vs)
                return any(s[0] == "v" and s[2] in ts for a in e[3] for s in walk(a))
        return False

    def param_ids(self, g):
        ids = {}
        for n in g:
            for e in event_exprs(n):
                for s in walk(e):
                    if s[0] == "v" and s[3] == "p":
                        ids[s[1]] = s[2]
            for s, l in n.succ:
                if l and len(l) > 1 and isinstance(l[1], tuple):
                    for x in walk(l[1]):
                        if x[0] == "v" and x[3] == "p":
                            ids[x[1]] = x[2]
        return ids

    def update(self, f):
        g = self.graph(f)
        ch = False
        ids = self.param_ids(g)
        for k, (nm, t) in enumerate(params(f)):
            if nm not in ids or not handle_type(t):
                continue
            vs = self.names(g, ids[nm])
            for n in g:
                if n.k != "ret" and k not in self.keeps.get(f.id, ()) and self.consumed(g, n, vs):
                    self.keeps.setdefault(f.id, set()).add(k)
                    ch = True
                if n.k == "call" and n.ev["e"][0] == "c" and k not in self.frees.get(f.id, ()):
                    for j in self.closing(n.ev["e"]):
                        if j < len(n.ev["e"][3]) and any(s[0] == "v" and s[2] in vs for s in chain(n.ev["e"][3][j])):
                            self.frees.setdefault(f.id, set()).add(k)
                            ch = True
        if f.id not in self.fresh and handle_type(f.ret):
            for n in returns(g):
                if n.ev.get("e") is not None and (self.makes(n.ev["e"]) or any(self.is_new(g, s) for s in chain(n.ev["e"]))):
                    self.fresh.add(f.id)
                    ch = True
                    break
        return ch

    def is_new(self, g, e):
        """an opened handle, or a local variable holding one"""
        if self.makes(e):
            return True
        e = strip_cast(e)
        if e[0] == "v" and e[3] == "l":
            return any(self.makes(o) for o in origins(g, e))
        return False

    def born(self, g):
        for n in g:
            if n.k == "decl" and n.ev["init"] is not None and self.makes(n.ev["init"]):
                yield n, n.ev["id"], n.ev["n"]
            elif n.k == "asg" and n.ev["op"] == "=" and n.ev["lhs"][0] == "v" and n.ev["lhs"][3] == "l" and self.makes(n.ev["rhs"]):
                yield n, n.ev["lhs"][2], n.ev["lhs"][1]


def absent(label, same):
    """does the edge say that the handle (same(e): is e it?) is not an open one?"""
    for e, t in truths(label):
        e = strip_cast(e)
        if e[0] == "b" and e[1] in ("==", "!=", "<", "<=", ">", ">="):
            op, l, r = e[1], strip_cast(e[2]), strip_cast(e[3])
            if same(r) and not same(l):
                l, r = r, l
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            if l[0] == "b" and l[1] == "=" and same(l[2]):
                l = strip_cast(l[2])
            if not same(l):
                continue
            c = 0 if r[0] == "n" else const_of(r)
            if c is None and r[0] == "u" and r[1] == "-" and const_of(r[2]) is not None:
                c = -const_of(r[2])
            if c is None:
                continue
            null = r[0] == "n"
            if op == "==" and t and (c < 0 or null) or op == "!=" and not t and (c < 0 or null):
                return True
            if op == "<" and t and c <= 0 or op == "<=" and t and c <= 0 or op == ">=" and not t and c <= 0 or op == ">" and not t and c <= 0:
                return True
            if c == 0 and (op == "==" and t or op == "!=" and not t):
                return True
        elif same(e) and not t:
            return True
    return False


def same_as(label, v):
    """does the edge say that the variable equals another one?"""
    for e, t in truths(label):
        e = strip_cast(e)
        if e[0] == "b" and (e[1] == "==" and t or e[1] == "!=" and not t):
            l, r = strip_cast(e[2]), strip_cast(e[3])
            if any(x[0] == "v" and x[2] == v for x in (l, r)) and all(x[0] == "v" and x[3] != "g" for x in (l, r)):
                return True
    return False


# ---- local handles

def released(ctx, p, H):
    for f in H.cand:
        g = H.graph(f)
        for n, v, nm in H.born(g):
            vs = H.names(g, v)
            ctx.analysed(f.short)
            same = lambda e: e[0] == "v" and e[2] in vs
            anew = lambda m: m is not n and (m.k == "decl" and m.ev["id"] == v or m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == v and m.ev["op"] == "=")
            first = [g.nodes[s] for s, l in n.succ if not absent(l, same)]
            r = paths(g).search(first, lambda m: m is g.exit or anew(m) or m is n, stop=lambda m: H.consumed(g, m, vs), stop_edge=lambda s, l: absent(l, same) or same_as(l, v))
            ctx.ob("released", "%s in %s" % (nm, f.short), r is None, n.loc, "can be left open (reaches line %s)" % (r[-1].line if r and r[-1].line else "the end") if r else "")


def duplicate(ctx, p, H):
    """functions that hand back either the descriptor they were given or a duplicate of it"""
    for f in H.cand:
        if f.id not in H.fresh or not H.frees.get(f.id):
            continue
        g = H.graph(f)
        ids = H.param_ids(g)
        for k in H.frees[f.id]:
            nm = params(f)[k][0]
            v = ids[nm]
            vs = H.names(g, v)
            dups = any(n.k == "call" and n.ev["e"][0] == "c" and ext(n.ev["e"]) in ("fcntl", "dup", "dup2", "dup3") for n in g)
            ctx.analysed(f.short)
            same = lambda e: e[0] == "v" and e[2] == v
            done = lambda m: H.consumed(g, m, vs if not dups else {v})
            r = paths(g).search([g.entry], lambda m: m is g.exit, stop=done, stop_edge=lambda s, l: absent(l, same) or same_as(l, v))
            ctx.ob("duplicate", "%s in %s" % (nm, f.short), r is None, "%s:%s" % (f.file, f.line),
                   "the descriptor handed in is neither handed back nor closed" if r else "")


# ---- after closing

def key(e):
    """what a member, global or element of a member is called"""
    e = strip_cast(e)
    if e[0] == "v" and e[3] == "g":
        return ("g", e[1])
    if e[0] == "m" and strip_cast(e[1])[0] == "t":
        return ("f", e[2])
    if e[0] == "x":
        b = key(e[1])
        if b is not None:
            i = strip_cast(e[2])
            return ("e", b[1], i[1] if i[0] == "i" else "*")
    return None


def named(k):
    return k[1] + ("" if k[0] != "e" else "[%s]" % k[2])


def is_key(k):
    def same(e):
        x = key(e)
        return x == k or x is not None and k[0] == "e" and x[0] == "e" and x[1] == k[1] and "*" in (x[2], k[2])
    return same


def closes(H, g, n):
    """members closed at the node: (key, argument number)"""
    if n.k != "call" or n.ev["e"][0] != "c":
        return
    e = n.ev["e"]
    for j in H.closing(e):
        if j < len(e[3]):
            seen = set()
            for o in [strip_cast(e[3][j])] + list(origins(g, e[3][j])):
                k = key(o)
                if k is not None and k not in seen:
                    seen.add(k)
                    yield k, j


def uses(n, same, skip=None):
    """does the node hand the handle to a function?"""
    def find(e):
        if not isinstance(e, tuple):
            return False
        if skip is not None and e and e[0] == "c" and e[-1] == skip:
            return False
        if e and e[0] == "c":
            if e[1].startswith("Logger::") or ext(e) in ("fprintf", "printf", "snprintf") and not (e[3] and same(strip_cast(e[3][0]))):
                return False
            if any(same(strip_cast(a)) for a in e[3]):
                return True
        return any(find(x) for x in e if isinstance(x, tuple))
    if n.k == "ret" and n.ev.get("e") is not None and any(same(x) for x in chain(n.ev["e"])):
        return True
    return any(find(e) for e in event_exprs(n))


def gone(ctx, p, H):
    for f in H.cand:
        g = H.graph(f)
        for n in g:
            if n.k != "call" or n.ev["e"][0] != "c":
                continue
            e = n.ev["e"]
            first = [g.nodes[s] for s, l in n.succ]
            for j in H.closing(e):
                if j >= len(e[3]):
                    continue
                x = strip_cast(e[3][j])
                if x[0] == "v" and x[3] != "g":
                    ctx.analysed(f.short)
                    same = lambda y: y[0] == "v" and y[2] == x[2]
                    sets = lambda m: m.k == "decl" and m.ev["id"] == x[2] or m.k == "asg" and m.ev["op"] == "=" and same(strip_cast(m.ev["lhs"]))
                    if H.by_ref(e, j):
                        continue
                    r = paths(g).search(first, lambda m: uses(m, same, e[-1]), stop=lambda m: sets(m) and not uses(m, same, e[-1]))
                    ctx.ob("gone", "%s in %s" % (x[1], f.short), r is None, r[-1].loc if r else n.loc, "used after it was closed at line %s" % n.line)
            for k, j in closes(H, g, n):
                if H.by_ref(e, j):
                    continue
                ctx.analysed(f.short)
                same = is_key(k)
                sets = lambda m: m.k == "asg" and m.ev["op"] == "=" and same(strip_cast(m.ev["lhs"]))
                r = paths(g).search(first, lambda m: uses(m, same, e[-1]), stop=sets)
                ctx.ob("gone", "%s in %s" % (named(k), f.short), r is None, r[-1].loc if r else n.loc, "used after it was closed at line %s" % n.line)
                if f.short.endswith("<dtor>") or private(p, H, k):
                    continue
                x = strip_cast(e[3][j])
                if x[0] == "v" and x[3] == "l":         # by way of a local variable
                    from_here = [m for m in g if (m.k == "decl" and m.ev["id"] == x[2] or m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == x[2])]
                    r = paths(g).search(from_here, lambda m: m is g.exit, stop=sets, via=lambda m: m is n)
                else:
                    r = paths(g).search(first, lambda m: m is g.exit, stop=sets)
                ctx.ob("left", "%s in %s" % (named(k), f.short), r is None, n.loc, "still names the handle closed here")
            # a descriptor taken over by a stream
            if ext(e) in OVER and e[1] not in p.funcs and e[3]:
                x = strip_cast(e[3][0])
                same = (lambda y: y[0] == "v" and y[2] == x[2]) if x[0] == "v" and x[3] != "g" else is_key(key(x)) if key(x) else None
                if same is None:
                    continue
                made = None
                for m in g:
                    v = m.ev.get("init") if m.k == "decl" else m.ev.get("rhs") if m.k == "asg" else None
                    if v is not None and any(s[0] == "c" and s[-1] == e[-1] for s in chain(v)):
                        made = ("v", m.ev["id"]) if m.k == "decl" else strip_cast(m.ev["lhs"])
                def is_made(y):
                    if made is None:
                        return False
                    if made[0] == "v" and len(made) == 2:
                        return y[0] == "v" and y[2] == made[1]
                    return y[:3] == made[:3]
                shut = lambda m: m.k == "call" and m.ev["e"][0] == "c" and ext(m.ev["e"]) == "close" and m.ev["e"][3] and same(strip_cast(m.ev["e"][3][0]))
                sets = lambda m: m.k == "decl" and x[0] == "v" and m.ev["id"] == x[2] or m.k == "asg" and m.ev["op"] == "=" and same(strip_cast(m.ev["lhs"]))
                r = paths(g).search(first, shut, stop=sets, stop_edge=lambda s, l: absent(l, is_made))
                ctx.ob("gone", "descriptor of a stream in %s" % f.short, r is None, r[-1].loc if r else n.loc, "closed while the stream made at line %s holds it" % n.line)


def private(p, H, k):
    """is the member used only by functions that open it themselves first?"""
    if k[0] != "f":
        return False
    for f in p.funcs.values():
        if f.short.endswith(("<ctor>", "<dtor>")):
            continue
        if not any(ev["k"] == "acc" and ev["e"][0] == "m" and ev["e"][2] == k[1] for ev in f.events()):
            continue
        g = H.graph(f)
        same = is_key(k)
        made = lambda m: m.k == "asg" and same(strip_cast(m.ev["lhs"])) and H.is_new(g, m.ev["rhs"])
        read = lambda m: m.k == "acc" and "r" in m.ev["rw"] and m.ev["e"][0] == "m" and m.ev["e"][2] == k[1]
        if paths(g).search([g.entry], read, stop=made) is not None:
            return False
    return True


# ---- members

def kept(p, H):
    """(key, function, node) where a handle just opened is put in a member or global"""
    for f in H.cand:
        g = H.graph(f)
        for n in g:
            if n.k == "asg" and n.ev["op"] == "=" and key(n.ev["lhs"]) is not None and H.is_new(g, n.ev["rhs"]):
                yield key(n.ev["lhs"]), f, n
            elif n.k == "call" and n.ev["e"][0] == "c" and ext(n.ev["e"]) in ("pipe", "pipe2") and n.ev["e"][1] not in p.funcs and n.ev["e"][3]:
                k = key(n.ev["e"][3][0])
                if k is not None:
                    yield ("e", k[1], 0), f, n
                    yield ("e", k[1], 1), f, n


def closers(p, H, k):
    """functions that close the member on every path on which it is open"""
    out = set()
    same = is_key(k)
    cls = k[1].rsplit("::", 1)[0] if k[0] != "g" else None
    some = {f.id for f in H.cand if any(x == k or same_key(x, k) for n in H.graph(f) for x, j in closes(H, H.graph(f), n))}
    # taken over by a stream kept in another member
    up = callers_up(p, some)
    cand = [p.funcs[x] for x in up if x in p.funcs]
    change = True
    while change:
        change = False
        for f in cand:
            if f.id in out:
                continue
            g = H.graph(f)
            def done(m):
                if any(same_key(x, k) for x, j in closes(H, g, m)):
                    return True
                if m.k == "call" and m.ev["e"][0] == "c":
                    e = m.ev["e"]
                    ts = [e[1]] if e[1] in p.funcs else []
                    return any(t in out for t in ts) or bool(e[4]) and e[2] is not None and strip_cast(e[2])[0] == "t" and own(p, f, e) in out
                return False
            if any(done(m) for m in g):
                if k[0] == "e" and k[2] == "*" or paths(g).search([g.entry], lambda m: m is g.exit, stop=done, stop_edge=lambda s, l: absent(l, same)) is None:
                    out.add(f.id)
                    change = True
    return out


def own(p, f, e):
    """the function a virtual call on the object itself reaches in a destructor"""
    nm = p.funcs[e[1]].name.split("(")[0].split("::")[-1] if e[1] in p.funcs else None
    for c in lineage(p, f.cls or ""):
        for h in p.all("%s::%s" % (c, nm)) if nm else ():
            if len(h.params) == len(e[3]):
                return h.id
    return None


def same_key(a, b):
    return a == b or a[0] == "e" and b[0] == "e" and a[1] == b[1] and "*" in (a[2], b[2])


def owner(ctx, p, H):
    callees, callers = p.callgraph()
    seen = {}
    for k, f, n in kept(p, H):
        seen.setdefault(k, []).append((f, n))
    for k, sites in sorted(seen.items(), key=str):
        f, n = sites[0]
        same = is_key(k)
        # taken over by a stream
        if all(taken(p, H, f, n, same) for f, n in sites):
            continue
        # opened and closed in one function
        if all(inside(p, H, f, n, k) for f, n in sites):
            ctx.analysed(f.short)
            ctx.ob("owner", named(k), True, n.loc, "")
            continue
        C = closers(p, H, k)
        cls = k[1].rsplit("::", 1)[0]
        dtors = [h for h in p.funcs.values() if h.short.endswith("<dtor>") and h.cls == cls]
        for h in dtors:
            ctx.analysed(h.short)
        if dtors:
            ok = any(h.id in C for h in dtors)
            why = "not closed when the object is destroyed"
        else:
            ok = any(callers.get(x) for x in C)
            why = "never closed"
        ctx.ob("owner", named(k), ok, n.loc, why)


def taken(p, H, f, n, same):
    g = H.graph(f)
    over = lambda m: m.k == "call" and m.ev["e"][0] == "c" and ext(m.ev["e"]) in OVER and m.ev["e"][3] and same(strip_cast(m.ev["e"][3][0]))
    closing = lambda m: m.k == "call" and m.ev["e"][0] == "c" and any(j < len(m.ev["e"][3]) and same(strip_cast(m.ev["e"][3][j])) for j in H.closing(m.ev["e"]))
    return paths(g).search([g.nodes[s] for s, l in n.succ], lambda m: m is g.exit, stop=lambda m: over(m) or closing(m), stop_edge=lambda s, l: absent(l, same)) is None


def streamed(H, f, same):
    """the function makes a stream of what the member names"""
    return any(m.k == "call" and m.ev["e"][0] == "c" and ext(m.ev["e"]) in OVER and m.ev["e"][3] and same(strip_cast(m.ev["e"][3][0])) for m in H.graph(f))


def inside(p, H, f, n, k):
    g = H.graph(f)
    same = is_key(k)
    shut = lambda m: any(same_key(x, k) for x, j in closes(H, g, m))
    return paths(g).search([g.nodes[s] for s, l in n.succ], lambda m: m is g.exit, stop=shut, stop_edge=lambda s, l: absent(l, same)) is None


# ---- not overwritten

def overwritten(ctx, p, H):
    callees, callers = p.callgraph()
    for k, f, n in kept(p, H):
        if k[0] == "e" and n.k == "call":
            continue
        if inside(p, H, f, n, k) and private(p, H, k) or streamed(H, f, is_key(k)):
            continue
        C = closers(p, H, k)
        ctx.analysed(f.short)
        bad = unsafe(p, H, f, n, k, C, 3, set())
        ctx.ob("overwritten", "%s in %s" % (named(k), f.short), bad is None, n.loc, "the handle it names may still be open%s" % (" (called from %s)" % bad if bad and bad != f.short else ""))


def forgotten(ctx, p, H):
    ks = {}
    for k, f, n in kept(p, H):
        if not streamed(H, f, is_key(k)):
            ks[k] = ks.get(k, ()) + (f.id,)
    for k in sorted(ks, key=str):
        same = is_key(k)
        C = closers(p, H, k)
        for f in H.cand:
            if f.short.endswith("<ctor>") or f.short.split("::")[-1] in SETUP:
                continue
            g = H.graph(f)
            for n in g:
                if not (n.k == "asg" and n.ev["op"] == "=" and same(strip_cast(n.ev["lhs"])) and absent_value(n.ev["rhs"])):
                    continue
                ctx.analysed(f.short)
                def shut(m):
                    if any(same_key(x, k) for x, j in closes(H, g, m)):
                        return True
                    if m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1] in C:
                        return True
                    v = m.ev.get("init") if m.k == "decl" else m.ev.get("rhs") if m.k == "asg" and m.ev["lhs"][0] == "v" else None
                    return v is not None and any(same(x) for x in chain(v))
                r = paths(g).search([g.entry], lambda m: m is n, stop=shut, stop_edge=lambda s, l: absent(l, same))
                ctx.ob("overwritten", "%s forgotten in %s" % (named(k), f.short), r is None, n.loc, "the handle it names may still be open")


def unsafe(p, H, f, n, k, C, depth, seen):
    """name of a function from which the node can be reached with the member still open"""
    callees, callers = p.callgraph()
    g = H.graph(f)
    same = is_key(k)
    def shut(m):
        if m is n:
            return False
        if any(same_key(x, k) for x, j in closes(H, g, m)):
            return True
        if m.k == "call" and m.ev["e"][0] == "c" and (m.ev["e"][1] in C or taker(m)):
            return True
        if m.k == "new" and k[0] == "f" and m.ev["e"][1] == k[1].rsplit("::", 1)[0]:      # another object
            return True
        return m.k == "asg" and m.ev["op"] == "=" and same(strip_cast(m.ev["lhs"])) and absent_value(m.ev["rhs"])
    def taker(m):           # handed to a function that closes it, or makes a stream of it
        e = m.ev["e"]
        return any(j < len(e[3]) and same(strip_cast(e[3][j])) for j in H.taking(e))
    def no(s, l):
        if absent(l, same):
            return True
        for e, t in truths(l):
            e = strip_cast(e)
            if e[0] == "c" and short(e[1]).split("::")[-1].startswith("is_open") and not t:
                return True
        return False
    if f.short.endswith("<ctor>"):
        return None
    r = paths(g).search([g.entry], lambda m: m is n, stop=shut, stop_edge=no)
    if r is None or split(g, n, shut, no):
        return None
    if f.short.split("::")[-1] in SETUP or f.short.endswith("<ctor>"):
        return None
    if depth == 0 or f.id in seen:
        return None if f.id in seen else f.short
    cs = [c for c in callers.get(f.id, ()) if c in p.funcs]
    if not cs:
        return f.short
    for c in cs:
        h = p.funcs[c]
        gh = H.graph(h)
        for m in gh:
            if m.k == "call" and m.ev["e"][0] == "c" and (m.ev["e"][1] == f.id or m.ev["e"][4] and f.id in H.targets(m.ev["e"])):
                b = unsafe(p, H, h, m, k, C, depth - 1, seen | {f.id})
                if b is not None:
                    return b
    return None


def split(g, n, shut, no):
    """is there no way to the node whether some other member is null, or not?"""
    tests = {strip_cast(x) for m in g for s, l in m.succ for e, t in truths(l) if strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("==", "!=")
             for x in strip_cast(e)[2:4] if strip_cast(x)[0] == "m" and strip_cast(strip_cast(x)[1])[0] == "t" and null_test(e, t) != null_test(e, not t)}
    for x in tests:
        def against(v):
            return lambda s, l: no(s, l) or any(x in [strip_cast(y) for y in strip_cast(e)[2:4] if isinstance(y, tuple)] and null_test(e, t) != v
                                                for e, t in truths(l) if strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("==", "!="))
        if all(paths(g).search([g.entry], lambda m: m is n, stop=shut, stop_edge=against(v)) is None for v in (True, False)):
            return True
    return False


def absent_value(e):
    e = strip_cast(e)
    if e[0] == "n":
        return True
    c = const_of(e)
    if e[0] == "u" and e[1] == "-":
        c = -1
    return c is not None and c <= 0


# ---- connections

CONN = ("TcpConnection", "HttpConnection")


def connection(ctx, p, H):
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if not any(ev["k"] == "call" and gives(p, ev["e"]) for ev in f.events()):
            continue
        if f.cls == "MemoryManager":
            continue
        ctx.analysed(f.short)
        ok, at = False, None
        for g in contexts(p, f):
            shut = lambda m: m.k == "call" and m.ev["e"][0] == "c" and any(j < len(m.ev["e"][3]) for j in H.closing(m.ev["e"]))
            for n in g:
                if n.k == "call" and n.func.id == f.id and gives(p, n.ev["e"]):
                    at = n
                    if unused(p, f, n):
                        ok = True
                        continue
                    r = paths(g).search([g.entry], lambda m: m is g.exit, stop=shut, via=lambda m: m is n)
                    ok = r is None
                    if not ok:
                        break
            if not ok:
                break
        if at is not None:
            ctx.ob("connection", "given back in %s" % f.short, ok, at.loc, "its descriptor can be left open")


def gives(p, e):
    if e[0] != "c" or short(e[1]) != "MemoryManager::free_recyclable" or not e[3]:
        return False
    a = strip_cast(e[3][0])
    t = a[4] if a[0] == "v" else a[3] if a[0] == "m" else ""
    return t.replace("*", "").replace("const", "").strip() in CONN


def unused(p, f, at):
    """the connection given back was only just created, and never became the one of its descriptor"""
    g = Graph(p, f)
    n = [m for m in g if m.k == "call" and gives(p, m.ev["e"]) and m.line == at.line][0]
    a = strip_cast(n.ev["e"][3][0])
    if a[0] != "v":
        return False
    sets = lambda m: m.k == "decl" and m.ev["id"] == a[2] or m.k == "asg" and m.ev["op"] == "=" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == a[2]
    ds = [m for m in g if sets(m) and paths(g).search([g.nodes[s] for s, l in m.succ], lambda x: x is n, stop=sets) is not None]
    vs = [strip_cast(m.ev.get("init") if m.k == "decl" else m.ev["rhs"]) for m in ds if (m.ev.get("init") if m.k == "decl" else m.ev["rhs"]) is not None]
    return bool(vs) and all(v[0] == "c" and v[1] in p.funcs and p.funcs[v[1]].ret.replace("*", "").strip() in CONN for v in vs)


def contexts(p, f):
    """the function itself, or, if it is only a part split off, the functions it belongs to"""
    callees, callers = p.callgraph()
    g = Graph(p, f, inline=inliner(only=near_callees(p, f)))
    if any(n.k == "call" and n.ev["e"][0] == "c" and ext(n.ev["e"]) in CLOSE for n in g):
        return [g]
    cs = [p.funcs[c] for c in callers.get(f.id, ()) if c in p.funcs]
    return [Graph(p, c, inline=inliner(only={f.id} | set(near_callees(p, c)))) for c in cs] or [g]
