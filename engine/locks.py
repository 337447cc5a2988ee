"""Whole-program lockset analysis.

Locks are identified by the field (or static variable) that holds them plus a
canonical base object.  Guards are std::lock_guard/unique_lock, the
PThread_* guards of the repository, direct lock()/unlock() and
pthread_rwlock_* calls.  Entry locksets are the meet over all call sites that
can run while other threads exist."""
import re
from ir import *
from flow import *

RAII_X = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")


STARTUP_CALLBACKS = {"Tsdb::restore_ts", "Tsdb::restore_metrics", "Tsdb::restore_measurement", "Tsdb::restore_tsdb"}


# call sites left out of the entry-lockset meet, with the reason
IGNORED_CALLS = {
    # builds a private, unregistered partition (suffix given): never touches the shared list
    ("Tsdb::compact", "Tsdb::create"),
}


class Held(tuple):
    """(name, base, idx, mode, owner)"""
    __slots__ = ()


def H(name, base, idx, mode, owner):
    return (name, base, idx, mode, owner)


def lock_id(e):
    """canonical lock expression -> (name, base, idx)"""
    e = strip_cast(e)
    while e[0] == "u" and e[1] in ("&", "*"):
        e = e[2]
    if e[0] == "x":
        n, b, _ = lock_id(e[1])
        return n, b, e[2]
    if e[0] == "m":
        return e[2], e[1], None
    if e[0] == "v":
        if e[3] == "g":
            return e[1], None, None
        return "local:" + e[1], ("v", e[1], e[2], e[3]), None
    if e[0] == "c":
        return "ret:" + (e[1] if "(" not in e[1] else short(e[1])), e[2], None
    return "?", None, None


class FuncLocks:
    pass


def meet(a, b):
    """common entries; a lock held on different objects by the two callers is
    kept as held on some other object"""
    c = a & b
    # an object one of the callers holds privately needs no lock there
    for x, y in ((a, b), (b, a)):
        for h in x:
            if h[1] is not None and h[0] != "*private*" and any(q[0] == "*private*" and q[1][:3] == h[1][:3] for q in y):
                c = c | {h}
    have = set((h[0], h[3]) for h in c)
    na = set((h[0], h[3]) for h in a)
    nb = set((h[0], h[3]) for h in b)
    extra = set()
    for (name, mode) in (na & nb) - have:
        if name != "*private*":
            extra.add((name, ("other",), None, mode, ("caller",)))
    return c | extra


class Locks:
    def __init__(self, prog, skip_file=lambda f: f.startswith("include/tsl")):
        self.prog = prog
        self.canon = Canon(prog)
        self.skip = skip_file
        self.fl = {}
        self.roots()
        for f in prog.funcs.values():
            if not self.skip(f.file):
                self.intra(f)
        self.entry_sets()

    # ---- thread roots --------------------------------------------------
    def roots(self):
        p = self.prog
        ce, cr = p.callgraph()
        self.main = [f for f in p.funcs.values() if f.id.startswith("main(") or f.short == "main"]
        # functions whose address is taken run on other threads / as tasks,
        # handlers or callbacks
        # ... except the callbacks handed to the start-up loaders, which run
        # before any other thread exists
        self.thread_roots = set(r for r in p.refs if short(r) not in STARTUP_CALLBACKS)
        # virtual methods called from nowhere visible (callbacks)
        self.concurrent = p.reachable(self.thread_roots)
        self.all_reach = p.reachable([f.id for f in self.main] + list(self.thread_roots))

    # ---- intraprocedural ---------------------------------------------
    def guard_kind(self, t):
        t = t.replace("const ", "").strip()
        if t.startswith(RAII_X):
            return "s" if t.startswith("std::shared_lock") else "x"
        if t == "PThread_ReadLock":
            return "r"
        if t == "PThread_WriteLock":
            return "x"
        if t == "PThread_Lock":
            return "manual"
        return None

    def intra(self, f):
        p = self.prog
        if f.cls in ("PThread_Lock", "PThread_ReadLock", "PThread_WriteLock"):
            return

        def inl(fn, e, d):
            # helpers that are handed a guard object
            return any("PThread_Lock" in q["t"] or "unique_lock" in q["t"] or "lock_guard" in q["t"] for q in fn.params)
        g = Graph(p, f, inline=inl, maxdepth=3)
        L = FuncLocks()
        L.f = f
        L.g = g
        has = False
        for n in g:
            if n.k == "decl" and self.guard_kind(n.ev["t"]):
                has = True
                break
            if n.k == "call" and n.ev["e"][0] == "c":
                s = short(n.ev["e"][1])
                if s.startswith("pthread_rwlock_") or s.startswith("pthread_mutex_") or s in ("std::mutex::lock", "std::mutex::unlock", "std::mutex::try_lock"):
                    has = True
                    break
        L.has = has
        # facts only when needed for alias resolution
        L.F = Facts(g) if has else None
        L.var = {}
        L.rawidx = {}
        L.acq = []      # (node, lockentry)
        L.problems = []
        if has:
            self.solve(L)
        else:
            L.IN = None
        self.fl[f.id] = L

    def c(self, L, n, e):
        env = L.F.at(n)[0] if L.F else {}
        return self.canon(e, env)

    def step(self, L, n, st, record=False):
        """transfer of one node; st is a frozenset of held entries"""
        k = n.k
        if k == "decl":
            gk = self.guard_kind(n.ev["t"])
            if gk and n.ev["init"] is not None:
                init = strip_cast(n.ev["init"])
                if n.ev["t"].strip().endswith("&"):
                    return st
                if init[0] == "k":
                    args = init[3]
                    if not args:
                        return st
                    le = self.c(L, n, args[0])
                    lid = lock_id(le)
                    owner = ("o", n.ev["n"], n.ev["id"])
                    L.var[owner] = lid
                    ra = strip_cast(args[0])
                    L.rawidx[owner] = ra[2] if ra[0] == "x" else None
                    if gk == "manual":
                        return st
                    if len(args) > 1 and "defer_lock" in repr(args[1]):
                        return st
                    h = H(lid[0], lid[1], lid[2], "r" if gk in ("r", "s") else "x", owner)
                    if record:
                        L.acq.append((n, h, st))
                    return st | {h}
            return st
        if k == "dtor":
            owner = ("o", n.ev["n"], n.ev["id"])
            if any(h[4] == owner for h in st):
                return frozenset(h for h in st if h[4] != owner)
            return st
        if k == "call" and n.ev["e"][0] == "c":
            e = n.ev["e"]
            s = short(e[1])
            if s in ("PThread_Lock::lock_for_read", "PThread_Lock::lock_for_write", "PThread_Lock::unlock",
                     "std::unique_lock::lock", "std::unique_lock::unlock"):
                b = strip_cast(e[2])
                owner = None
                # resolve references to the guard object
                cb = self.canon.lv(b, L.F.at(n)[0]) if L.F else b
                if cb[0] == "v":
                    owner = ("o", cb[1], cb[2])
                lid = L.var.get(owner, ("guard", cb, None))
                if s.endswith("unlock"):
                    held = [h for h in st if h[4] == owner]
                    if record and not held:
                        L.problems.append((n, "unlock of a guard that holds no lock here"))
                    return frozenset(h for h in st if h[4] != owner)
                mode = "r" if s.endswith("read") else "x"
                if record and any(h[4] == owner for h in st):
                    L.problems.append((n, "guard locks again while it already holds the lock"))
                h = H(lid[0], lid[1], lid[2], mode, owner)
                if record:
                    L.acq.append((n, h, st))
                return st | {h}
            if s in ("std::mutex::lock", "std::mutex::unlock") or s.startswith(("pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock")):
                le = e[2] if s.startswith("std::") else e[3][0]
                lid = lock_id(self.c(L, n, le))
                owner = ("m",) + lid
                if "unlock" in s:
                    held = [h for h in st if h[:3] == lid]
                    if record and not held:
                        L.problems.append((n, "unlock of a lock that is not held here"))
                    return frozenset(h for h in st if h[:3] != lid)
                mode = "r" if "rdlock" in s else "x"
                h = H(lid[0], lid[1], lid[2], mode, owner)
                if record:
                    L.acq.append((n, h, st))
                return st | {h}
        return st

    def solve(self, L):
        g = L.g
        order = g.rpo()
        pos = {x: i for i, x in enumerate(order)}
        import heapq
        # owners must be known before uses: decl nodes come first in rpo
        for must in (True, False):
            IN = {g.entry.id: frozenset()}
            work = [0]
            while work:
                x = order[heapq.heappop(work)]
                n = g.nodes[x]
                out = self.step(L, n, IN[x])
                for s, l in n.succ:
                    o = out
                    if l and l[0] in ("eh", "throw") and n.frame == g.nodes[s].frame:
                        # unwinding releases guards; keep what the handler's
                        # other predecessors agree on
                        pass
                    if s not in IN:
                        IN[s] = o
                    else:
                        m = IN[s] & o if must else IN[s] | o
                        if m == IN[s]:
                            continue
                        IN[s] = m
                    if pos[s] not in work:
                        heapq.heappush(work, pos[s])
            if must:
                L.IN = IN
            else:
                L.MAY = IN
        for x in order:
            self.step(L, g.nodes[x], L.IN[x], record=True)

    def must(self, L, n):
        if L.IN is None:
            return frozenset()
        return L.IN.get(n.id, frozenset())

    def may(self, L, n):
        if L.IN is None:
            return frozenset()
        return L.MAY.get(n.id, frozenset())

    # ---- interprocedural entry locksets ----------------------------------
    def entry_sets(self):
        p = self.prog
        ce, cr = p.callgraph()
        # call sites: callee -> list of (caller L, node)
        self.sites = {}
        for L in self.fl.values():
            for n in L.g:
                if n.frame != 0 and n.func.id != L.f.id:
                    pass
                if n.k in ("call", "ctor"):
                    for t in p.targets(n.ev["e"], n.func):
                        self.sites.setdefault(t, []).append((L, n, n.ev["e"]))
                elif n.k == "del":
                    for t in p.dtor_of(n.ev["e"][2]):
                        self.sites.setdefault(t, []).append((L, n, ("c", t, n.ev["e"][1], (), 0, 0)))
                elif n.k == "dtor":
                    for t in p.dtor_of(n.ev["t"]):
                        self.sites.setdefault(t, []).append((L, n, ("c", t, None, (), 0, 0)))
        TOP = None
        E = {}
        self.E = E
        M = {}
        for fid in self.fl:
            if fid in self.thread_roots or fid not in self.sites:
                E[fid] = frozenset()
            else:
                E[fid] = TOP
            M[fid] = frozenset()
        # lambdas run where they are passed or stored: assume nothing held
        changed = True
        rounds = 0
        while changed and rounds < 60:
            changed = False
            rounds += 1
            for fid, L in self.fl.items():
                if fid not in self.sites:
                    continue
                if fid in self.thread_roots:
                    new = frozenset()
                else:
                    new = TOP
                may = M[fid]
                for (CL, n, e) in self.sites[fid]:
                    cid = CL.f.id
                    if (CL.f.short, L.f.short) in IGNORED_CALLS:
                        continue
                    if cid not in self.fl:
                        continue
                    conc = cid in self.concurrent
                    if E[cid] is TOP and conc:
                        mm = None
                    else:
                        base = E[cid] or frozenset()
                        mm = self.translate(CL, n, e, fid, self.must(CL, n) | base)
                    if conc and mm is not None:
                        new = mm if new is TOP else meet(new, mm)
                    may = may | self.translate(CL, n, e, fid, self.may(CL, n) | M[cid])
                if new != E[fid]:
                    if E[fid] is not TOP and new is not TOP:
                        new = meet(new, E[fid])
                    if new != E[fid]:
                        E[fid] = new
                        changed = True
                if may != M[fid]:
                    M[fid] = may
                    changed = True
        self.E = {k: (v if v is not None else frozenset()) for k, v in E.items()}
        self.M = M

    def fresh_vars(self, L):
        """local variables that only ever hold null or a freshly made object"""
        if getattr(L, "fresh", None) is None:
            vals = {}
            for n in L.g:
                if n.k == "decl" and not n.ev.get("param"):
                    if n.ev["init"] is not None:
                        vals.setdefault(n.ev["id"], []).append(n.ev["init"])
                elif n.k == "asg" and n.ev["lhs"][0] == "v":
                    vals.setdefault(n.ev["lhs"][2], []).append(n.ev["rhs"] if n.ev["op"] == "=" else ("o",))
            fresh = set()
            for v, xs in vals.items():
                xs = [strip_cast(x) for x in xs]
                if any(x[0] == "new" for x in xs) and all(x[0] in ("new", "n") or x == ("i", 0) for x in xs):
                    fresh.add(v)
            L.fresh = fresh
        return L.fresh

    def private(self, L, n, b):
        """canonical object b is not yet (or no longer) reachable by other threads at n"""
        if b is None:
            return False
        if b == ("t",) and n.func.kind in ("ctor", "dtor"):
            return True
        if b[0] == "new":
            return True
        if b[0] == "v" and b[2] in self.fresh_vars(L):
            return True
        # an object held by value in a local variable
        if b[0] == "v" and b[3] == "l" and len(b) > 4 and b[4] and not b[4].rstrip().endswith(("*", "&")):
            return True
        return any(h[0] == "*private*" and h[1] is not None and h[1][:3] == b[:3] for h in self.E.get(L.f.id) or ())

    def translate(self, CL, n, e, callee_id, held):
        out = set()
        f = self.prog.funcs[callee_id]
        base = None
        argc = {}
        if e[0] == "c" and e[2] is not None:
            base = self.c(CL, n, e[2])
            while base[0] == "u" and base[1] in ("&", "*"):
                base = base[2]
        args = e[3] if e[0] in ("c", "k") else ()
        for prm, a in zip(f.params, args):
            ca = self.c(CL, n, a)
            while ca[0] == "u" and ca[1] in ("&", "*"):
                ca = ca[2]
            argc[ca] = ("v", prm["n"], (0, prm["id"]), "p")
            if self.private(CL, n, ca):
                out.add(("*private*", ("v", prm["n"], (0, prm["id"]), "p"), None, "x", ("caller",)))
        if base is not None and self.private(CL, n, base):
            out.add(("*private*", ("t",), None, "x", ("caller",)))
        for h in held:
            name, b, idx, mode, owner = h
            if b is None:
                nb = None
            elif base is not None and b == base:
                nb = ("t",)
            elif b in argc:
                nb = argc[b]
            elif b == ("t",) and base == ("t",):
                nb = ("t",)
            else:
                nb = ("other",)
            ni = idx
            if idx is not None:
                ni = ("idx",) if idx not in argc else argc[idx]
            out.add((name, nb, ni, mode, ("caller",)))
            if mode == "x":
                out.add((name, nb, ni, "r", ("caller",)))
        return frozenset(out)

    # ---- queries -----------------------------------------------------------
    def held_at(self, L, n):
        return self.must(L, n) | self.E.get(L.f.id, frozenset())

    def may_at(self, L, n):
        return self.may(L, n) | self.M.get(L.f.id, frozenset())
