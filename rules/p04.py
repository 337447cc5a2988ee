"""Rollup files are referenced while in use and every reference is released once."""
from common import *
from refs import *

ASSUMPTIONS = [
    "the rollup state kept by a series holds its reference until the series moves to another month; it is not copied while it has one",
    "exceptions thrown while a reference is held are not considered",
]

COUNT = "RollupDataFile::m_ref_count"
OWNER = "RollupManager::m_data_file"
MAPS = ("RollupManager::m_data_files", "RollupManager::m_data_files2")
LOCKS = ("RollupManager::m_lock", "RollupManager::m_lock2")
GET = ("RollupManager::get_or_create_data_file", "RollupManager::get_data_file", "RollupManager::get_level1_data_file_by_bucket",
       "RollupManager::get_or_create_level2_data_file_by_bucket")
INC = ("RollupDataFile::inc_ref_count", "RollupDataFile::inc_ref_count_no_lock")
DEC = ("RollupDataFile::dec_ref_count",)


def check(ctx):
    p = ctx.prog
    ctx.rule("acquire", "a rollup file handed out is referenced exactly once, while the table of files is locked", 4)
    ctx.rule("release", "a reference taken is released or handed on exactly once on every path", 5)
    ctx.rule("each", "references to a set of files are released one by one, each exactly once", 4)
    ctx.rule("owner", "a series that moves to another rollup file releases the old one first, once", 2)
    ctx.rule("unreferenced-use", "a file is not used after its reference was released", 2)
    ctx.rule("in-use", "a file is closed, removed or swapped only when nobody else references it", 4)
    ctx.rule("count", "the reference count is changed under the file's lock, or atomically", 2)
    sets = {}
    for f in p.funcs.values():
        # functions that fill a vector given to them
        for i, q in enumerate(f.params):
            if "vector<RollupDataFile *" in q["t"] and "&" in q["t"] and any(
                    ev["k"] == "call" and ev["e"][0] == "c" and "vector<RollupDataFile *>::push_back" in ev["e"][1] and ev["e"][2] is not None and
                    strip_cast(ev["e"][2])[0] == "v" and strip_cast(ev["e"][2])[2] == q["id"] for ev in f.events()):
                sets[f.short] = i
    use(T="RollupDataFile", COUNT=COUNT, INC=INC, DEC=DEC, GET=getters(p), SETS=sets, OWNER=OWNER, SKIP=getters(p), MANY="rollup files")
    handed_out(ctx, p)
    pairing(ctx, p)
    owner(ctx, p)
    in_use(ctx, p)
    count(ctx, p)


def getters(p):
    """functions that return a rollup file out of the tables"""
    out = set(g for g in GET if p.all(g))
    for f in p.funcs.values():
        if f.ret == "RollupDataFile *" and f.cls == "RollupManager":
            out.add(f.short)
    return tuple(sorted(out))


def handed_out(ctx, p):
    K = ctx.locks
    for name in cfg.GET:
        for f in p.all(name):
            names = near_callees(p, f)
            g = AGraph(p, f, inline=lambda fn, e, d: fn.short in names and fn.short not in cfg.GET and fn.short not in INC + DEC and fn.file == f.file, maxdepth=2)
            ctx.analysed(f)
            # already referenced: returned by another of them
            def passed(n):
                return n.k == "ret" and n.frame == 0 and n.ev["e"] is not None and any(o[0] == "c" and short(o[1]) in cfg.GET for o in [strip_cast(n.ev["e"])] + list(origins(g, n.ev["e"])))
            vs = set(strip_cast(n.ev["e"])[2] for n in g if n.k == "ret" and n.frame == 0 and n.ev["e"] is not None and strip_cast(n.ev["e"])[0] == "v")
            def null(s, l):
                return any(null_of(v)(s, l) for v in vs)
            rets = [n for n in g if n.k == "ret" and n.frame == 0 and n.ev["e"] is not None and not passed(n) and not is_null(n.ev["e"])]
            for n in rets:
                b = strip_cast(n.ev["e"])
                r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: acq(m) and (base(m) == b or b[0] != "v"), stop_edge=null)
                if r is not None and b[0] == "v":
                    # returned with a null that it was given at first
                    r = paths(g).search([m for m in g if sets_var(m, b[2]) and not is_null(m.ev["init"] if m.k == "decl" else m.ev["rhs"])], lambda m: m is n, stop=acq, stop_edge=null)
                ctx.ob("acquire", "file returned by %s" % f.short, r is None, n.loc, "a rollup file is handed out without a reference%s" % via(r))
            L = K.fl[f.id]
            for n in g:
                if acq(n):
                    r = paths(g).search(nexts(g, n), acq)
                    ctx.ob("acquire", "one reference in %s" % f.short, r is None, n.loc, "a rollup file is referenced twice%s" % via(r))
            for n in L.g:
                if acq(n):
                    held = set(h[0] for h in K.held_at(L, n))
                    cs = [(M, m) for M in K.fl.values() for m in M.g if is_call(m, f.short) and m.ev["e"][1] == f.id]
                    if cs and not held & set(LOCKS):
                        # which of the locks depends on the caller
                        held = set(LOCKS) if all(set(h[0] for h in K.held_at(M, m)) & set(LOCKS) for M, m in cs) else held
                    ctx.ob("acquire", "referenced under the lock in %s" % f.short, bool(held & set(LOCKS)), n.loc, "the file is referenced after the table is unlocked: it may have been closed")


def is_null(e):
    e = strip_cast(e) if e is not None else None
    return e is None or e[0] == "n" or const_of(e) == 0


def unref(e, t, most):
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", ">", ">=", "==", "!="):
        return False
    def cnt(x):
        return mentions_field(x, COUNT) or mentions_call(x, "RollupDataFile::get_ref_count")
    if cnt(e[2]) and const_of(e[3]) is not None:
        op, k = e[1], const_of(e[3])
    elif cnt(e[3]) and const_of(e[2]) is not None:
        op, k = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(e[1], e[1]), const_of(e[2])
    else:
        return False
    if not t:
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
    return op == "<=" and k <= most or op == "<" and k <= most + 1 or op == "==" and k <= most


def in_use(ctx, p):
    # functions that say true only for a file nobody references
    idle = set()
    for f in p.funcs.values():
        if f.cls == "RollupDataFile" and f.ret == "bool" and any(acc_field_ev(ev, COUNT) for ev in f.events()):
            g = AGraph(p, f)
            ctx.analysed(f)
            yes = [n for n in g if n.k == "ret" and n.frame == 0 and n.ev["e"] is not None and const_of(n.ev["e"]) != 0]
            ok = bool(yes)
            for n in yes:
                r = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: any(unref(e, t, 0) for e, t in truths(l)))
                if r is not None and const_of(n.ev["e"]) is None and any(unref(e, True, 0) for e in conj(n.ev["e"])):
                    r = None
                ok = ok and r is None
                ctx.ob("in-use", "%s says a file is idle" % f.short, r is None, n.loc, "a rollup file that is in use is closed%s" % via(r))
            for n in g:
                if is_call(n, "RollupDataFile::close", "RollupDataFile::close_no_lock", "MmapFile::close", "MmapFile::close_no_lock"):
                    r = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: any(unref(e, t, 0) for e, t in truths(l)))
                    ctx.ob("in-use", "%s closes a file" % f.short, r is None, n.loc, "a rollup file that is in use is closed%s" % via(r))
            if ok:
                idle.add(f.short)
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.file.startswith(NO_INLINE_FILES) or f.short == "RollupManager::shutdown":
            continue
        evs = list(f.events())
        if any(ev["k"] == "call" and ev["e"][0] == "c" and "::erase(" in ev["e"][1] and ev["e"][2] is not None and any(is_global(ev["e"][2], m) for m in MAPS) for ev in evs) or \
                any(ev["k"] == "del" and "RollupDataFile" in str(ev["e"][2]) for ev in evs):
            names = near_callees(p, f)
            g = AGraph(p, f, inline=lambda fn, e, d: fn.short in names and fn.file == f.file, maxdepth=2)
            ctx.analysed(f)
            def free(s, l):
                return any(t and any(x[0] == "c" and short(x[1]) in idle for x in [strip_cast(e)]) or unref(e, t, 0) for e, t in truths(l))
            for n in g:
                rm = n.k == "del" and "RollupDataFile" in str(n.ev["e"][2]) or n.k == "call" and n.ev["e"][0] == "c" and "::erase(" in n.ev["e"][1] and n.ev["e"][2] is not None and any(
                    is_global(n.ev["e"][2], m) for m in MAPS)
                if rm and not fresh(g, n):
                    lp = loop_of(g, n)
                    start = [g.nodes[lp[0]]] if lp else [g.entry]
                    r = paths(g).search(start, lambda m: m is n, stop_edge=free)
                    ctx.ob("in-use", "file removed in %s" % f.short, r is None, n.loc, "a rollup file that is in use can be removed%s" % via(r))
        # directories swapped
        if f.cls == "RollupManager" and any(ev["k"] == "call" and (ev["e"][0] == "c" and short(ev["e"][1]) in ("std::rename", "rename")) for ev in evs) and \
                any("vector<RollupDataFile *" in q["t"] for q in f.params):
            swap(ctx, p, f)
    swaps = [f for f in p.funcs.values() if f.cls == "RollupManager" and any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) in ("std::rename", "rename") for ev in f.events())]
    ctx.ob("in-use", "recompressed files are put in place by the rollup manager", bool(swaps), p.get("RollupManager::rotate").loc(), "recompressed rollup files are never put in place")


def acc_field_ev(ev, fld):
    return ev["k"] in ("acc", "cmp") and any(isinstance(v, tuple) and mentions_field(v, fld) for v in ev.values())


def conj(e):
    e = strip_cast(e)
    if e[0] == "b" and e[1] == "&&":
        return conj(e[2]) + conj(e[3])
    return [e]


def fresh(g, n):
    """made in this function"""
    e = n.ev["e"][1] if n.k == "del" else None
    return e is not None and any(o[0] == "new" for o in origins(g, e))


def swap(ctx, p, f):
    """renamed only after every file was found to be referenced by the caller alone, all under the table's lock"""
    K = ctx.locks
    names = near_callees(p, f)
    g = AGraph(p, f, inline=lambda fn, e, d: fn.short in names and fn.file == f.file, maxdepth=2)
    ctx.analysed(f)
    ren = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) in ("std::rename", "rename")]
    def busy(s, l):
        return any(busy_test(e, t) for e, t in truths(l))
    tests = [n for n in g for s, l in n.succ if busy(n, l)]
    # the result of the test kept in a variable
    kept = [(n, n.ev["lhs"][2] if n.k == "asg" else n.ev["id"]) for n in g if (n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["rhs"] is not None and busy_test(n.ev["rhs"], True)) or
            (n.k == "decl" and n.ev["init"] is not None and busy_test(n.ev["init"], True))]
    flags = set(v for n, v in kept)
    tests += [n for n, v in kept]
    def not_busy(e, t):
        e = strip_cast(e)
        return unref(e, t, 1) or e[0] == "v" and e[2] in flags and not t
    ctx.ob("in-use", "files checked before they are swapped", bool(tests), f.loc(), "rollup files are swapped without checking that nobody uses them")
    if not tests:
        return
    for n in ren:
        # once found in use (and not looked at anew), they are not renamed
        r = None
        locks = [m for m in g if m.k == "decl" and "guard" in m.ev["t"] or m.k == "ctor" and "lock_guard" in str(m.ev["e"][1])]
        for t in tests:
            for s, l in t.succ:
                if busy(t, l) or any(t is n for n, v in kept):
                    r = r or paths(g).search([t], lambda m: m is n, stop=lambda m: m in locks, stop_edge=lambda a, b: any(not_busy(e, tt) for e, tt in truths(b)))
        ctx.ob("in-use", "swapped in %s" % f.short, r is None, n.loc, "rollup files that are in use are swapped%s" % via(r))
        r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m in tests or scan_of(g, m))
        ctx.ob("in-use", "checked before they are swapped in %s" % f.short, r is None, n.loc, "rollup files are swapped without checking that nobody uses them%s" % via(r))
    for n in g:
        if fetches(n, "RollupDataFile *"):
            lp = loop_of(g, n)
            if lp and any(t.id in lp[1] for t in tests):
                why = partial(g, n)
                ctx.ob("in-use", "every file checked in %s" % f.short, why is None, n.loc, "not all files are checked: %s" % why)
                # the loop goes on while files are not in use
                r = paths(g).search(nexts(g, n), lambda m: m is n or m.id == lp[0] or m.id not in lp[1], stop=lambda m: m in tests)
                ctx.ob("in-use", "each file checked in %s" % f.short, r is None, n.loc, "a file can be passed over%s" % via(r))
    L = K.fl[f.id]
    for n in L.g:
        if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) in ("std::rename", "rename"):
            held = set(h[0] for h in K.held_at(L, n))
            ctx.ob("in-use", "swapped under the lock in %s" % f.short, bool(held & set(LOCKS)), n.loc, "a file can be opened while it is being swapped")


def scan_of(g, m):
    return vec_scan(m, "RollupDataFile *")


def busy_test(e, t):
    """says that somebody other than the caller references the file"""
    return unref(e, not t, 1) and not unref(e, t, 1)


def count(ctx, p):
    K = ctx.locks
    atomic = any(f["n"] == "m_ref_count" and "atomic" in f["t"] for f in p.records["RollupDataFile"]["fields"])
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.short.endswith("<ctor>") or f.file.startswith(NO_INLINE_FILES) or f.id not in K.all_reach:
            continue
        if not any(ev["k"] == "asg" and mentions_field(ev["lhs"], COUNT) for ev in f.events()):
            continue
        L = K.fl[f.id]
        ctx.analysed(f)
        for n in L.g:
            if n.k == "asg" and mentions_field(n.ev["lhs"], COUNT):
                held = set(h[0] for h in K.held_at(L, n))
                ctx.ob("count", "count changed in %s" % f.short, atomic or "MmapFile::m_lock" in held, n.loc, "the reference count is changed without the file's lock: an update made by another thread may be lost")
