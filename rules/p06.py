"""Mapped files are only touched inside the part that is mapped, through a
current mapping."""
from common import *

ASSUMPTIONS = [
    "the index stored in a page header or index entry was written by this program (a corrupted file is not considered)",
    "nobody else truncates the files while they are mapped",
]

PAGES = ("m", ("t",), "MmapFile::m_pages")
LENGTH = ("m", ("t",), "MmapFile::m_length")
MOVERS = ("MmapFile::resize", "MmapFile::remap", "MmapFile::close", "MmapFile::close_no_lock", "MmapFile::open", "MmapFile::open_existing",
          "IndexFile::expand", "IndexFile::close", "DataFile::close")


def check(ctx):
    p = ctx.prog
    ctx.rule("bound", "an access to the mapping is preceded, on every path, by a check that the mapping reaches that far", 8)
    ctx.rule("stale", "an address inside the mapping is not used after the mapping may have moved", 4)
    ctx.rule("length", "the recorded length and address of a mapping change together and only when mapping succeeded", 4)
    ctx.rule("unmap", "a writable mapping is synchronised before it is unmapped, and forgotten afterwards", 3)
    ctx.rule("fresh", "entries added to an index start out empty", 5)
    ctx.rule("reread", "a page that is not mapped yet is mapped under the write lock and looked up again; a page still missing is an error", 2)
    ctx.rule("slot", "a page header slot is taken only when the header file has room, and the file is created large enough for all of them", 3)
    ctx.rule("grow", "a new file is extended before it is mapped", 1)
    bound(ctx, p)
    stale(ctx, p)
    length(ctx, p)
    asked(ctx, p)
    unmap(ctx, p)
    fresh(ctx, p)
    reread(ctx, p)
    slot(ctx, p)
    grow(ctx, p)


def mm_classes(p):
    return {"MmapFile"} | set(p.subclasses_of("MmapFile"))


def mm_funcs(p):
    cs = mm_classes(p)
    return [f for f in p.funcs.values() if f.cls in cs]


def helper_inl(p, skip=()):
    cs = mm_classes(p)

    def inl(fn, e, d):
        return fn.short not in MOVERS and fn.short not in skip and (fn.cls in cs or fn.file == "src/core/mmap.cpp" and fn.id.startswith("static:")) \
            and fn.end - fn.line < 60
    return inl


def elem_size(p, t):
    t = t.replace("const ", "").replace("struct ", "").rstrip(" *&")
    r = p.records.get(t)
    return r["size"] if r else {"unsigned char": 1, "char": 1, "void": 1}.get(t)


def bound(ctx, p):
    """index entries and page headers inside the mapping"""
    for f in mm_funcs(p):
        if f.cls not in ("IndexFile", "DataFile"):
            continue
        if not any(mentions_call(x, "MmapFile::get_pages") or mentions_field(x, "MmapFile::m_pages") for ev in f.events() for x in exprs(ev)):
            continue
        g = Graph(p, f, inline=helper_inl(p), maxdepth=3)
        F = Facts(g)
        ctx.analysed(f)
        for n in g:
            if n.frame != 0 and n.func.cls == f.cls and n.func.short in ("IndexFile::get_pages",):
                continue
            need = None
            what = None
            if n.k == "sub":
                b, i = n.ev["e"][1], n.ev["e"][2]
                sz = ptr_elem(p, b)
                cb = F.c(n, b)
                if not derived(cb) or sz is None:
                    # joins lose the value of a re-read pointer: fall back on what the variable can hold
                    if not (sz and may_derive(g, b)):
                        continue
                    off = ("i", 0)
                else:
                    off = binop("-", cb, PAGES)
                ci = F.c(n, i)
                need = binop("+", binop("+", off, binop("*", ci, ("i", sz))), ("i", sz))
                what = "element %s" % show(ci)
                idx = ci
            elif n.k == "acc" and n.ev["e"][1][0] not in ("x",) and n.ev.get("arrow"):
                cb = F.c(n, n.ev["e"][1])
                if not derived(cb):
                    continue
                cls = n.ev["e"][2].split("::")[0]
                r = p.records.get(cls)
                if not r:
                    continue
                off = binop("-", cb, PAGES)
                need = binop("+", off, ("i", r["size"]))
                what = "header at %s" % show(off)
                idx = None
                sz = r["size"]
            if need is None:
                continue
            ok = guarded(g, F, n, lambda fs, s: good(fs, s, F, need, idx, sz, g))
            if not ok:
                ok = implies(F.at(n)[1], binop("<=", need, LENGTH))
            ctx.ob("bound", "%s in %s" % (what, f.short), ok, n.loc, "the mapping may end before the accessed entry (no check that it is at least %s long)" % show(need))
    # a page is handed out only if all of it is mapped
    f = p.get("DataFile::get_page")
    g = Graph(p, f, inline=helper_inl(p), maxdepth=3)
    F = Facts(g)
    dep = depends(g, "compress_info_on_disk::m_cursor")
    for n in g:
        if n.k == "ret" and n.frame == 0 and n.ev["e"] is not None and const_of(n.ev["e"]) is None and strip_cast(n.ev["e"])[0] != "n":
            def whole(fs, src):
                for a in fs:
                    if a[0] == "b" and a[1] in ("<=", "<") and LENGTH in list(walk(a[3])) and LENGTH not in list(walk(a[2])):
                        for s in walk(a[2]):
                            if s[0] == "m" and s[2] == "compress_info_on_disk::m_cursor" or s[0] == "v" and s[2] in dep:
                                return True
                return False
            ok = guarded(g, F, n, whole)
            ctx.ob("bound", "whole page in %s" % f.short, ok, n.loc, "a page is handed out without checking that all of its data is mapped")


def exprs(ev):
    for k in ("e", "lhs", "rhs", "init"):
        x = ev.get(k)
        if isinstance(x, tuple):
            yield x


def depends(g, field):
    """local variables whose value may come from the field"""
    out = set()
    ch = True
    while ch:
        ch = False
        for n in g:
            if n.k == "decl":
                l, r = n.ev["id"], n.ev["init"]
            elif n.k == "asg" and n.ev["lhs"][0] == "v":
                l, r = n.ev["lhs"][2], n.ev["rhs"]
            else:
                continue
            if r is None or l in out:
                continue
            if any(s[0] == "m" and s[2] == field or s[0] == "v" and s[2] in out for s in walk(r)):
                out.add(l)
                ch = True
    return out


def derived(c):
    """canonical expression is m_pages plus something"""
    d = lin(c) if isinstance(c, tuple) else {}
    return d.get(PAGES) == 1


def may_derive(g, e):
    e = strip_cast(e)
    if e[0] != "v":
        return mentions_call(e, "MmapFile::get_pages") or mentions_field(e, "MmapFile::m_pages")
    seen = set()
    todo = [e[2]]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        for n in g:
            r = None
            if n.k == "decl" and n.ev["id"] == k:
                r = n.ev["init"]
            elif n.k == "asg" and n.ev["lhs"][0] == "v" and n.ev["lhs"][2] == k:
                r = n.ev["rhs"]
            if r is None:
                continue
            if mentions_call(r, "MmapFile::get_pages") or mentions_field(r, "MmapFile::m_pages"):
                return True
            r = strip_cast(r)
            for s in walk(r):
                if s[0] == "v":
                    todo.append(s[2])
    return False


def ptr_elem(p, b):
    """size of what a pointer expression points to"""
    while b[0] == "cast":
        s = elem_size(p, b[1])
        if s and b[1].rstrip().endswith("*"):
            return s
        b = b[2]
    if b[0] == "v" and b[4].rstrip().endswith("*"):
        return elem_size(p, b[4])
    return None


def good(fs, src, F, need, idx, sz, g):
    if implies(fs, binop("<=", need, LENGTH)):
        return True
    for a in fs:
        # growing the file to the needed length succeeded
        if a[0] == "b" and a[1] == "!=" and a[3] == ("i", 0) and a[2][0] == "c" and a[2][1] in ("IndexFile::expand", "MmapFile::resize"):
            d = binop("-", a[2][3][0], need)
            if d[0] == "i" and d[1] >= 0:
                return True
        # loop up to the number of entries
        if idx is not None and a[0] == "b" and a[1] == "<" and a[3][0] == "b" and a[3][1] == "/" and a[3][3] == ("i", sz):
            if a[2] == idx or binop("-", a[2], idx) == ("i", 0):
                L = a[3][2]
                if L == LENGTH:
                    return True
                # the length the file was just grown to
                for m in g:
                    if m.k == "call" and is_call(m, "MmapFile::resize") and F.c(m, args(m)[0]) == L and preceded(g, src, lambda x: x is m):
                        return True
    return False


def show(e):
    if not isinstance(e, tuple):
        return str(e)
    k = e[0]
    if k == "i":
        return str(e[1])
    if k == "v":
        return e[1]
    if k == "m":
        return e[2].split("::")[-1]
    if k == "sum":
        parts = ["%s%s" % ("" if c == 1 else "%d*" % c, show(t)) for t, c in e[2]]
        if e[1]:
            parts.append(str(e[1]))
        return "+".join(parts)
    if k == "b":
        return "%s%s%s" % (show(e[2]), e[1], show(e[3]))
    if k == "c":
        return e[1] + "()"
    return k


def stale(ctx, p):
    """a local pointer into the mapping dies when the mapping moves"""
    for f in mm_funcs(p):
        g = None
        vs = {}
        if f.short in ("MmapFile::get_pages",):
            continue
        if not any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) in MOVERS for ev in f.events()):
            continue
        g = Graph(p, f)
        src = ("MmapFile::get_pages", "HeaderFile::get_tsdb_header", "HeaderFile::get_page_header", "DataFile::get_page")

        def origin(e):
            return any(s[0] == "c" and short(s[1]) in src or s[0] == "m" and s[2] == "MmapFile::m_pages" for s in walk(e))
        ptr = set()
        ch = True
        while ch:
            ch = False
            for n in g:
                if n.k == "decl":
                    l, r, t = n.ev["id"], n.ev["init"], n.ev["t"]
                elif n.k == "asg" and n.ev["lhs"][0] == "v":
                    l, r, t = n.ev["lhs"][2], n.ev["rhs"], n.ev["lhs"][4]
                else:
                    continue
                if r is None or l in ptr or "*" not in t:
                    continue
                if origin(r) or any(s[0] == "v" and s[2] in ptr for s in walk(r)):
                    ptr.add(l)
                    ch = True
        if not ptr:
            continue
        ctx.analysed(f)

        def moves(n):
            return n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) in MOVERS and (n.ev["e"][2] is None or strip_cast(n.ev["e"][2]) == ("t",))

        for v in ptr:
            def redefines(m):
                return m.k == "decl" and m.ev["id"] == v or m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == v and m.ev["op"] == "="

            def uses(m):
                if redefines(m):
                    r = m.ev.get("init") if m.k == "decl" else m.ev["rhs"]
                    return r is not None and any(s[0] == "v" and s[2] == v for s in walk(r))
                if m.k not in ("sub", "deref", "acc", "asg", "decl", "call", "ret"):
                    return False
                return any(s[0] == "v" and s[2] == v for x in event_exprs(m) for s in walk(x))
            defs = [m for m in g if redefines(m) and (m.k != "decl" or m.ev["init"] is not None)]
            name = defs[0].ev.get("n") or defs[0].ev["lhs"][1] if defs else "?"
            bad = None
            for mv in [m for m in g if moves(m)]:
                if not any(path_exists(g, d, lambda m: m is mv, avoid=lambda m: m is not d and redefines(m)) for d in defs):
                    continue
                r = path_exists(g, mv, lambda m: uses(m), avoid=lambda m: redefines(m) and not uses(m))
                if r is not None:
                    bad = r
            ctx.ob("stale", "%s in %s" % (name, f.short), bad is None, bad.loc if bad else f.loc(),
                   "%s still points into the old mapping after the file may have been mapped elsewhere" % name)


def length(ctx, p):
    for f in mm_funcs(p):
        maps = [ev for ev in f.events() if ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][2] is None and short(ev["e"][1]) in ("mmap", "mmap64", "mremap")]
        if not maps:
            continue
        g = Graph(p, f)
        F = Facts(g)
        ctx.analysed(f)
        for n in g:
            if not is_ext(n, "mmap", "mmap64", "mremap"):
                continue
            a = args(n)
            re = is_ext(n, "mremap")
            L = F.c(n, a[2] if re else a[1])
            if re:
                ok = F.c(n, a[0]) == PAGES and F.c(n, a[1]) == LENGTH
                ctx.ob("length", "old mapping in %s" % f.short, ok, n.loc, "the mapping is moved with an address or length other than the recorded ones")

            def sets_len(m):
                return writes_field(m, "MmapFile::m_length") and F.c(m, m.ev["rhs"]) == L

            def sets_pages(m):
                return writes_field(m, "MmapFile::m_pages") and const_of(m.ev["rhs"]) is None and strip_cast(m.ev["rhs"])[0] != "n"
            stores = [m for m in g if sets_pages(m)]
            ctx.ob("length", "mapping stored in %s" % f.short, bool(stores), n.loc, "the new mapping is not recorded")
            for m in stores:
                already = L == LENGTH or implies(F.at(m)[1], binop("==", L, LENGTH))
                # the length was recorded before with the same value, or is recorded on every way out
                ok = already or escapes(g, m, sets_len) is None or preceded(g, m, sets_len)
                ctx.ob("length", "length recorded in %s" % f.short, ok, m.loc, "the mapping changes but the recorded length does not follow it")
                # direct store: failure must reset it; indirect: only on success
                direct = mentions_call(m.ev["rhs"], "mmap", "mmap64", "mremap")

                def failed(fs, s):
                    return any(b[0] == "b" and b[1] == "!=" and is_failed(b[3]) for b in fs)
                if direct:
                    bad = paths(g).search([m], lambda x: x.id in (g.exit.id, g.texit.id),
                                          stop=lambda x: x is not m and writes_field(x, "MmapFile::m_pages") and strip_cast(x.ev["rhs"])[0] in ("n", "i"),
                                          stop_edge=lambda s, l: any(b[0] == "b" and b[1] == "!=" and is_failed(b[3]) for b in edge_atoms(F, s, l)))
                    ok = bad is None
                else:
                    ok = guarded(g, F, m, failed)
                ctx.ob("length", "failed mapping in %s" % f.short, ok, m.loc, "a failed mapping is recorded as if it were valid")
            if re:
                for m in g:
                    if writes_field(m, "MmapFile::m_length"):
                        ok = guarded(g, F, m, lambda fs, s: any(b[0] == "b" and b[1] == "!=" and is_failed(b[3]) for b in fs))
                        ctx.ob("length", "length only after success in %s" % f.short, ok, m.loc, "the length is changed although the mapping may have failed")
                if any(is_ext(m, "ftruncate") for m in g):
                    for m in g:
                        if is_ext(m, "ftruncate"):
                            ctx.ob("length", "file length in %s" % f.short, F.c(m, args(m)[1]) == L, m.loc, "the file is resized to a length other than the one mapped")
                    ok = preceded(g, n, lambda m: is_ext(m, "ftruncate"))
                    ctx.ob("length", "file grown first in %s" % f.short, ok, n.loc, "the mapping is extended before the file is")


def asked(ctx, p):
    """a length asked of the system is used for a mapping only if it was answered"""
    for f in mm_funcs(p):
        g = Graph(p, f)
        if not any(is_ext(n, "mmap", "mmap64", "mremap") for n in g):
            continue
        def told(e, t, m):
            e = strip_cast(e)
            isx = lambda x: any(o[0] == "c" and short(o[1]) == short(m.ev["e"][1]) for o in [strip_cast(x)] + [strip_cast(o) for o in origins(g, x)])
            if e[0] == "u" and e[1] == "!":
                return told(e[2], not t, m)
            if e[0] != "b":
                return isx(e) and not t
            a, b, op = e[2], e[3], e[1]
            if const_of(a) is not None:
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if not isx(a):
                return False
            if not t:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}.get(op, op)
            return (op, const_of(b)) in (("==", 0), ("!=", -1), (">=", 0), (">", -1))
        for n in g:
            if n.k not in ("asg", "decl") or n.k == "asg" and not (writes_field(n, "MmapFile::m_length") or strip_cast(n.ev["lhs"])[0] == "v"):
                continue
            e = n.ev.get("rhs") if n.k == "asg" else n.ev.get("init")
            if e is None or not any(x[0] == "m" and x[2].endswith("st_size") for x in walk(e)):
                continue
            for m in [m for m in g if is_ext(m, "fstat", "stat", "fstat64", "stat64")]:
                r = paths(g).search([m], lambda q: q is n,
                                    stop_edge=lambda s, l: any(told(e, t, m) for e, t in truths(l)))
                ctx.ob("length", "length asked for in %s" % f.short, r is None, n.loc, "a length is taken over although it could not be found out")


def is_failed(e):
    return e == ("i", -1) or e == ("i", 0xFFFFFFFFFFFFFFFF)


def unmap(ctx, p):
    for f in mm_funcs(p):
        if not any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "munmap" for ev in f.events()):
            continue
        g = Graph(p, f, inline=inliner(only=("MmapFile::flush",)))
        F = Facts(g)
        ctx.analysed(f)
        for n in g:
            if not is_ext(n, "munmap"):
                continue
            a = args(n)
            ctx.ob("unmap", "arguments in %s" % f.short, F.c(n, a[0]) == PAGES and F.c(n, a[1]) == LENGTH, n.loc, "not the whole mapping is unmapped")

            def synced(m):
                return is_ext(m, "msync") or is_call(m, "MmapFile::flush") or virt_flush(m)
            bad = paths(g).search([g.entry], lambda m: m is n, stop=synced,
                                  stop_edge=lambda s, l: nonzero(("m", ("t",), "MmapFile::m_read_only")) in edge_atoms(F, s, l))
            ctx.ob("unmap", "synchronised in %s" % f.short, bad is None, n.loc, "a writable mapping is unmapped without being synchronised")
            bad = escapes(g, n, lambda m: writes_field(m, "MmapFile::m_pages") and strip_cast(m.ev["rhs"])[0] in ("n", "i"), exits=[g.exit.id, g.texit.id])
            ctx.ob("unmap", "forgotten in %s" % f.short, bad is None, n.loc, "the address of the removed mapping is kept and may be used or unmapped again")


def virt_flush(m):
    return m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).endswith("::flush")


def fresh(ctx, p):
    rec = p.records.get("index_entry")
    if not rec:
        raise AnalysisError("index_entry is gone")
    grows = []
    for f in p.funcs.values():
        if f.cls == "IndexFile" and any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "MmapFile::resize" for ev in f.events()):
            grows.append(f)
    need_some(len(grows), "index file growth")
    for f in grows:
        g = Graph(p, f, inline=helper_inl(p, skip=("MmapFile::resize",)), maxdepth=2)
        F = Facts(g)
        ctx.analysed(f)
        rs = [n for n in g if is_call(n, "MmapFile::resize")]
        for fl in rec["fields"]:
            nm = "index_entry::" + fl["n"]
            ws = [n for n in g if writes_field(n, nm) and const_of(n.ev["rhs"]) is not None]
            want = 0 if fl["n"] == "flags" else 0xFFFF
            ok = any(const_of(n.ev["rhs"]) == want and n.ev["lhs"][1][0] == "x" for n in ws) or any(is_ext(n, "memset") for n in g) and want == 0xFFFF
            ctx.ob("fresh", "%s in %s" % (nm, f.short), ok, ws[0].loc if ws else f.loc(), "new entries of the index do not start out empty (%s)" % nm)
        # loop covers old length .. new length
        for n in g:
            if n.k == "sub" and n.ev["rw"] == "w" and strip_cast(n.ev["e"][2])[0] == "v":
                v = strip_cast(n.ev["e"][2])
                init = [m for m in g if m.k == "decl" and m.ev["id"] == v[2] or m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == v[2] and m.ev["op"] == "="]
                ok = False
                for m in init:
                    r = F.c(m, m.ev.get("init") if m.k == "decl" else m.ev["rhs"])
                    # old length divided by entry size
                    if r[0] == "b" and r[1] == "/" and r[3] == ("i", rec["size"]):
                        ok = True
                    if r == ("i", 0):
                        ok = False
                ctx.ob("fresh", "first new entry in %s" % f.short, ok, n.loc, "initialisation does not start at the first new entry")
                break
    # the length of the mapping is read before it grows
    for f in grows:
        g = Graph(p, f)
        F = Facts(g)
        for n in g:
            if n.k == "decl" and n.ev["init"] is not None and mentions_call(n.ev["init"], "MmapFile::get_length") or n.k == "decl" and n.ev["init"] is not None and mentions_field(n.ev["init"], "MmapFile::m_length"):
                v = n.ev["id"]
                isold = any(m.k == "decl" and m.ev["init"] is not None and any(s[0] == "v" and s[2] == v for s in walk(m.ev["init"])) and
                            any(x.k == "sub" and strip_cast(x.ev["e"][2])[:3] == ("v", m.ev["n"], m.ev["id"]) for x in g) for m in g)
                if isold:
                    bad = path_exists(g, [x for x in g if is_call(x, "MmapFile::resize")][0], lambda m: m is n)
                    ctx.ob("fresh", "old length in %s" % f.short, bad is None, n.loc, "the old length is read after the file has grown")
    f = p.get("IndexFile::open")
    g = Graph(p, f, inline=helper_inl(p), maxdepth=2)
    for nm in ("file_index", "file_index2"):
        ws = [n for n in g if writes_field(n, "index_entry::" + nm)]
        ctx.ob("fresh", "index_entry::%s in %s" % (nm, f.short), any(const_of(n.ev["rhs"]) == 0xFFFF for n in ws) or any(is_ext(n, "memset") for n in g),
               ws[0].loc if ws else f.loc(), "entries of a new index do not start out empty")


def reread(ctx, p):
    cnt = 0
    for f in list(p.funcs.values()):
        if not any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "DataFile::get_page" for ev in f.events()):
            continue
        g = Graph(p, f, inline=inliner(only=()))
        F = Facts(g)
        ctx.analysed(f)
        calls = [n for n in g if is_call(n, "DataFile::get_page")]
        for n in calls:
            # where does the result go?
            v = None
            for m in g:
                r = m.ev.get("init") if m.k == "decl" else m.ev.get("rhs") if m.k == "asg" else None
                if r is not None and strip_cast(r) == n.ev["e"]:
                    v = m.ev["id"] if m.k == "decl" else m.ev["lhs"][2] if m.ev["lhs"][0] == "v" else None
                    at = m
            if v is None:
                continue
            cnt += 1

            def use(m):
                if m.k not in ("call", "deref", "sub", "acc"):
                    return False
                if m.k == "call":
                    return any(strip_cast(a)[0] == "v" and strip_cast(a)[2] == v for a in args(m)) if m.ev["e"][0] == "c" else False
                return any(s[0] == "v" and s[2] == v for x in event_exprs(m) for s in walk(x))
            # unchecked use
            bad = paths(g).search([at], lambda m: m is not at and use(m),
                                  stop=lambda m: m is not at and m.k in ("decl", "asg") and (m.ev.get("id") == v or m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == v),
                                  stop_edge=lambda s, l: l and l[0] == "cond" and tests_nonnull(l, v))
            ctx.ob("reread", "missing page checked in %s" % f.short, bad is None, bad[-1].loc if bad else n.loc,
                   "a page that is not mapped (null) may be used")
        # at least one remap between a null result and the next lookup
        rem = [n for n in g if is_remap(n)]
        first = [n for n in calls if not any(path_exists(g, m, lambda x: x is n) for m in calls if m is not n)]
        for n in first:
            ok = any(path_exists(g, n, lambda m: m in rem) and path_exists(g, r, lambda m: m in calls) for r in rem)
            ctx.ob("reread", "remapped in %s" % f.short, ok, n.loc, "a page that was appended after the file was mapped is never mapped")
        # the mapping may only move under the write lock
        for r in rem:
            bad = in_context(p, f, lambda gg: unlocked(gg, lambda m: is_remap(m) and m.func is f, ("PThread_Lock::lock_for_write",),
                                                       ("PThread_Lock::unlock", "PThread_Lock::lock_for_read")))
            ctx.ob("reread", "write lock in %s" % f.short, not bad, r.loc, "the mapping is moved while readers may hold addresses inside it")
        for n in calls:
            bad = in_context(p, f, lambda gg: unlocked(gg, lambda m: is_call(m, "DataFile::get_page") and m.func is f and m.line == n.line,
                                                       ("PThread_Lock::lock_for_read", "PThread_Lock::lock_for_write"), ("PThread_Lock::unlock",)))
            ctx.ob("reread", "read lock in %s" % f.short, not bad, n.loc, "the page is looked up without holding the file's lock")
    need_some(cnt, "page lookup")


def is_remap(n):
    return is_call(n, "MmapFile::remap") or bool(call_name(n)) and call_name(n).endswith("::remap")


def unlocked(g, B, lock, unlock):
    held = must_before(g, lambda m: ["l"] if call_name(m) in lock else [], kill=lambda m: ["l"] if call_name(m) in unlock else [])
    return [n for n in g if B(n) and "l" not in held[n.id]]


def tests_nonnull(l, v):
    e = strip_cast(l[1])
    t = l[2]
    while e[0] == "u" and e[1] == "!":
        e = strip_cast(e[2])
        t = not t
    if e[0] == "v":
        return e[2] == v and t
    if e[0] == "b" and e[1] in ("==", "!="):
        a, b = strip_cast(e[2]), strip_cast(e[3])
        for x, y in ((a, b), (b, a)):
            if x[0] == "v" and x[2] == v and (y[0] == "n" or const_of(y) == 0):
                return t == (e[1] == "!=")
    return False


def slot(ctx, p):
    # taking a slot
    cnt = 0
    for f in p.funcs.values():
        if not any(ev["k"] == "asg" and ev["op"] in ("++", "+=") and mentions_field(ev["lhs"], "tsdb_header::m_header_index") for ev in f.events()):
            continue
        g = Graph(p, f, inline=inliner(only=("HeaderFile::is_full",)))
        F = Facts(g)
        ctx.analysed(f)
        for n in g:
            if n.k == "asg" and n.ev["op"] in ("++", "+=") and writes_field(n, "tsdb_header::m_header_index"):
                cnt += 1

                def room(fs, s):
                    for a in fs:
                        if a[0] == "b" and a[1] in ("<", "<=") and any(s[0] == "m" and s[2] == "tsdb_header::m_header_index" for s in walk(a[2])) and \
                                any(s[0] == "m" and s[2] == "tsdb_header::m_page_count" for s in walk(a[3])):
                            return a[1] == "<"
                        if a[0] == "b" and a[1] == "==" and a[3] == ("i", 0) and a[2][0] == "c" and a[2][1].endswith("is_full"):
                            return True
                        if a[0] == "b" and a[1] == "&&" and any(room([x], s) for x in (a[2], a[3])):
                            return True
                    return False
                ctx.ob("slot", "room checked in %s" % f.short, guarded(g, F, n, room), n.loc, "a page header slot is taken although the header file may be full")
    ctx.ob("slot", "slots are taken", cnt > 0, "include/mmap.h:1", "no code takes a page header slot")
    # what full means
    f = p.get("tsdb_header::is_full")
    g = Graph(p, f)
    F = Facts(g)
    for n in returns(g):
        c = F.c(n, n.ev["e"])
        ok = any(a[0] == "b" and a[1] == "<=" and mentions_field(a[2], "tsdb_header::m_page_count") and mentions_field(a[3], "tsdb_header::m_header_index") for a in walk(c)) or \
            any(a[0] == "b" and a[1] == "==" and mentions_field(a, "tsdb_header::m_page_count") and mentions_field(a, "tsdb_header::m_header_index") for a in walk(c))
        ctx.ob("slot", "meaning of full", ok or len(list(returns(g))) > 1, n.loc, "a header file counts as not full although all of its slots are taken")
    # the file is created for all slots
    f = p.get("HeaderFile::open")
    g = Graph(p, f, inline=helper_inl(p), maxdepth=2)
    F = Facts(g)
    h, e = p.records["tsdb_header"]["size"], p.records["page_info_on_disk"]["size"]
    for n in g:
        if is_call(n, "MmapFile::open"):
            L = F.c(n, args(n)[0])
            want = binop("+", ("i", h), binop("*", ("m", ("t",), "HeaderFile::m_page_count"), ("i", e)))
            d = binop("-", L, want)
            ctx.ob("slot", "length of a new header file", d[0] == "i" and d[1] >= 0, n.loc, "a new header file is %s long, less than its header and all page headers" % show(L))
    f = p.get("HeaderFile::get_page_header")
    g = Graph(p, f)
    F = Facts(g)
    for n in returns(g):
        c = F.c(n, n.ev["e"])
        # address = mapping + header + index * entry
        idx = [q for q in f.params][0]
        ok = False
        if c[0] == "u" and c[1] == "&" and c[2][0] == "x":
            ok = binop("-", c[2][1], binop("+", PAGES, ("i", h))) == ("i", 0) and c[2][2][0] == "v" and c[2][2][2] == (0, idx["id"])
        else:
            d = binop("-", c, PAGES)
            d = lin(d)
            ok = d.get(()) in (h, None) and any(k != () and k[0] == "v" for k in d)
        ctx.ob("slot", "place of a page header", ok, n.loc, "page headers are looked up at a place other than behind the file header")


def grow(ctx, p):
    f = p.get("MmapFile::open")
    g = Graph(p, f)
    F = Facts(g)
    par = [q for q in f.params if "resize" in q["n"] or q["t"] == "bool"]
    rs = f.params[3]["id"] if len(f.params) > 3 else None
    for n in g:
        if is_ext(n, "mmap", "mmap64"):
            L = F.c(n, args(n)[1])
            # every path: ftruncate to the mapped length, or resize not wanted, or the file is long enough
            def enough(src, l):
                fs = edge_atoms(F, src, l)
                for a in fs:
                    if a == ("b", "==", ("v", f.params[3]["n"], (0, rs), "p"), ("i", 0)):
                        return True
                    if a[0] == "b" and a[1] in ("<=",) and a[2] in (L, LENGTH) and any(s[0] == "m" and s[2].endswith("st_size") for s in walk(a[3])):
                        return True
                return False
            bad = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: is_ext(m, "ftruncate"), stop_edge=enough)
            ctx.ob("grow", "mapped in %s" % f.short, bad is None, n.loc, "a new file is mapped beyond its end")
            for m in g:
                if is_ext(m, "ftruncate"):
                    ctx.ob("grow", "length in %s" % f.short, F.c(m, args(m)[1]) in (L, LENGTH), m.loc, "a new file is extended to a length other than the one mapped")
    for nm in ("IndexFile::open", "HeaderFile::open"):
        f2 = p.get(nm)
        for ev in f2.events():
            if ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "MmapFile::open" and len(ev["e"][3]) > 3:
                ctx.ob("grow", "new file in %s" % nm, const_of(ev["e"][3][3]) == 1, "%s:%s" % (f2.file, ev["l"]), "a new file is mapped without being extended")
