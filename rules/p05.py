"""A page reaches the data file before anything on disk refers to it."""
from common import *

ASSUMPTIONS = [
    "stdio's fflush hands the bytes to the operating system; surviving a power failure is not claimed",
    "shared mappings are written back in any order by the operating system; the order decided is that of the program's own stores",
]

SKIP = ("Tsdb::get_metric", "Tsdb::get_or_create_metric", "Tsdb::add_config", "Tsdb::write_config")


def check(ctx):
    p = ctx.prog
    ctx.rule("data-first", "on every path that files a page, the page is appended to the data file before the header or index records it", 6)
    ctx.rule("flushed", "appended bytes are flushed to the operating system before the append returns", 1)
    ctx.rule("header-first", "the page header is filled in before the index or the previous page refers to it", 2)
    ctx.rule("linked", "every filed page is linked: into the index for the first page of a series, from the previous page otherwise", 2)
    ctx.rule("position", "the page header records the position returned by the append", 1)
    ctx.rule("handed-back", "the caller is given the location of the page just filed", 2)
    ctx.rule("range", "the time range recorded in the file header is widened, never narrowed, to include the new page", 2)
    ctx.rule("header-copy", "copying a page header copies every field", 5)
    f = p.get("Tsdb::append_page")
    g = Graph(p, f, inline=inliner(skip=SKIP), maxdepth=6)
    F = Facts(g)

    def data_write(n):
        return is_ext(n, "fwrite") and mentions_field(args(n)[3], "DataFile::m_file")

    def idx_write(n):
        return writes_field(n, "index_entry::file_index", "index_entry::header_index", "index_entry::file_index2", "index_entry::header_index2") \
            and n.func.short not in ("IndexFile::expand", "IndexFile::open")

    def hdr_count(n):
        return writes_field(n, "tsdb_header::m_header_index") and n.func.short != "HeaderFile::init_tsdb_header"

    def hdr_page(n):
        return writes_field(n, "tsdb_header::m_page_index") and n.func.short != "HeaderFile::init_tsdb_header"

    def hdr_fill(n):
        """stores the page position into a header that lives in the mapped header file"""
        return writes_field(n, "page_info_on_disk::m_page_index") and base_var(n) != "param" and not is_invalid(n)

    def link(n):
        return writes_field(n, "page_info_on_disk::m_next_header", "page_info_on_disk::m_next_file") and n.func.short == "HeaderFile::update_next"

    need_some(sum(1 for n in g if data_write(n)), "page append in append_page")
    c = precede(ctx, "data-first", g, data_write, hdr_count, "header slot taken", "a header slot is taken before the page is in the data file")
    need_some(c, "header slot")
    c = precede(ctx, "data-first", g, data_write, hdr_page, "page counter advanced", "the file header's page counter changes before the page is in the data file")
    c = precede(ctx, "data-first", g, data_write, idx_write, "series index set", "the series index refers to the page before the page is in the data file")
    ctx.ob("linked", "first page of a series put into the index", c > 0, f.loc(), "nothing puts the first page of a series into the index")
    c = precede(ctx, "data-first", g, data_write, link, "previous page linked", "the previous page refers to the page before the page is in the data file")
    ctx.ob("linked", "previous page linked", c > 0, f.loc(), "no page is linked from the previous page of its series")
    # flushed
    for fn in p.funcs.values():
        if fn.cls != "DataFile":
            continue
        gg = Graph(p, fn)
        for n in gg:
            if is_ext(n, "fwrite"):
                bad = escapes(gg, n, lambda m: is_ext(m, "fflush", "fclose"))
                ctx.analysed(fn)
                ctx.ob("flushed", "write in %s" % fn.short, bad is None, n.loc, "the written page may stay in the stdio buffer when the function returns")
    # header-first
    fills = [n for n in g if hdr_fill(n)]
    need_some(len(fills), "page header being filled in")
    precede(ctx, "header-first", g, hdr_fill, idx_write, "index after header", "the index refers to a page header that has not been filled in")
    precede(ctx, "header-first", g, hdr_fill, link, "link after header", "the previous page refers to a page header that has not been filled in")
    # linked: after the header was filled in
    for n in fills:
        bad = escapes(g, n, lambda m: idx_write_main(m) or link(m), stop=failed_expand(g, F))
        ctx.ob("linked", "page filed in %s" % n.func.short, bad is None, n.loc, "a path files the page without linking it into its series")
    # the index entry is replaced only for a series without a previous page
    INV = ("i", 0xFFFF)

    def none_yet(fs, src):
        return any(a[0] == "b" and a[1] == "==" and a[3] == INV for a in fs)
    for n in g:
        if writes_field(n, "index_entry::file_index", "index_entry::file_index2") and idx_write(n):
            ctx.ob("linked", "%s replaced" % n.ev["lhs"][2], guarded(g, F, n, none_yet), n.loc,
                   "the index entry of a series that already has pages is replaced: its earlier pages are no longer found")
        if link(n):
            ctx.ob("linked", "link guarded", guarded(g, F, n, lambda fs, s: any(a[0] == "b" and a[1] == "!=" and a[3] == INV for a in fs)), n.loc,
                   "a page is linked to a previous page that does not exist")
    c = sum(1 for n in g if writes_field(n, "index_entry::header_index2") and idx_write(n))
    ctx.ob("linked", "first page past the middle put into the index", c > 0, f.loc(), "nothing records the first page past the middle of the partition")
    # both halves of an index entry / of a link are written together
    for a, b in (("index_entry::file_index", "index_entry::header_index"), ("index_entry::file_index2", "index_entry::header_index2"),
                 ("page_info_on_disk::m_next_file", "page_info_on_disk::m_next_header")):
        for fn in p.funcs.values():
            if fn.cls == "page_info_on_disk" or fn.file.startswith("include/tsl"):
                continue
            gg = None
            if not any(ev["k"] == "asg" and mentions_field(ev["lhs"], a, b) for ev in fn.events()):
                continue
            if fn.short == "IndexFile::open":
                continue
            gg = Graph(p, fn)
            pair(ctx, gg, a, b)
            pair(ctx, gg, b, a)
    # position
    ap = [n for n in g if is_call(n, "DataFile::append")]
    for n in g:
        if writes_field(n, "page_info_on_disk::m_page_index") and n.func.short == f.short:
            r = F.c(n, n.ev["rhs"])
            ctx.ob("position", "m_page_index set in append_page", from_append(g, n, n.ev["rhs"]), n.loc,
                   "the page header's position is not the one the data file returned")
    # handed-back: parameters' next fields are set after the slot was taken
    for fld, src in (("page_info_on_disk::m_next_file", "file"), ("page_info_on_disk::m_next_header", "header")):
        last = [n for n in g if writes_field(n, fld) and base_var(n) == "param"]
        ctx.ob("handed-back", fld, bool(last) and all(escapes(g, n, lambda m: m in last) is None for n in fills), last[0].loc if last else f.loc(),
               "the location of the filed page is not handed back to the caller, whose next page will not be chained to it")
    # time range of the file
    for fld, op in (("tsdb_header::m_start_tstamp", ">"), ("tsdb_header::m_end_tstamp", "<")):
        def touches(n):
            return n.k == "cmp" and mentions_field(n.ev["e"], fld) or writes_field(n, fld) and n.func.short != "HeaderFile::init_tsdb_header"
        cmps = [n for n in g if touches(n)]
        ctx.ob("range", "%s considered" % fld, bool(cmps) and all(escapes(g, n, touches) is None or reached(g, n, touches) for n in fills),
               cmps[0].loc if cmps else f.loc(), "the time range of the file is not widened for the new page, so range queries skip it")
        for n in g:
            if writes_field(n, fld) and n.func.short != "HeaderFile::init_tsdb_header":
                lhs, rhs = F.c(n, n.ev["lhs"]), F.c(n, n.ev["rhs"])
                ok = F.holds(n, binop(op, lhs, rhs)) or any(s[0] == "c" and short(s[1]) in ("std::min", "std::max") for s in walk(rhs))
                ctx.ob("range", "%s widened" % fld, ok, n.loc, "the time range of the file may be narrowed, so range queries skip earlier pages")
    # header copy
    rec = p.records.get("page_info_on_disk")
    if not rec:
        raise AnalysisError("page_info_on_disk is gone")
    cp = [x for x in p.all("page_info_on_disk::init") if len(x.params) == 1 and "page_info_on_disk" in x.params[0]["t"]]
    if not cp:
        raise AnalysisError("page header copy is gone")
    gg = Graph(p, cp[0])
    for fl in rec["fields"]:
        name = "page_info_on_disk::" + fl["n"]
        ok = any(n.k == "asg" and strip_cast(n.ev["lhs"]) == ("m", ("t",), name, n.ev["lhs"][3]) and any(
            s[0] == "m" and s[2] == name and s[1] != ("t",) for s in walk(n.ev["rhs"])) for n in gg if n.k == "asg" and n.ev["lhs"][0] == "m")
        ok = ok or any(n.k == "call" and is_ext(n, "memcpy") for n in gg) or any(n.k in ("asg", "call") and "operator=" in repr(n.ev.get("e", "")) for n in gg)
        ctx.ob("header-copy", name, ok, cp[0].loc(), "%s is not copied into the header on disk" % name)


def pair(ctx, gg, a, b):
    """a write of a is accompanied by a write of b to the same object on the same path"""
    for n in gg:
        if writes_field(n, a):
            base = strip_cast(n.ev["lhs"])[1]
            def B(m):
                return writes_field(m, b) and strip_cast(m.ev["lhs"])[1] == base
            before = must_before(gg, lambda m: ["x"] if B(m) else [])
            ok = "x" in before[n.id] or escapes(gg, n, B) is None
            ctx.ob("linked", "%s with %s in %s" % (a, b, gg.func.short), ok, n.loc, "%s is written without %s: the reference is torn" % (a, b))


def reached(g, n, B):
    """every path to n passed a B node"""
    return "x" in must_before(g, lambda m: ["x"] if B(m) else [])[n.id]


def base_var(n):
    l = strip_cast(n.ev["lhs"])
    b = strip_cast(l[1])
    while b[0] == "u":
        b = strip_cast(b[2])
    if b[0] == "v" and b[3] == "p" and b[2][0] == 0:
        return "param"
    return None


def is_invalid(n):
    r = strip_cast(n.ev["rhs"])
    return r[0] == "i"


def idx_write_main(n):
    return writes_field(n, "index_entry::header_index", "index_entry::file_index") and n.func.short not in ("IndexFile::expand", "IndexFile::open")


def failed_expand(g, F):
    """stop at returns taken because the index file could not grow (an error exit)"""
    def stop(n):
        if n.k == "ret" and n.func.cls == "IndexFile" and n.ev["e"] is not None and const_of(n.ev["e"]) == 0:
            return True
        return False
    return stop


def from_append(g, n, e, depth=0):
    """does expression e come from DataFile::append?"""
    e = strip_cast(e)
    if e[0] == "c" and short(e[1]) == "DataFile::append":
        return True
    if e[0] == "v" and depth < 6:
        if e[1] == "$ret":
            fr = e[2][0]
            fn = g.framefunc.get(fr)
            return fn is not None and (fn.short == "DataFile::append" or any(
                m.k == "asg" and m.ev["lhs"][:3] == e[:3] and from_append(g, m, m.ev["rhs"], depth + 1) for m in g))
        defs = []
        for m in g:
            if m.k == "decl" and m.ev["id"] == e[2] and m.ev["init"] is not None:
                defs.append(m.ev["init"])
            elif m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == e[2]:
                defs.append(m.ev["rhs"])
        return bool(defs) and all(from_append(g, n, d, depth + 1) for d in defs)
    return False
