"""The append log is replaced atomically and replayed completely."""
from common import *

ASSUMPTIONS = [
    "rename replaces the log in one step; stdio hands everything to the operating system when flushed",
    "data points added after the last append log was written are lost in a crash by design",
]

ENTRY = "append_log_entry"


def check(ctx):
    p = ctx.prog
    ctx.rule("complete-first", "the old log is removed or replaced only after the new one has been written completely and flushed", 2)
    ctx.rule("everything", "the new log holds the pages in memory of every series", 4)
    ctx.rule("registry-first", "the registry of series is flushed before a log that refers to it takes effect", 1)
    ctx.rule("removed-by", "the log is removed only by its replacement, at the end of a clean shutdown, or after it was replayed", 2)
    ctx.rule("fallback", "replay uses the complete log when there is one and the unfinished one only otherwise", 1)
    ctx.rule("replayed", "every entry is read whole: its payload is consumed before the next entry is read, and each is handed to its series", 3)
    ctx.rule("opened", "a log that cannot be opened is not used", 2)
    ctx.rule("layout", "each field written to an entry is the one read back from it", 6)
    ctx.rule("payload", "the size of the payload read equals the size written", 3)
    ctx.rule("before-serving", "the log is replayed at start before logs are written and requests are served", 2)
    w = writer_funcs(p)
    flush(ctx, p, w)
    removal(ctx, p)
    replay(ctx, p)
    layout(ctx, p)
    start(ctx, p)


def is_log(s):
    return s.endswith("append.log")


def is_tmp(s):
    return s.endswith("append.tmp")


def names(g, n):
    out = set()
    for a in args(n):
        out |= literals(g, a)
    return out


def removes(n):
    return is_call(n, "rm_file") or is_ext(n, "remove", "unlink")


def renames(n):
    return is_ext(n, "rename")


def writer_funcs(p):
    """functions that rename the finished file to the log"""
    out = []
    for f in p.funcs.values():
        if not any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]).replace("std::", "") == "rename" for ev in f.events()):
            continue
        g = AGraph(p, f)
        for n in g:
            if renames(n) and any(is_log(s) for s in literals(g, args(n)[1])):
                out.append(f)
                break
    if not out:
        # a log written in place
        for f in p.all("AppendLog::flush_all"):
            out.append(f)
    if not out:
        raise AnalysisError("nothing writes the append log")
    return out


def flush(ctx, p, writers):
    for f in writers:
        ctx.analysed(f)
        near = near_callees(p, f) - {"TimeSeries::append", "PageInMemory::append"}
        g = AGraph(p, f, inline=lambda fn, e, d: fn.short in near or fn.short == "AppendLog::open", maxdepth=4)
        sw = [n for n in g if renames(n) and any(is_log(s) for s in literals(g, args(n)[1]))]
        rm = [n for n in g if removes(n) and any(is_log(s) for s in names(g, n))]
        ctx.ob("complete-first", "log replaced by renaming in %s" % f.short, bool(sw), f.loc(), "the append log is not replaced by a file that was completed first: a crash in between loses it")
        for n in sw:
            ctx.ob("complete-first", "renamed from the temporary file", any(is_tmp(s) for s in literals(g, args(n)[0])), n.loc, "the file renamed to the append log is not the one just written")
        for n in g:
            if is_call(n, "AppendLog::open") or is_ext(n, "open", "fopen"):
                ctx.ob("complete-first", "written to a file of its own", not any(is_log(s) for s in names(g, n)), n.loc, "the append log in place is overwritten before the new one is complete")
        def done(n):
            return is_ext(n, "fclose", "fflush")
        def app(n):
            return is_call(n, "TimeSeries::append")
        for n in sw + rm:
            what = "replaced" if n in sw else "removed"
            ctx.ob("complete-first", "%s after the new log is flushed" % what, preceded(g, n, done), n.loc, "the append log is %s before the new one is complete" % what)
            ctx.ob("complete-first", "%s after the new log is written" % what, paths(g).search([n], app) is None, n.loc, "the append log is %s before all series were written to the new one" % what)
            # everything written is flushed: no series written after the last flush
            r = paths(g).search([m for m in g if app(m)], lambda m: m is n, stop=done)
            ctx.ob("complete-first", "%s after everything is flushed" % what, r is None, n.loc, "the append log is %s while part of the new one is still in a buffer" % what)
            def failed(s, l):
                return any(null_test(e, t) for e, t in truths(l) if opened(g, e))
            ctx.ob("opened", "log %s only if the new one was opened in %s" % (what, f.short),
                   guarded_by_open(g, n), n.loc, "the append log is %s although the new one could not be opened" % what)
        for n in rm:
            r = escapes(g, n, lambda m: m in sw)
            ctx.ob("complete-first", "removed log is replaced", r is None, n.loc, "the append log is removed without being replaced")
        # everything
        def all_ts(m):
            return is_call(m, "Mapping::get_all_ts", "Mapping::get_ts_head")
        ms = [n for n in g if fetches(n, "Mapping *") and loop_of(g, n) and any(all_ts(g.nodes[x]) for x in loop_of(g, n)[1])]
        ctx.ob("everything", "metrics in %s" % f.short, bool(ms) or not any(fetches(n, "Mapping *") for n in g), f.loc(), "metrics are left out of the append log")
        for n in ms:
            ctx.ob("everything", "each metric in %s" % f.short, self_loop(g, n, all_ts) is None and not left_early(g, n, toward=lambda m: m in sw), n.loc, "a metric can be left out of the append log")
        for n in g:
            if fetches(n, "TimeSeries *"):
                ctx.ob("everything", "each series in %s" % f.short, self_loop(g, n, app) is None and not left_early(g, n, toward=lambda m: m in sw), n.loc, "a series can be left out of the append log")
            if app(n) and ms:
                lp = loop_of(g, n)
                ctx.ob("everything", "all series of a metric in %s" % f.short, lp is not None and not any(m.id in lp[1] and loop_of(g, m) == lp for m in ms), n.loc, "only some of a metric's series are written to the append log")
        for n in sw:
            for what, A in (("metrics", lambda m: vec_scan(m, "Mapping *") or mentions_g(m, "g_metric_map")),):
                ctx.ob("everything", "%s gone through in %s" % (what, f.short), preceded(g, n, A), n.loc, "the append log can be replaced by one without any series")
            # a shutdown in progress does not write a partial log
            ctx.ob("registry-first", "registry flushed in %s" % f.short, preceded(g, n, lambda m: is_call(m, "MetaFile::flush", "MetaFile::close")), n.loc,
                   "the new append log takes effect before the registry of the series it refers to is on file: after a crash its entries can't be matched to series")
    for x in p.all("TimeSeries::append"):
        g = AGraph(p, x)
        ctx.analysed(x)
        for fld in ("TimeSeries::m_buff", "TimeSeries::m_ooo_buff"):
            bad = escapes(g, g.entry, lambda n: is_call(n, "PageInMemory::append") and mentions_field(n.ev["e"][2], fld),
                          edge_stop=lambda s, l: any(mentions_field(e, fld) and null_test(e, t) for e, t in truths(l)))
            ctx.ob("everything", "%s written to the log" % fld, bad is None, x.loc(), "a page in memory is left out of the append log")
    for x in p.all("PageInMemory::append"):
        g = AGraph(p, x)
        ctx.analysed(x)
        def empty(s, l):
            return any(t and e[0] == "c" and short(e[1]).endswith("::is_empty") or mentions_field(e, "PageInMemory::m_compressor") and null_test(e, t) and e[0] != "c" for e, t in truths(l))
        def header(n):
            return is_ext(n, "fwrite")
        def payload(n):
            return n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]).endswith("::append") and n.ev["e"][2] is not None and mentions_field(n.ev["e"][2], "PageInMemory::m_compressor")
        ctx.ob("everything", "entry written for a page", escapes(g, g.entry, header, edge_stop=empty) is None and escapes(g, g.entry, payload, edge_stop=empty) is None, x.loc(), "a page in memory is left out of the append log")
        for n in g:
            if payload(n):
                ctx.ob("everything", "entry before payload", preceded(g, n, header), n.loc, "a payload is written without its entry")


def mentions_g(n, name):
    return n.k == "acc" and is_global(n.ev["e"], name)


def opened(g, e):
    e = strip_cast(e)
    if e[0] == "b":
        return opened(g, e[2]) or opened(g, e[3])
    o = origins(g, e)
    return any(x[0] == "c" and short(x[1]).replace("std::", "") in ("fopen", "fdopen", "AppendLog::open") for x in o)


def guarded_by_open(g, n):
    """every path to n crosses a branch on which the opened file is not null"""
    def hit(s, l):
        return any(opened(g, e) and non_null(e, t) for e, t in truths(l))
    return paths(g).search([g.entry], lambda m: m is n, stop_edge=hit) is None


def non_null(e, t):
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("==", "!="):
        if strip_cast(e[3])[0] == "n" or const_of(e[3]) == 0:
            return (e[1] == "!=") == t
        return False
    return e[0] == "v" and t


def removal(ctx, p):
    for f in p.funcs.values():
        if not any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]).replace("std::", "") in ("rm_file", "remove", "unlink", "rename") for ev in f.events()):
            continue
        g = AGraph(p, f)
        for n in g:
            if removes(n):
                nm = names(g, n)
                if any(is_log(s) for s in nm):
                    ok = f.short == "AppendLog::shutdown" or any(renames(m) for m in g) or any(is_call(m, "AppendLog::shutdown") for m in g)
                    if not ok:
                        # helper of the above
                        ce, cr = p.callgraph()
                        ok = set(p.funcs[c].short for c in cr.get(f.id, ()) if c in p.funcs) <= {"AppendLog::shutdown", "AppendLog::flush_all"} and bool(cr.get(f.id))
                    ctx.ob("removed-by", "append.log removed in %s" % f.short, ok, n.loc, "the append log is removed other than by its replacement or at the end of a clean shutdown")
                elif any(is_tmp(s) for s in nm):
                    ok = f.short == "AppendLog::shutdown" or reads_log(g, n)
                    ctx.ob("removed-by", "append.tmp removed in %s" % f.short, ok, n.loc, "the unfinished append log, which may be the only one, is removed before being replayed")


def reads_log(g, n):
    return preceded(g, n, lambda m: is_ext(m, "fread", "fopen") or is_call(m, "AppendLog::restore"))


def replay(ctx, p):
    f = p.get("AppendLog::restore")
    ctx.analysed(f)
    near = near_callees(p, f) - {"TimeSeries::restore", "Tsdb::set_crashes"}
    g = AGraph(p, f, inline=lambda fn, e, d: fn.short in near and fn.file == f.file, maxdepth=3)
    F = Facts(g)
    # fallback: which file is opened
    for n in g:
        if is_ext(n, "fopen"):
            lit = literals(g, args(n)[0])
            ctx.ob("fallback", "both names considered", any(is_log(s) for s in lit) and any(is_tmp(s) for s in lit), n.loc, "one of the two log files is never replayed")
    for e in exprs(g):
        for s in walk(e):
            if s[0] == "?" and mentions_call(s[1], "file_exists", "exists"):
                c = s[1]
                pos = True
                c = strip_cast(c)
                while c[0] == "u" and c[1] == "!":
                    pos = not pos
                    c = strip_cast(c[2])
                if c[0] != "c":
                    continue
                tested = literals(g, c)
                yes, no = (s[2], s[3]) if pos else (s[3], s[2])
                ok = any(is_log(x) for x in tested) and any(is_log(x) for x in literals(g, yes)) and any(is_tmp(x) for x in literals(g, no)) or \
                    any(is_tmp(x) for x in tested) and False
                ctx.ob("fallback", "complete log preferred", ok, f.loc(), "the unfinished append log is replayed although there is a complete one")
    def exists(which, truth):
        return lambda s, l: any(t == truth and e[0] == "c" and mentions_call(e, "file_exists", "exists") and any(which(x) for x in literals(g, e)) for e, t in truths(l))
    opens = [n for n in g if is_ext(n, "fopen")]
    for n in g:
        if n.k == "call" and n.ev["e"][0] == "c" and "::operator=(" in n.ev["e"][1] and n.ev["e"][2] is not None and any(same_var(n.ev["e"][2], v) for o in opens for v in walk(args(o)[0])):
            lit = literals(g, args(n)[0])
            if any(is_log(x) for x in lit) and not any(is_tmp(x) for x in lit):
                ok = reaches_only(g, n, exists(is_log, True)) or reaches_only(g, n, exists(is_tmp, False))
            else:
                ok = reaches_only(g, n, exists(is_log, False))
            ctx.ob("fallback", "complete log preferred", ok, n.loc, "the unfinished append log is replayed although there is a complete one")
    # reading
    reads = [n for n in g if is_ext(n, "fread")]
    if not reads:
        raise AnalysisError("the append log is not read with fread")
    rec = p.records.get(ENTRY)
    if not rec:
        raise AnalysisError("append log entry is gone")
    size = rec["size"]
    def header_read(n):
        if not is_ext(n, "fread"):
            return False
        a = args(n)
        o = origins(g, a[1]) | origins(g, a[2])
        return any(x[0] == "i" and x[1] == size for x in o)
    heads = [n for n in reads if header_read(n)]
    pays = [n for n in reads if not header_read(n)]
    ctx.ob("layout", "size of an entry", bool(heads), f.loc(), "the size read for an entry is not the size of an entry")
    for n in heads:
        r = self_loop(g, n, lambda m: m in pays or m.k == "call" and is_ext(m, "fseek", "fseeko"))
        ctx.ob("replayed", "payload consumed before the next entry", r is None, (r and last_line(r) or n).loc, "the payload of an entry that is skipped is taken for the next entry, and everything after it is misread")
    for n in pays:
        # read ok, series and partition known: restored
        def excused(s, l):
            for e, t in truths(l):
                if mentions_call(e, "std::vector<TimeSeries *>::size") or null_test(e, t) and e[0] == "b" and pointer(e) or short_read(g, e, t):
                    return True
            return False
        r = self_loop(g, n, lambda m: is_call(m, "TimeSeries::restore"), excused)
        ctx.ob("replayed", "each entry handed to its series", r is None, n.loc, "an entry of the append log is not handed to its series")
    # the series is looked up within bounds and not null
    for n in g:
        if is_call(n, "TimeSeries::restore"):
            b = n.ev["e"][2]
            ok = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: any(e[0] == "b" and e[1] in ("==", "!=") and not null_test(e, t) and strip_cast(e[3])[0] == "n" and same_var(e[2], b) or
                                                                                        strip_cast(e) == strip_cast(b) and t for e, t in truths(l))) is None
            ctx.ob("replayed", "series known", ok, n.loc, "an entry of a series missing from the registry crashes the replay")
        if fetches(n, "TimeSeries *") and n.ev["e"][0] == "c" and "operator[]" in n.ev["e"][1]:
            c = F.c(n, n.ev["e"][3][0])
            ok = guarded(g, F, n, lambda fs, s: any(a[0] == "b" and a[1] in ("<", "<=") and any(x[0] == "c" and x[1].endswith("::size") for x in walk(a)) for a in fs))
            ctx.ob("replayed", "series id within the registry", ok, n.loc, "an entry of a series missing from the registry reads past the registry")
        if is_ext(n, "fread"):
            ctx.ob("opened", "log opened before reading", guarded_by_open(g, n), n.loc, "the append log is read although it could not be opened")
    def crash(n):
        return is_call(n, "Tsdb::set_crashes")
    for n in g:
        if is_call(n, "TimeSeries::restore"):
            r = escapes(g, n, crash, edge_stop=lambda s, l: any(e[0] == "b" and null_test(e, t) and "oldest" in repr(e) or null_test(e, t) and tsdb_var(g, e) for e, t in truths(l)))
            ctx.ob("replayed", "partitions marked after a crash", r is None, n.loc, "partitions replayed from the append log are not marked, so their rollups are trusted")


def reaches_only(g, n, edge):
    return paths(g).search([g.entry], lambda m: m is n, stop_edge=edge) is None


def tsdb_var(g, e):
    e = strip_cast(e)
    if e[0] == "b":
        e = strip_cast(e[2])
    return e[0] == "v" and "Tsdb" in str(e[4] if len(e) > 4 else "")


def pointer(e):
    e = strip_cast(e)
    return e[0] == "b" and strip_cast(e[3])[0] == "n"


def same_var(a, b):
    a, b = strip_cast(a), strip_cast(b)
    return a[0] == "v" and b[0] == "v" and a[2] == b[2]


def short_read(g, e, t):
    """a comparison of fread's result that says too little was read"""
    e = strip_cast(e)
    if e[0] != "b" or e[1] not in ("<", "<=", "!=", "==", ">", ">="):
        return False
    def res(x):
        return any(y[0] == "c" and short(y[1]).replace("std::", "") == "fread" for y in origins(g, x))
    if res(e[2]):
        return (e[1] in ("<", "<=", "!=")) == t
    return res(e[3]) and (e[1] in (">", ">=", "!=")) == t


def exprs(g):
    for n in g:
        for e in event_exprs(n):
            yield e


def last_line(r):
    for m in reversed(r):
        if m.line:
            return m
    return r[0]


def layout(ctx, p):
    """fields of an entry: where they come from and where they go"""
    rec = p.records[ENTRY]
    fields = [x["n"] for x in rec["fields"]]
    wf = p.get("PageInMemory::append")
    g = AGraph(p, wf)
    src = {}
    for n in g:
        if n.k == "decl" and n.ev["init"] is not None and n.ev["init"][0] == "il" and ENTRY in n.ev["t"]:
            for name, e in zip(fields, n.ev["init"][1]):
                src[name] = (n, e)
        elif n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["lhs"])[2].startswith(ENTRY + "::") and n.ev["op"] == "=":
            src[strip_cast(n.ev["lhs"])[2].split("::")[1]] = (n, n.ev["rhs"])
    ctx.analysed(wf)
    ctx.ob("layout", "entry filled in", bool(src), wf.loc(), "the entry of a page is not filled in")
    want = {"offset": lambda e: from_field(g, e, "CompressorPosition::m_offset"),
            "start": lambda e: from_field(g, e, "CompressorPosition::m_start"),
            "file_idx": lambda e: from_field(g, e, "page_info_on_disk::m_next_file"),
            "header_idx": lambda e: from_field(g, e, "page_info_on_disk::m_next_header"),
            "tstamp": lambda e: all(x[0] == "c" and short(x[1]) == "Compressor::get_start_tstamp" or x[0] == "m" and x[2].endswith("m_start_tstamp") for x in origins(g, e)),
            "mid": lambda e: is_param(wf, origins(g, e), 0), "tid": lambda e: is_param(wf, origins(g, e), 1)}
    for k, t in want.items():
        if k in src:
            ctx.ob("layout", "%s written" % k, t(src[k][1]), src[k][0].loc, "the entry's %s is not the one the replay expects" % k)
    # position saved after padding, before use
    for n in g:
        if is_ext(n, "fwrite"):
            def saved(m):
                return m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).endswith("::save")
            for m in g:
                if saved(m) and "CompressorPosition" in m.ev["e"][1]:
                    ctx.ob("layout", "position includes the padding", paths(g).search([m], lambda x: x.k == "call" and x.ev["e"][0] == "c" and short(x.ev["e"][1]).endswith("::pad")) is None, m.loc,
                           "the position in the entry is taken before the page is padded")
            ctx.ob("layout", "position taken before it is written", preceded(g, n, saved), n.loc, "the entry is written before the page's position is known")
    # flags
    rf = p.get("AppendLog::restore")
    near = near_callees(p, rf) - {"TimeSeries::restore", "Tsdb::set_crashes"}
    g2 = AGraph(p, rf, inline=lambda fn, e, d: fn.short in near and fn.file == rf.file, maxdepth=3)
    wmask = [const_of(n.ev["rhs"]) for n in g if n.k == "asg" and n.ev["op"] == "|=" and const_of(n.ev["rhs"]) is not None]
    masks = set()
    vmask = set()
    for e in exprs(g2):
        for s in walk(e):
            if s[0] == "b" and s[1] in ("==", "!=") and strip_cast(s[2])[0] == "b" and strip_cast(s[2])[1] == "&":
                m, c = const_of(strip_cast(s[2])[3]), const_of(s[3])
                if m is not None and any(x[0] == "m" and x[2] == ENTRY + "::flags" for x in origins(g2, strip_cast(s[2])[2])):
                    if c == 0 and m not in wmask:
                        vmask.add(m)
                    else:
                        masks.add(m)
    if wmask:
        ctx.ob("layout", "out-of-order flag", masks == set(wmask), p.get("AppendLog::restore").loc(), "the out-of-order flag is written as %s but read as %s" % (wmask, sorted(masks)))
    vers = versions(p)
    if vmask and vers:
        m = max(vmask)
        ctx.ob("layout", "version bits", all(v & m == v for v in vers) and not any(w & m for w in wmask), p.get("AppendLog::restore").loc(), "the bits read as compressor version do not hold every version or overlap with the flag")
    # reading side
    rf = p.get("AppendLog::restore")
    used = set()
    for ev in rf.events():
        for k in ("e", "rhs", "init"):
            if isinstance(ev.get(k), tuple):
                for s in walk(ev[k]):
                    if s[0] == "m" and s[2].startswith(ENTRY + "::"):
                        used.add(s[2].split("::")[1])
    for x in fields:
        if x in src:
            ctx.ob("layout", "%s read back" % x, x in used, rf.loc(), "%s is written to the append log but ignored by the replay" % x)
    # where do they go
    g3 = AGraph(p, rf, inline=lambda fn, e, d: fn.short in ("TimeSeries::restore", "PageInMemory::restore"), maxdepth=4)
    sinks = ctor_sinks(p)
    for n in g3:
        e = n.ev.get("e") if n.ev else None
        if n.k == "ctor" and e[0] == "k" and e[1] == "PageInMemory":
            for idx, fld in sinks.get(e[2], {}).items():
                want_f = ENTRY + ("::file_idx" if fld.endswith("m_next_file") else "::header_idx")
                ctx.ob("layout", "%s restored" % fld, from_field(g3, e[3][idx], want_f), n.loc, "%s of the restored page is not taken from the entry's %s" % (fld, want_f))
        if n.k == "ctor" and e[0] == "k" and e[1] == "CompressorPosition" and len(e[3]) == 2:
            ctx.ob("layout", "position restored", from_field(g3, e[3][0], ENTRY + "::offset") and from_field(g3, e[3][1], ENTRY + "::start"), n.loc, "the position of the restored page is not the one in the log")
        if n.k == "call" and e[0] == "c" and short(e[1]).endswith("::set_start_tstamp"):
            ctx.ob("layout", "start time restored", from_field(g3, e[3][0], ENTRY + "::tstamp"), n.loc, "the start time of the restored page is not the one in the log")
    # out-of-order pages come back as out-of-order pages
    tr = p.get("TimeSeries::restore")
    g4 = AGraph(p, tr)
    ctx.analysed(tr)
    for n in g4:
        if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["rhs"])[0] == "new":
            fld = strip_cast(n.ev["lhs"])[2]
            k = strip_cast(n.ev["rhs"])[2]
            if fld in ("TimeSeries::m_buff", "TimeSeries::m_ooo_buff") and k and k[0] == "k" and len(k[3]) >= 4:
                c = const_of(k[3][3])
                ctx.ob("layout", "%s restored as such" % fld, c is None or bool(c) == fld.endswith("m_ooo_buff"), n.loc, "an out-of-order page is restored as an ordinary one or the other way round")
    # payload
    payload(ctx, p, g2)


def ctor_sinks(p):
    """constructor of PageInMemory -> {argument index: header field it ends up in}"""
    out = {}
    for f in p.all("PageInMemory::<ctor>"):
        g = AGraph(p, f, inline=lambda fn, e, d: fn.short == "PageInMemory::init", maxdepth=3)
        ids = {(0, q["id"]): i for i, q in enumerate(f.params)}
        m = {}
        for n in g:
            if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["lhs"])[2] in ("page_info_on_disk::m_next_file", "page_info_on_disk::m_next_header"):
                for o in origins(g, n.ev["rhs"]):
                    if o[0] == "v" and o[2] in ids:
                        m[ids[o[2]]] = strip_cast(n.ev["lhs"])[2]
        if m:
            out[f.id] = m
    return out


def is_param(f, os, i):
    return bool(os) and all(o[0] == "v" and o[2] == (0, f.params[i]["id"]) for o in os)


def versions(p):
    out = set()
    for f in p.funcs.values():
        if f.short.startswith("Compressor_v") and f.short.endswith("::get_version"):
            for ev in f.events():
                if ev["k"] == "ret" and const_of(ev["e"]) is not None:
                    out.add(const_of(ev["e"]))
    return out


def payload(ctx, p, g):
    """bytes = count * pair size for version 0, offset plus one for a started byte otherwise"""
    rf = p.get("AppendLog::restore")
    w0 = p.all("Compressor_v0::append")
    mult = set()
    for f in w0:
        ctx.analysed(f)
        for ev in f.events():
            if ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]).replace("std::", "") == "fwrite":
                for a in ev["e"][3]:
                    for s in walk(a):
                        if s[0] == "b" and s[1] == "*":
                            for x in (s[2], s[3]):
                                if const_of(x) is not None:
                                    mult.add(const_of(x))
                if const_of(ev["e"][3][1]) not in (None, 1):
                    mult.add(const_of(ev["e"][3][1]))
    rm = set()
    def version0(e, t):
        e = strip_cast(e)
        return e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "==") == t and const_of(e[3]) == 0 and flags(g, e)
    def not0(e, t):
        e = strip_cast(e)
        return e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "!=") == t and const_of(e[3]) == 0 and flags(g, e)
    muls, incs = [], []
    pays = [n for n in g if is_ext(n, "fread") and not any(const_of(x) == p.records[ENTRY]["size"] for x in origins(g, args(n)[1]))]
    for n in g:
        if n.k == "asg" and n.ev["op"] == "*=" and const_of(n.ev["rhs"]) is not None and feeds(g, n, pays):
            muls.append(n)
            rm.add(const_of(n.ev["rhs"]))
        elif n.k == "asg" and n.ev["op"] in ("++", "+=") and feeds(g, n, pays):
            incs.append(n)
    for n in muls:
        ok = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: any(version0(e, t) for e, t in truths(l))) is None
        ctx.ob("payload", "pairs only for version 0", ok, n.loc, "the payload of a compressed page is taken to be uncompressed pairs")
    if muls and mult:
        ctx.ob("payload", "size of a pair", rm == mult, muls[0].loc, "uncompressed data points are written with %s bytes each but read with %s" % (sorted(mult), sorted(rm)))
    for n in incs:
        ok = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: any(not0(e, t) for e, t in truths(l))) is None
        ctx.ob("payload", "started byte only for compressed pages", ok, n.loc, "a byte too many is read for an uncompressed page")
        ok = paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: any(started(g, e, t) for e, t in truths(l))) is None
        ctx.ob("payload", "started byte counted only when there is one", ok, n.loc, "a byte too many is read for a page that ends on a byte boundary")
    if muls or incs:
        # on a path of a compressed page with a started byte the byte is counted
        for n in pays:
            r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m in incs or m in muls, stop_edge=lambda s, l: any(unstarted(g, e, t) for e, t in truths(l)))
            ctx.ob("payload", "started byte counted", r is None, n.loc, "the last, partly used byte of a compressed page is not read")
    for n in pays:
        o = origins(g, args(n)[1]) | origins(g, args(n)[2])
        ctx.ob("payload", "size from the entry", any(x[0] == "m" and x[2] == ENTRY + "::offset" for x in o), n.loc, "the size of the payload does not come from its entry")
    # the writers of bit streams: whole bytes including the started one
    for f in p.all("BitSet::size_in_bytes"):
        ctx.analysed(f)
        g5 = AGraph(p, f)
        m = "BitSet::m_start"
        def whole(s, l):
            for e, t in truths(l):
                e = strip_cast(e)
                if e[0] == "b" and const_of(e[3]) == 0 and mentions_field(e[2], m):
                    if (e[1] == "==") == t if e[1] in ("==", "!=") else not t:
                        return True
                elif e[0] == "m" and e[2] == m and not t:
                    return True
            return False
        def adds(n):
            return n.k == "asg" and n.ev["op"] in ("++", "+=") or any(s[0] in ("b", "?") and mentions_field(s, m) for e in event_exprs(n) for s in walk(e) if n.k != "cmp") or \
                n.k in ("ret", "asg", "decl") and any(s[0] == "b" and s[1] == "+" and const_of(s[3]) in (1, 7) for e in event_exprs(n) for s in walk(e))
        ok = escapes(g5, g5.entry, adds, edge_stop=whole) is None
        ctx.ob("payload", "bit stream rounded up to bytes", ok, f.loc(), "the size of a bit stream is not rounded up to whole bytes")


def flags(g, e):
    return mentions_field(e, ENTRY + "::flags") or any(x[0] == "m" and x[2] == ENTRY + "::flags" for s in walk(e) if s[0] == "v" for x in origins(g, s))


def feeds(g, n, pays):
    v = n.ev["lhs"]
    if v[0] != "v":
        return False
    for m in pays:
        for a in args(m)[1:3]:
            a = strip_cast(a)
            if a[0] == "v" and a[2] == v[2]:
                return True
            if a[0] == "v" and any(strip_cast(d)[0] == "v" and strip_cast(d)[2] == v[2] for d in _d(g, a[2])):
                return True
    return False


def _d(g, k):
    origins(g, ("v", "", k, "l", ""))
    return g._defs.get(k, ())


def started(g, e, t):
    e = strip_cast(e)
    f = ENTRY + "::start"
    if e[0] == "b" and const_of(e[3]) == 0 and from_field(g, e[2], f):
        return (e[1] in ("!=", ">")) == t if e[1] in ("!=", "==", ">") else False
    return e[0] == "v" and t and from_field(g, e, f)


def unstarted(g, e, t):
    e = strip_cast(e)
    f = ENTRY + "::start"
    if e[0] == "b" and const_of(e[3]) == 0 and from_field(g, e[2], f):
        return (e[1] == "==") == t if e[1] in ("!=", "==") else not t
    return e[0] == "v" and not t and from_field(g, e, f)


def start(ctx, p):
    rf = p.get("AppendLog::restore")
    up = callers_up(p, [rf.id])
    inits = [f for f in p.funcs.values() if f.short.split(":")[-1] == "initialize" and f.file == p.get("main").file]
    if not inits:
        raise AnalysisError("start-up sequence not found")
    for f in inits:
        g = AGraph(p, f)
        ctx.analysed(f)
        def replays(n):
            return n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] in up
        ctx.ob("before-serving", "replayed at start", escapes(g, g.entry, replays) is None, f.loc(), "the append log is not replayed at start")
        for n in g:
            if is_call(n, "AppendLog::init", "Timer::start", "Stoppable::start"):
                ctx.ob("before-serving", "replayed before %s" % call_name(n), preceded(g, n, replays), n.loc, "a new append log may be written before the old one was replayed")
    m = p.get("main")
    g = AGraph(p, m)
    for n in g:
        if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]).endswith("Server::start"):
            ctx.ob("before-serving", "replayed before %s" % call_name(n), preceded(g, n, lambda x: x.k == "call" and x.ev["e"][0] == "c" and x.ev["e"][1] in up), n.loc, "requests are served before the append log was replayed")
    # guarded only by the existence of a log
    for c in sorted(p.callgraph()[1].get(rf.id, ())):
        f = p.funcs.get(c)
        if f is None:
            continue
        g = AGraph(p, f)
        ctx.analysed(f)
        bad = escapes(g, g.entry, lambda n: is_call(n, "AppendLog::restore"),
                      edge_stop=lambda s, l: any(t and "::empty(" in repr(e) and "TimeSeries *" in repr(e) or not t and mentions_call(e, "AppendLog::restore_needed") for e, t in truths(l)))
        ctx.ob("before-serving", "replay in %s" % f.short, bad is None, f.loc(), "the append log may not be replayed although there are series")
