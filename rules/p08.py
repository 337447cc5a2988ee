"""A clean shutdown files everything before the append log is removed."""
from common import *

ASSUMPTIONS = [
    "stopping is requested through the signal handler or the admin command, which end the wait for the HTTP server in main",
    "an exception thrown by one of the shutdown steps leaves the append log in place (it is removed by a later step of the same try block)",
]


def check(ctx):
    p = ctx.prog
    ctx.rule("servers-first", "the servers are stopped before the data is shut down", 3)
    ctx.rule("order", "shutdown steps run in order: flag, timer, time series data, rollup data, append log, logger", 4)
    ctx.rule("every-series", "every page held in memory by any series is filed", 4)
    ctx.rule("discard", "a page held in memory is discarded only after it was filed, when it is empty or when it is known to be on disk", 4)
    ctx.rule("every-partition", "every partition has its settings written and its files closed", 4)
    ctx.rule("close", "closing a file writes back what it buffers", 3)
    ctx.rule("rollup", "the current rollup of each series is saved, and rollup files are closed", 3)
    main = p.get("main")
    down = finder(p, lambda ev: ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "AppendLog::shutdown")
    if not down:
        raise AnalysisError("nobody removes the append log at shutdown")
    g = AGraph(p, main, inline=lambda fn, e, d: fn.file == main.file and fn.short.split(":")[-1] not in ("initialize", "process_cmdline_opts"), maxdepth=5)
    ctx.analysed(main)
    def step(*names):
        return lambda n: is_call(n, *names)
    TS = step("Tsdb::shutdown")
    # servers
    serving = [n for n in g if is_call(n, "HttpServer::start", "TcpServer::start", "UdpServer::start")]
    servers = (("HTTP server stopped", lambda n: is_call(n, "TcpServer::wait", "HttpServer::wait") and "http" in str(base_name(n)).lower() or is_call(n, "HttpServer::wait")),
               ("TCP server told to stop", step("TcpServer::shutdown", "Stoppable::shutdown")),
               ("TCP server stopped", lambda n: is_call(n, "TcpServer::wait") and "http" not in str(base_name(n)).lower()),
               ("UDP server stopped", step("UdpServer::shutdown")))
    for what, A in servers:
        for n in g:
            if TS(n):
                r = paths(g).search(serving, lambda m: m is n, stop=A) if serving else None
                ctx.ob("servers-first", what, r is None and serving != [], n.loc, "data is shut down while the server may still be accepting data points")
    # order of steps
    STEPS = [("timer", step("Timer::stop", "Stoppable::stop")), ("time series data", TS), ("rollup data", step("RollupManager::shutdown")), ("append log", step("AppendLog::shutdown"))]
    def flag(n):
        return writes_global(n, "g_shutdown_requested") or n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and is_global(n.ev["e"][2], "g_shutdown_requested") and (
            "operator=" in n.ev["e"][1] or "::store(" in n.ev["e"][1])
    for i in range(1, len(STEPS)):
        name, B = STEPS[i]
        c = 0
        for n in g:
            if B(n):
                c += 1
                prev = STEPS[i - 1]
                ctx.ob("order", "%s before %s" % (prev[0], name), done_before(g, n, prev[1]), n.loc, "%s is shut down although %s may not have completed" % (name, prev[0]))
                if name == "append log":
                    ctx.ob("order", "series filed before the append log is removed", done_before(g, n, TS), n.loc, "the append log is removed although the data may not have been filed")
        ctx.ob("order", "%s shut down" % name, c > 0, main.loc(), "%s is never shut down" % name)
    for n in g:
        if is_call(n, "Timer::stop", "Stoppable::stop"):
            ctx.ob("order", "flag before timer", preceded(g, n, flag), n.loc, "the timer is stopped before tasks are told about the shutdown")
    # after serving, main can't return without shutting down
    for what, B in (("time series data", TS),):
        bad = paths(g).search(serving, lambda m: m.id == g.exit.id, stop=B) if serving else None
        ctx.ob("order", "%s shut down before main ends" % what, bad is None, main.loc(), "main can end without %s being shut down" % what)
    for n in g:
        if is_call(n, "Logger::close"):
            r = paths(g).search([n], lambda m: TS(m) or is_call(m, "RollupManager::shutdown", "AppendLog::shutdown"))
            ctx.ob("order", "logger last", r is None, n.loc, "the logger is closed before the shutdown steps that use it")
    series(ctx, p)
    partitions(ctx, p)
    closing(ctx, p)
    rollup(ctx, p)
    only_there(ctx, p)


def done_before(g, n, A):
    """A has returned normally on every path to n"""
    return paths(g).search([g.entry], lambda m: m is n, stop_edge=lambda s, l: A(s) and not (l and l[0] == "eh"), eh=True) is None


def base_name(n):
    e = n.ev["e"]
    b = e[2] if e[0] == "c" else None
    b = strip_cast(b) if b else None
    while b and b[0] == "u":
        b = strip_cast(b[2])
    return b[1] if b and b[0] == "v" else b


def finder(p, test):
    return [f for f in p.funcs.values() if any(test(ev) for ev in f.events())]


def series(ctx, p):
    f = p.get("Tsdb::shutdown")
    ctx.analysed(f)
    near = near_callees(p, f)
    g = AGraph(p, f, inline=lambda fn, e, d: fn.file == f.file and (fn.cls in ("Tsdb", "Mapping") or fn.short in near and fn.cls != "Metric") and fn.short not in ("Tsdb::write_config",), maxdepth=3)
    def close_ts(n):
        return is_call(n, "TimeSeries::close", "TimeSeries::flush", "TimeSeries::flush_no_lock")
    # every mapping and series
    it = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and ("_Node_iterator" in n.ev["e"][1] or "robin" in n.ev["e"][1]) and "operator++" in n.ev["e"][1]]
    cl = [n for n in g if close_ts(n)]
    ctx.ob("every-series", "series closed at shutdown", bool(cl), f.loc(), "series are not closed when shutting down")
    def seen(n):
        return is_call(n, "Mapping::get_ts_head") or acc_field(n, "Mapping::m_ts_head") or close_ts(n)
    heads = [n for n in it if path_exists(g, n, close_ts)]
    for n in heads:
        ctx.ob("every-series", "each metric's series", self_loop(g, n, seen, None) is None, n.loc, "a metric can be skipped when shutting down")
    nxt = [n for n in g if acc_field(n, "TimeSeries::m_next")]
    for n in nxt:
        ctx.ob("every-series", "each series of a metric", self_loop(g, n, close_ts, None) is None, n.loc, "a series can be skipped when shutting down")
    # before partitions are closed
    for n in g:
        if is_call(n, "Metric::close", "MmapFile::close", "IndexFile::close") :
            r = paths(g).search([n], lambda m: close_ts(m))
            ctx.ob("every-series", "series closed before files", r is None, n.loc, "files are closed while pages still have to be filed into them")
    # TimeSeries::close
    for name in ("TimeSeries::close", "TimeSeries::flush_no_lock"):
        x = p.get(name)
        gg = AGraph(p, x)
        ctx.analysed(x)
        for fld in ("TimeSeries::m_buff", "TimeSeries::m_ooo_buff"):
            def filed(n):
                return is_call(n, "PageInMemory::flush") and mentions_field(n.ev["e"][2], fld)
            def none(s, l):
                return any(mentions_field(e, fld) and null_test(e, t) for e, t in truths(l))
            bad = escapes(gg, gg.entry, filed, edge_stop=none)
            ctx.ob("every-series", "%s filed by %s" % (fld, name), bad is None, x.loc(), "%s leaves a page unfiled" % name)
    # discard
    for x in p.funcs.values():
        if x.file.startswith("include/tsl"):
            continue
        for fld in ("TimeSeries::m_buff", "TimeSeries::m_ooo_buff"):
            if not any(ev["k"] == "del" and mentions_field(ev["e"], fld) or ev["k"] == "asg" and strip_cast(ev["lhs"])[0] == "m" and strip_cast(ev["lhs"])[2] == fld for ev in x.events()):
                continue
            gg = AGraph(p, x)
            ctx.analysed(x)
            for n in gg:
                if n.k == "del" and mentions_field(n.ev["e"], fld):
                    def ok(m):
                        return is_call(m, "PageInMemory::flush") and mentions_field(m.ev["e"][2], fld) or is_call(m, "TimeSeries::flush_no_lock", "TimeSeries::flush", "TimeSeries::close")
                    def known(s, l):
                        for e, t in truths(l):
                            if t and e[0] == "c" and short(e[1]) == "PageInMemory::is_empty" and mentions_field(e[2], fld):
                                return True
                            if t and from_restore(gg, e):
                                return True
                        return False
                    r = paths(gg).search([gg.entry], lambda m: m is n, stop=ok, stop_edge=known)
                    ctx.ob("discard", "%s deleted in %s" % (fld, x.short), r is None or x.short.endswith("<dtor>"), n.loc, "a page with data points is discarded without being filed")
                elif n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["lhs"])[2] == fld and not x.short.endswith("<ctor>"):
                    # replaced: only when there was none
                    def gone(m):
                        return m.k == "del" and mentions_field(m.ev["e"], fld) or is_call(m, "PageInMemory::flush") and mentions_field(m.ev["e"][2], fld)
                    def none(s, l):
                        return any(mentions_field(e, fld) and null_test(e, t) for e, t in truths(l))
                    r = paths(gg).search([gg.entry], lambda m: m is n, stop=gone, stop_edge=none)
                    if x.short == "TimeSeries::restore" or n.func.short == "TimeSeries::init":
                        continue
                    ctx.ob("discard", "%s set in %s" % (fld, x.short), r is None, n.loc, "a page may be dropped by replacing it")
    # filing a page: empty pages only are left out
    x = p.get("PageInMemory::flush")
    gg = AGraph(p, x)
    ctx.analysed(x)
    bad = escapes(gg, gg.entry, lambda n: is_call(n, "Tsdb::append_page"),
                  edge_stop=lambda s, l: any(t and e[0] == "c" and short(e[1]).endswith("::is_empty") for e, t in truths(l)))
    ctx.ob("every-series", "page filed by PageInMemory::flush", bad is None, x.loc(), "a page with data points is not filed")


def from_restore(g, e):
    """e is the result of PageInMemory::restore (data already on disk)"""
    e = strip_cast(e)
    if e[0] == "c":
        return short(e[1]) == "PageInMemory::restore"
    if e[0] == "v":
        ds = [m.ev["rhs"] for m in g if m.k == "asg" and m.ev["lhs"][0] == "v" and m.ev["lhs"][2] == e[2]]
        ds += [m.ev["init"] for m in g if m.k == "decl" and m.ev["id"] == e[2] and m.ev["init"] is not None]
        return bool(ds) and all(strip_cast(d)[0] == "c" and short(strip_cast(d)[1]) == "PageInMemory::restore" for d in ds)
    return False


def partitions(ctx, p):
    f = p.get("Tsdb::shutdown")
    near = near_callees(p, f)
    g = AGraph(p, f, inline=lambda fn, e, d: fn.file == f.file and (fn.cls == "Tsdb" or fn.short in near) and fn.short not in ("Tsdb::write_config", "Tsdb::flush"), maxdepth=3)
    es = [n for n in g if fetches(n, "Tsdb *")]
    if not es:
        ctx.ob("every-partition", "partitions gone through", False, f.loc(), "the partitions are not closed at shutdown")
    for n in es:
        for what, B in (("settings written", lambda m: is_call(m, "Tsdb::write_config")),
                        ("metrics closed", lambda m: vec_scan(m, "Metric *")),
                        ("index closed", lambda m: is_call(m, "MmapFile::close", "IndexFile::close") and mentions_field(m.ev["e"][2], "Tsdb::m_index_file"))):
            r = self_loop(g, n, B, None) or paths(g).search([n], lambda m: m.id == g.exit.id, stop=lambda m: m is not n and B(m))
            ctx.ob("every-partition", what, r is None, n.loc, "a partition can be left out: %s" % what)
    for n in g:
        if fetches(n, "Metric *"):
            r = self_loop(g, n, lambda m: is_call(m, "Metric::close", "Metric::flush"), lambda s, l: any(e[0] == "b" and null_test(e, t) for e, t in truths(l)))
            ctx.ob("every-partition", "each metric closed", r is None, n.loc, "a metric's files can be left out")
    ctx.ob("every-partition", "registry closed", escapes(g, g.entry, lambda m: is_call(m, "MetaFile::close", "MetaFile::flush")) is None, f.loc(), "the registry of series is not written out at shutdown")


def closing(ctx, p):
    """Metric::close closes every file; stdio buffers are written by fclose/fflush"""
    x = p.get("Metric::close")
    g = AGraph(p, x)
    ctx.analysed(x)
    for el in ("DataFile *", "HeaderFile *"):
        def cl(m):
            return m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).endswith("::close") or m.k == "del"
        ctx.ob("close", "%ss gone through by Metric::close" % el[:-2], escapes(g, g.entry, lambda m: vec_scan(m, el)) is None, x.loc(), "%ss are not closed" % el[:-2])
        for n in g:
            if fetches(n, el):
                ctx.ob("close", "each %s closed" % el[:-2], self_loop(g, n, cl, None) is None, n.loc, "a %s can be left open" % el[:-2])
    for name, flds in (("MetaFile::close", ("MetaFile::m_ts_file", "MetaFile::m_metrics_file")), ("DataFile::close", ("DataFile::m_file",)), ("RollupDataFile::close", ("RollupDataFile::m_file",))):
        for x in p.all(name):
            if x.params:
                continue    # closes one side only
            gg = AGraph(p, x, inline=lambda fn, e, d: fn.cls == x.cls, maxdepth=3)
            ctx.analysed(x)
            for fld in flds:
                def none(s, l):
                    return any(mentions_field(e, fld) and null_test(e, t) for e, t in truths(l))
                def B(m):
                    return is_ext(m, "fflush", "fclose") and mentions_field(args(m)[0], fld)
                def other(s, l):
                    # "is the file open for writing?" helpers
                    return none(s, l) or any(not t and e[0] == "c" and short(e[1]).endswith("::is_open") for e, t in truths(l))
                bad = escapes(gg, gg.entry, B, edge_stop=other)
                ctx.ob("close", "%s by %s" % (fld, x.short), bad is None, x.loc(), "%s leaves %s unwritten" % (x.short, fld))


def rollup(ctx, p):
    x = p.get("TimeSeries::close")
    g = AGraph(p, x)
    bad = escapes(g, g.entry, lambda n: is_call(n, "RollupManager::close"))
    ctx.ob("rollup", "current rollup saved by TimeSeries::close", bad is None, x.loc(), "the current rollup of a series is not saved at shutdown")
    x = p.get("RollupManager::close")
    g = AGraph(p, x)
    ctx.analysed(x)
    def nothing(s, l):
        return any(mentions_field(e, "RollupManager::m_cnt", "RollupManager::m_tstamp") and e[0] == "b" and e[1] == "==" and t or mentions_global(e, "RollupManager::m_wal_data_file") and null_g(e, t) for e, t in truths(l))
    bad = escapes(g, g.entry, lambda n: is_call(n, "RollupDataFile::add_data_point"), edge_stop=nothing)
    ctx.ob("rollup", "current rollup saved by RollupManager::close", bad is None, x.loc(), "the current rollup of a series is not saved at shutdown")
    x = p.get("RollupManager::shutdown")
    g = AGraph(p, x)
    ctx.analysed(x)
    for gv in ("RollupManager::m_data_files", "RollupManager::m_data_files2"):
        ok = escapes(g, g.entry, lambda n: reads_global(n, gv) or n.k == "acc" and is_global(n.ev["e"], gv)) is None
        ctx.ob("rollup", "%s closed" % gv, ok, x.loc(), "rollup files are not closed at shutdown")
    dels = [n for n in g if n.k == "del" and "RollupDataFile" in str(n.ev)]
    ctx.ob("rollup", "rollup files closed", len(dels) >= 3 or sum(1 for n in g if is_call(n, "RollupDataFile::close")) >= 3 or len(dels) + sum(1 for n in g if is_call(n, "RollupDataFile::close")) >= 3,
           x.loc(), "rollup files are not closed at shutdown")
    for d in p.all("RollupDataFile::<dtor>"):
        gg = AGraph(p, d, inline=lambda fn, e, dd: fn.cls == "RollupDataFile", maxdepth=3)
        ctx.analysed(d)
        def none(s, l):
            return any(mentions_field(e, "RollupDataFile::m_file") and null_test(e, t) for e, t in truths(l))
        bad = escapes(gg, gg.entry, lambda m: is_ext(m, "fclose", "fflush") and mentions_field(args(m)[0], "RollupDataFile::m_file"), edge_stop=none)
        ctx.ob("rollup", "rollup file written when destroyed", bad is None, d.loc(), "a rollup file is destroyed without being written out")


def null_g(e, t):
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("==", "!=") and strip_cast(e[3])[0] == "n":
        return (e[1] == "==") == t
    return e[0] == "v" and not t


def only_there(ctx, p):
    """AppendLog::shutdown and Tsdb::shutdown are called only at the end of main"""
    ce, cr = p.callgraph()
    for name in ("AppendLog::shutdown", "Tsdb::shutdown"):
        f = p.get(name)
        for c in cr.get(f.id, ()):
            h = p.funcs.get(c)
            if h is None:
                continue
            ctx.ob("order", "%s called by %s" % (name, h.short), h.file == p.get("main").file, h.loc(), "%s is called outside the end of main" % name)
