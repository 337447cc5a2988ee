"""Check points are persisted only after the data received before them."""
from common import *

ASSUMPTIONS = [
    "data points are considered stored once they are handed to their time series; pages still in memory are covered by the append log",
    "the flushing of one mapped file by the operating system is trusted",
]

CP = "CheckPointManager::"
PARTS = ("Tsdb::purge_oldest", "RollupManager::rotate", "Tsdb::unload_if_idle", "Metric::rotate")


def check(ctx):
    p = ctx.prog
    ctx.rule("snapshot-first", "the snapshot of the check points is taken before the partitions to be flushed are collected and flushed", 2)
    ctx.rule("flushed", "between snapshot and persisting, every partition that is not archived has its metrics and index flushed", 4)
    ctx.rule("cut-short", "a rotation cut short by a shutdown does not persist the snapshot", 1)
    ctx.rule("publish", "check points are published as persisted only from the snapshot and only after it was written to a file", 1)
    ctx.rule("snapshot", "the snapshot is only ever a copy of the check points received", 1)
    ctx.rule("reported", "only persisted check points are reported to clients", 1)
    ctx.rule("stored-first", "data points of a request are stored before a check point that follows them is accepted", 2)
    ctx.rule("file", "check point files: every entry is written, older files are removed only after the new one is complete, and at start the newest is loaded", 3)
    ctx.rule("format", "the fields written to the file are those read back", 0)
    persisters(ctx, p)
    publish(ctx, p)
    reported(ctx, p)
    stored_first(ctx, p)
    files(ctx, p)


def snap_write(n):
    return writes_global(n, CP + "m_snapshot")


def pub_write(n):
    return writes_global(n, CP + "m_persisted")


def persisters(ctx, p):
    """functions outside the manager that make it persist"""
    ce, cr = p.callgraph()
    pub = [f for f in p.funcs.values() if any(ev["k"] == "acc" and "w" in ev["rw"] and is_global(ev["e"], CP + "m_persisted") for ev in f.events())]
    if not pub:
        raise AnalysisError("nothing publishes persisted check points")
    roots = set()
    todo = [f.id for f in pub]
    seen = set(todo)
    while todo:
        x = todo.pop()
        for c in cr.get(x, ()):
            f = p.funcs.get(c)
            if f is None or c in seen:
                continue
            seen.add(c)
            if f.cls == "CheckPointManager":
                todo.append(c)
            else:
                roots.add(c)
    if not roots:
        raise AnalysisError("nobody persists check points")
    cpf = set(f.short for f in p.funcs.values() if f.cls == "CheckPointManager")
    for r in sorted(roots):
        f = p.funcs[r]
        ctx.analysed(f)
        near = near_callees(p, f, PARTS)
        g = AGraph(p, f, inline=lambda fn, e, d: fn.short in cpf or fn.short in near, maxdepth=6)
        pubs = [n for n in g if pub_write(n)]
        for n in pubs:
            ctx.ob("snapshot-first", "persist in %s" % f.short, preceded(g, n, snap_write), n.loc, "check points are persisted without a snapshot having been taken")
        if any(f.short == c or c in near for c in ("Tsdb::shutdown",)) or not any(is_call(n, "Tsdb::insts") for n in g):
            shutdown_order(ctx, p, f, g, pubs)
            continue
        snaps = [n for n in g if snap_write(n)]
        # the partitions are collected after the snapshot
        for n in g:
            if is_call(n, "Tsdb::insts") and paths(g).search([n], lambda m: m in pubs) is not None:
                ctx.ob("snapshot-first", "partitions collected in %s" % f.short, preceded(g, n, snap_write), n.loc,
                       "a partition created between collecting the partitions and the snapshot is not flushed although its check points are persisted")
        for n in pubs:
            ok = paths(g).search(snaps, lambda m: m is n, stop=lambda m: vec_scan(m, "Tsdb *")) is None
            ctx.ob("flushed", "partitions gone through in %s" % f.short, ok, n.loc, "check points are persisted without going through the partitions after the snapshot")
        elems(ctx, p, f, g, pubs)
        # after noticing the shutdown, persisting is out of reach
        starts = []
        for n in g:
            for s, l in n.succ:
                if edge_is(l, shutdown_flag, True) and preceded(g, n, snap_write):
                    starts.append(g.nodes[s])
        if starts:
            r = paths(g).search(starts, lambda m: m in pubs, stop_edge=lambda s, l: edge_is(l, shutdown_flag, False))
            ctx.ob("cut-short", "shutdown noticed in %s" % f.short, r is None, (r or starts)[0].loc or f.loc(),
                   "when shutdown interrupts the flushing, check points of data not yet flushed are persisted")
        else:
            ctx.ob("cut-short", "no early end in %s" % f.short, True, f.loc(), "")


def flush_metrics(n):
    return is_call(n, "Metric::flush", "Tsdb::flush")


def flush_index(n):
    return is_call(n, "Tsdb::flush") or n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]).endswith("::flush") \
        and n.ev["e"][2] is not None and mentions_field(n.ev["e"][2], "Tsdb::m_index_file")


def archived_test(p):
    """the test that a partition is archived, also when written out"""
    bits = set()
    for f in p.all("Tsdb::is_archived"):
        bits |= masks(e for ev in f.events() for e in ev.values() if isinstance(e, tuple))
    def test(e):
        return mentions_call(e, "Tsdb::is_archived") or mentions_field(e, "Tsdb::m_mode") and (not bits or masks([e]) == bits)
    return test


def masks(es):
    out = set()
    for e in es:
        for s in walk(e):
            if s[0] == "b" and s[1] == "&":
                out |= set(c for c in (const_of(s[2]), const_of(s[3])) if c is not None)
    return out


def elems(ctx, p, f, g, pubs):
    archived = archived_test(p)
    es = [n for n in g if fetches(n, "Tsdb *") and paths(g).search([n], lambda m: m in pubs) is not None]
    def skip(s, l):
        return edge_is(l, shutdown_flag, True) or any(archived(e) for e, t in truths(l) if t)
    for n in es:
        r = paths(g).search([n], lambda m: m in pubs or m is not n and m in es, stop=lambda m: m is not n and flush_index(m), stop_edge=skip) \
            or self_loop(g, n, flush_index, skip)
        ctx.ob("flushed", "index of each partition in %s" % f.short, r is None, n.loc, "a partition's index is not flushed before the check points are persisted")
        # metrics: the loop over them is entered, and each one is flushed
        def scan(m):
            return vec_scan(m, "Metric *") or is_call(m, "Tsdb::flush")
        r = paths(g).search([n], lambda m: m in pubs or m is not n and m in es, stop=lambda m: m is not n and scan(m), stop_edge=skip) or self_loop(g, n, scan, skip)
        ctx.ob("flushed", "metrics of each partition in %s" % f.short, r is None, n.loc, "a partition's metrics are not gone through before the check points are persisted")
    each_metric(ctx, f, g, pubs)
    if not es:
        ctx.ob("flushed", "partitions in %s" % f.short, False, f.loc(), "no partition is flushed before the check points are persisted")


def each_metric(ctx, f, g, pubs=None):
    for n in g:
        if fetches(n, "Metric *"):
            if pubs and path_exists(g, n, lambda m: m in pubs) is None:
                continue
            def null(s, l):
                return any(e[0] == "b" and e[1] == "==" and t and strip_cast(e[3])[0] == "n" or e[0] == "b" and e[1] == "!=" and not t and strip_cast(e[3])[0] == "n" for e, t in truths(l))
            r = self_loop(g, n, flush_metrics, null)
            ctx.ob("flushed", "each metric in %s" % f.short, r is None, n.loc, "a metric can be skipped without being flushed")


def shutdown_order(ctx, p, f, g, pubs):
    """Tsdb::shutdown: all partitions flushed before the last snapshot is persisted"""
    for n in pubs:
        ok = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: vec_scan(m, "Tsdb *")) is None
        ctx.ob("flushed", "partitions gone through in %s" % f.short, ok, n.loc, "check points are persisted before the partitions are gone through")
    es = [n for n in g if fetches(n, "Tsdb *")]
    for n in es:
        for what, B in (("metrics", flush_metrics), ("index", flush_index)):
            r = paths(g).search([n], lambda m: m in pubs, stop=lambda m: m is not n and B(m)) or self_loop(g, n, B, None)
            ctx.ob("flushed", "%s of each partition in %s" % (what, f.short), r is None, n.loc, "a partition's %s may not be flushed before the check points are persisted" % what)
        ctx.ob("flushed", "no flush after persisting in %s" % f.short, path_exists_any(g, pubs, n) is None, n.loc, "partitions are flushed after the check points were persisted")
    if not es:
        ctx.ob("flushed", "partitions in %s" % f.short, False, f.loc(), "no partition is flushed before the check points are persisted")
    fl = p.all("Tsdb::flush")
    for x in fl:
        gg = AGraph(p, x)
        ctx.analysed(x)
        bad = escapes(gg, gg.entry, lambda m: flush_index(m))
        ctx.ob("flushed", "index in %s" % x.short, bad is None, x.loc(), "the index is not flushed")
        bad = escapes(gg, gg.entry, lambda m: vec_scan(m, "Metric *"))
        ctx.ob("flushed", "metrics in %s" % x.short, bad is None, x.loc(), "the metrics are not flushed")
        each_metric(ctx, x, gg)
    for x in p.all("Metric::flush"):
        gg = AGraph(p, x)
        ctx.analysed(x)
        for n in gg:
            if fetches(n, "HeaderFile *"):
                def B(m):
                    return m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).endswith("::flush")
                ctx.ob("flushed", "each header file in %s" % x.short, self_loop(gg, n, B, None) is None and path_exists(gg, n, B) is not None, n.loc, "a header file is not flushed")
        bad = escapes(gg, gg.entry, lambda m: vec_scan(m, "HeaderFile *"))
        ctx.ob("flushed", "header files in %s" % x.short, bad is None, x.loc(), "the header files are not gone through")
    for x in p.all("MmapFile::flush"):
        gg = AGraph(p, x)
        F = Facts(gg)
        ctx.analysed(x)
        def closed(s, l):
            return any(mentions_field(e, "MmapFile::m_pages") for e, t in truths(l) if (e[0] == "b" and e[1] == "==" and t) or (e[0] == "b" and e[1] == "!=" and not t) or (e[0] == "m" and not t))
        bad = escapes(gg, gg.entry, lambda m: is_ext(m, "msync"), edge_stop=closed)
        ctx.ob("flushed", "mapped file written back", bad is None, x.loc(), "a mapped file is not written back when flushed")


def path_exists_any(g, starts, n):
    return paths(g).search(starts, lambda m: m is n) if starts else None


def publish(ctx, p):
    for f in p.funcs.values():
        if not any(ev["k"] == "acc" and "w" in ev["rw"] and is_global(ev["e"], CP + "m_persisted", CP + "m_snapshot") for ev in f.events()):
            continue
        ctx.analysed(f)
        g = AGraph(p, f, inline=lambda fn, e, d: fn.cls == "CheckPointManager", maxdepth=4)
        for n in g:
            if n.frame != 0:
                continue
            if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and is_global(n.ev["e"][2], CP + "m_persisted", CP + "m_snapshot"):
                name = n.ev["e"][2][1]
                m = short(n.ev["e"][1]).rsplit("::", 1)[-1]
                src = CP + ("m_snapshot" if name.endswith("m_persisted") else "m_cps")
                if m == "operator=":
                    ok = is_global(args(n)[0], src) or mentions_global(args(n)[0], src)
                    ctx.ob("publish" if src.endswith("snapshot") else "snapshot", "%s assigned in %s" % (name, f.short), ok, n.loc,
                           "check points other than the snapshot are published as persisted" if src.endswith("snapshot") else "the snapshot is not a copy of the check points received")
                elif m in ("insert", "emplace", "operator[]", "swap", "merge"):
                    ctx.ob("publish" if src.endswith("snapshot") else "snapshot", "%s changed in %s" % (name, f.short), False, n.loc, "%s is changed other than by copying it as a whole" % name)
            if pub_write(n) and n.k == "acc":
                def none(s, l):
                    return any(t and mentions_global(e, CP + "m_snapshot") and "::empty(" in repr(e) for e, t in truths(l))
                r = paths(g).search([g.entry], lambda m: m is n, stop=lambda m: is_ext(m, "fflush", "fclose") or m.k == "call" and "ofstream" in repr(m.ev["e"][1]) and "close" in repr(m.ev["e"][1]), stop_edge=none)
                if any(x.k == "call" and x.ev["e"][0] == "c" and short(x.ev["e"][1]).endswith("::clear") and x.ev["e"][2] == n.ev["e"] for x in g):
                    r = None
                ctx.ob("publish", "published after writing in %s" % f.short, r is None, n.loc, "check points are published as persisted although they may not have been written to a file")


def reported(ctx, p):
    f = p.get(CP + "get_persisted")
    ce, cr = p.callgraph()
    seen, todo = {f.id}, [f.id]
    reads = set()
    while todo:
        x = todo.pop()
        fn = p.funcs[x]
        if fn.cls != "CheckPointManager":
            continue
        ctx.analysed(fn)
        for ev in fn.events():
            if ev["k"] == "acc" and ev["e"][0] == "v" and ev["e"][3] == "g" and ev["e"][1].startswith(CP):
                reads.add(ev["e"][1])
        for c in ce.get(x, ()):
            if c in p.funcs and c not in seen:
                seen.add(c)
                todo.append(c)
    ctx.ob("reported", "check points reported to clients", CP + "m_persisted" in reads and CP + "m_cps" not in reads and CP + "m_snapshot" not in reads, f.loc(),
           "check points that have not been persisted are reported to clients")
    # only that function reports
    for fn in p.funcs.values():
        if fn.cls != "CheckPointManager" and any(ev["k"] == "acc" and ev["e"][0] == "v" and ev["e"][3] == "g" and ev["e"][1].startswith(CP) for ev in fn.events()):
            ctx.ob("reported", "check points used in %s" % fn.short, False, fn.loc(), "check points are used outside their manager")


def stored_first(ctx, p):
    add = p.get(CP + "add")
    ce, cr = p.callgraph()
    parse = ("DataPoint::from_plain", "DataPoint::from_http", "Tsdb::parse_line", "Tsdb::parse_line_safe", "DataPoint::from_json")
    store = ("Tsdb::add_data_point", "Tsdb::add_data_points", "Tsdb::add")
    for c in sorted(cr.get(add.id, ())):
        f = p.funcs.get(c)
        if f is None or f.cls == "CheckPointManager":
            continue
        near = near_callees(p, f)
        g = AGraph(p, f, inline=lambda fn, e, d: fn.short in near and fn.short not in parse and fn.short not in store, maxdepth=4)
        ctx.analysed(f)
        ps = [n for n in g if is_call(n, *parse)]
        for n in ps:
            def failed(s, l):
                # the parse failed, or found no data point
                for e, t in truths(l):
                    e = strip_cast(e)
                    if e[0] == "c" and e[-1] == n.ev["e"][-1] and not t:
                        return True
                    if e[0] == "b" and e[1] in ("==", "!=") and (e[1] == "==") == t and strip_cast(e[3])[0] == "n" and mentions_var(e[2], "measurement"):
                        return True
                return False
            r = paths(g).search([n], lambda m: m is not n and is_call(m, CP + "add"), stop=lambda m: m is not n and is_call(m, *store), stop_edge=failed)
            ctx.ob("stored-first", "%s in %s" % (call_name(n), f.short), r is None, n.loc, "a check point following a data point is accepted before the data point is stored")


def depth(g, e):
    """1: key of the outer map, 2: key of the inner map, 3: its value; 0: don't know"""
    for x in [e] + list(origins(g, e)):
        for s in walk(x):
            if s[0] == "m" and s[2].endswith("::second") and "basic_string" in repr(s[2]) + str(s[3] if len(s) > 3 else "") and "unordered_map" not in str(s[3] if len(s) > 3 else ""):
                return 3
            if s[0] == "m" and s[2].endswith("::first"):
                return 1 if "unordered_map" in s[2] or "map<" in s[2] else 2
    return 0


def files(ctx, p):
    w = [f for f in p.funcs.values() if f.cls == "CheckPointManager" and any(
        ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) in ("fprintf", "std::fprintf", "fputs", "fwrite") for ev in f.events())]
    a = p.get(CP + "add")
    for f in w:
        g = AGraph(p, f)
        ctx.analysed(f)
        def out(n):
            return is_ext(n, "fprintf", "fputs", "fwrite")
        def entry(n, pat="std::basic_string<char>>, false"):
            return n.k == "call" and n.ev["e"][0] == "c" and "_Node_iterator<std::pair<const char *const, std::basic_string<char>>" in n.ev["e"][1] and "operator++" in n.ev["e"][1]
        incs = [n for n in g if entry(n)]
        for n in incs:
            r = self_loop(g, n, out, None)
            ctx.ob("file", "every entry written by %s" % f.short, r is None, n.loc, "an entry of the snapshot may be left out of the file")
        def removal(n):
            return is_call(n, "rotate_files") or is_ext(n, "remove", "unlink", "rename") and n.k == "call"
        for n in g:
            if removal(n):
                ctx.ob("file", "older files removed in %s" % f.short, preceded(g, n, lambda m: is_ext(m, "fflush", "fclose")), n.loc, "older check point files are removed before the new one is complete")
                if is_call(n, "rotate_files"):
                    k = const_of(args(n)[1])
                    ctx.ob("file", "files kept in %s" % f.short, k is None or k >= 1, n.loc, "the check point file just written is removed")
            if n.k == "acc" and is_global(n.ev["e"], CP + "m_cps", CP + "m_persisted"):
                ctx.ob("file", "only the snapshot is written by %s" % f.short, False, n.loc, "check points other than those in the snapshot are written to the file: data before them may not have been flushed")
            if is_ext(n, "fprintf"):
                order = [depth(g, x) for x in args(n)[2:]]
                ctx.ob("format", "order of fields", order == [1, 2, 3] or len(order) != 3 or 0 in order, n.loc, "leader, channel and check point are not written in the order in which they are read")
                fm = strip_cast(args(n)[1])
                if fm[0] == "s":
                    tok = [x for ev in a.events() for x in [ev] if ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "tokenize"]
                    seps = set(const_of(s) for t in tok for s in t["e"][3] if const_of(s) is not None)
                    parts = fm[1].rstrip("\n").split(":")
                    ctx.ob("format", "separator", not seps or ord(":") in seps and len(parts) == 3, n.loc, "check points are written in a form that cannot be read back")
                    ctx.ob("format", "end of line", fm[1].endswith("\n"), n.loc, "check points are written in a form that cannot be read back line by line")
    f = p.get(CP + "init")
    g = AGraph(p, f)
    ctx.analysed(f)
    ctx.ob("file", "the newest file is loaded", any(is_call(n, "last_file") for n in g), f.loc(), "the newest check point file is not looked for at start")
    for n in g:
        if is_ext(n, "getline") or n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) == "std::getline":
            r = self_loop(g, n, lambda m: is_call(m, CP + "add"), None)
            ctx.ob("file", "every line loaded", r is None, n.loc, "a line of the check point file is skipped at start")
    ce, cr = p.callgraph()
    up, todo = {f.id}, [f.id]
    while todo:
        for c in cr.get(todo.pop(), ()):
            if c not in up:
                up.add(c)
                todo.append(c)
    mains = [x.id for x in p.funcs.values() if x.short in ("main", "tt::main") or x.short.endswith(":initialize") or x.short == "initialize"]
    ctx.ob("file", "loaded at start", any(m in up for m in mains), f.loc(), "check points are not loaded at start")
