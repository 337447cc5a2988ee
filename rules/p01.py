"""Shared state is only touched under its lock."""
from ir import *
from flow import *
from locks import Locks

ASSUMPTIONS = [
    "start-up (everything reachable only from main before threads start, and the start-up loader callbacks) and the final "
    "shutdown sequence in main run single-threaded",
    "a lock is identified by the field holding it; a lock inherited from a caller is accepted without matching the object",
    "objects still private to their constructor are not shared",
]

# field -> lock that protects it.  Confirmed by reading every access.
GUARDS = {
    "Tsdb::m_tsdbs": "Tsdb::m_tsdb_lock",
    "g_metric_map": "g_metric_lock",
    "Mapping::m_map": "Mapping::m_lock",
    "Mapping::m_ts_head": "Mapping::m_ts_lock",
    "Metric::m_data_files": "Metric::m_lock",
    "Metric::m_header_files": "Metric::m_lock",
    "Tsdb::m_metrics": "Tsdb::m_metrics_lock",
    "Measurement::m_time_series": "Measurement::m_lock",
    "Measurement::m_ts_count": "Measurement::m_lock",
    "TimeSeries::m_buff": "TimeSeries::m_locks",
    "TimeSeries::m_ooo_buff": "TimeSeries::m_locks",
    "TimeSeries::m_rollup": "TimeSeries::m_locks",
    "RollupManager::m_data_files": "RollupManager::m_lock",
    "RollupManager::m_data_files2": "RollupManager::m_lock2",
    "RollupManager::m_configs": "RollupManager::m_cfg_lock",
    "RollupManager::m_sizes": "RollupManager::m_size_lock",
    "RollupManager::m_size_hint": "RollupManager::m_size_lock",
    "RollupDataFile::m_buff": "MmapFile::m_lock",
    "RollupDataFile::m_index": "MmapFile::m_lock",
    "RollupDataFile::m_file": "MmapFile::m_lock",
    "RollupDataFile::m_size": "MmapFile::m_lock",
    "Tag_v2::m_map": "Tag_v2::m_lock",
    "Tag_v2::m_names": "Tag_v2::m_lock",
    "Tag_v2::m_names_capacity": "Tag_v2::m_lock",
    "Tag_v2::m_next_id": "Tag_v2::m_lock",
    "TcpListener::m_all_conn_map": "TcpListener::m_lock",
    "CheckPointManager::m_cps": "CheckPointManager::m_lock",
    "CheckPointManager::m_snapshot": "CheckPointManager::m_lock",
    "CheckPointManager::m_persisted": "CheckPointManager::m_lock",
    "MemoryManager::m_free_lists": "MemoryManager::m_locks",
    "MemoryManager::m_network_buffer_free_list": "MemoryManager::m_network_lock",
    "MemoryManager::m_network_buffer_small_free_list": "MemoryManager::m_network_small_lock",
    "Stats::m_dps_head": "Stats::m_lock",
    "Stats::m_dps_tail": "Stats::m_lock",
    "Calendar::m_months": "Calendar::m_lock",
    "Tsdb::BucketBalancer::m_page_counts": "Tsdb::BucketBalancer::m_lock",
    "Timer::m_new_tasks": "Timer::m_lock",
    "Config::m_properties": "Config::m_lock",
    "Config::m_overrides": "Config::m_lock",
    "MetaFile::m_ts_file": "MetaFile::m_lock",
    "MetaFile::m_metrics_file": "MetaFile::m_lock",
    "PartitionServer::m_buffers": "PartitionServer::m_lock",
    "DataFile::m_offset": "Metric::m_lock",
    "Logger::m_stream": "Logger::m_lock",
    "CountingSignal::m_count": "CountingSignal::m_mutex",
    "index_entry::file_index": "MmapFile::m_lock",
    "index_entry::header_index": "MmapFile::m_lock",
    "index_entry::file_index2": "MmapFile::m_lock",
    "index_entry::header_index2": "MmapFile::m_lock",
    "index_entry::flags": "MmapFile::m_lock",
    "tsdb_header::m_page_index": "Metric::m_lock",
    "tsdb_header::m_header_index": "Metric::m_lock",
    "tsdb_header::m_actual_pg_cnt": "Metric::m_lock",
}

# objects owned by a holder that has its own lock: base object need not match
LOOSE_BASE = {"DataFile::m_offset", "TimeSeries::m_buff", "TimeSeries::m_ooo_buff", "TimeSeries::m_rollup",
              "index_entry::file_index", "index_entry::header_index", "index_entry::file_index2",
              "index_entry::header_index2", "index_entry::flags", "tsdb_header::m_page_index",
              "tsdb_header::m_header_index", "tsdb_header::m_actual_pg_cnt"}

# (field, function) pairs confirmed to be right without the lock
EXEMPT = {
    ("RollupDataFile::m_size", "RollupDataFile::size"): "only asked of a file that was just closed as idle and is unreferenced, under the manager's lock",
    ("RollupDataFile::m_index", "RollupDataFile::empty"): "a single int read as a hint; a file that holds only buffered data is queried through the time series",
    ("Tsdb::m_metrics", "Tsdb::reload_header_data_files"): "runs on a partition nobody references: new, or being compacted with a reference count of zero",
    ("Tsdb::m_metrics", "Tsdb::unload_no_lock"): "runs on a partition nobody references, with the partition's lock held",
    ("Tsdb::m_metrics", "Tsdb::flush"): "runs on a partition nobody references, with the partition's lock held",
    ("Tsdb::m_metrics", "Tsdb::get_header_file_no_lock"): "the vector is reserved up front and its entries never change while referenced; the caller holds the metric's lock, which comes after the list's lock",
}


def fld(e):
    return e[2] if e[0] == "m" else e[1]


def check(ctx):
    p = ctx.prog
    K = ctx.locks
    ctx.rule("guarded", "every access to a lock-protected field by code that can run concurrently happens with that lock held, exclusively for modifications", 250)
    ctx.rule("recheck", "an insertion into a table shared under a lock follows a lookup made in the same exclusive critical section", 3)
    exempt_fn = {}
    for (f, fn), why in EXEMPT.items():
        exempt_fn.setdefault(f, set()).add(fn)
    missing = 0
    seen = set()
    for fid, L in K.fl.items():
        f = L.f
        if fid not in K.concurrent:
            continue
        for n in L.g:
            if n.k not in ("acc", "init"):
                continue
            if n.k == "init":
                continue
            nm = fld(n.ev["e"])
            if nm not in GUARDS:
                continue
            seen.add(nm)
            if n.func.kind in ("ctor", "dtor") and n.ev["e"][0] == "m" and n.ev["e"][1] == ("t",) and n.func.cls == nm.rsplit("::", 1)[0]:
                continue
            if is_exempt(K, f, exempt_fn.get(nm, ())):
                continue
            lock = GUARDS[nm]
            need = "x" if n.ev["rw"] in ("w", "rw") else "r"
            ok, why = held_ok(K, L, n, nm, lock, need)
            ctx.analysed(f)
            ctx.ob("guarded", "%s:%s in %s" % (nm, "write" if need == "x" else "read", f.short), ok, f.loc(n.line),
                   "%s %s without %s%s" % (nm, "modified" if need == "x" else "read", lock, why))
    if len(seen) < len(GUARDS) - 8:
        raise AnalysisError("only %d of %d guarded fields are found" % (len(seen), len(GUARDS)))
    recheck(ctx, K)


def is_exempt(K, f, names, depth=0, seen=None):
    """f is exempt, or is a helper reached only from exempt functions"""
    if not names:
        return False
    if f.short in names:
        return True
    if depth > 3:
        return False
    seen = seen or set()
    if f.id in seen:
        return False
    seen = seen | {f.id}
    cs = [CL for (CL, n, e) in K.sites.get(f.id, ()) if CL.f.id in K.concurrent]
    if not cs or f.id in K.thread_roots:
        return False
    return all(is_exempt(K, CL.f, names, depth + 1, seen) for CL in cs)


def held_ok(K, L, n, nm, lock, need):
    e = n.ev["e"]
    if e[0] == "m":
        b = K.c(L, n, e[1])
        while b[0] == "u" and b[1] in ("*", "&"):
            b = b[2]
        if K.private(L, n, b):
            return True, ""
    held = [h for h in K.held_at(L, n) if h[0] == lock]
    if not held:
        return False, ""
    if need == "x":
        held = [h for h in held if h[3] == "x"]
        if not held:
            return False, " held exclusively (only shared)"
    e = n.ev["e"]
    if e[0] == "m" and nm not in LOOSE_BASE:
        b = K.c(L, n, e[1])
        while b[0] == "u" and b[1] in ("*", "&"):
            b = b[2]
        for h in held:
            if h[1] is None or h[1] == ("other",) or h[1] == b:
                return True, ""
        return False, " of the same object (held: that of another object)"
    # arrays of locks: the index must match
    if held[0][2] is not None and nm == "MemoryManager::m_free_lists":
        # find the subscript this access is part of
        idx = subscript_of(K, L, n)
        if idx is not None:
            for h in held:
                if h[2] == idx[0] or h[2] == ("idx",) or idx[1] == L.rawidx.get(h[4], 0):
                    return True, ""
            return False, " of the same index"
    return True, ""


def subscript_of(K, L, n):
    """canonical index with which the array accessed at n is subscripted"""
    g = L.g
    x = n
    for _ in range(6):
        if len(x.succ) != 1:
            return None
        x = g.nodes[x.succ[0][0]]
        if x.k == "sub" and x.ev["e"][1] == n.ev["e"]:
            return K.c(L, x, x.ev["e"][2]), x.ev["e"][2]
    return None


# tables where a miss leads to creation of the entry
TABLES = {"Mapping::m_map": "Mapping::m_lock", "g_metric_map": "g_metric_lock", "Tag_v2::m_map": "Tag_v2::m_lock",
          "Tsdb::m_tsdbs": "Tsdb::m_tsdb_lock", "RollupManager::m_data_files": "RollupManager::m_lock",
          "RollupManager::m_data_files2": "RollupManager::m_lock2", "RollupManager::m_configs": "RollupManager::m_cfg_lock"}
LOOKUPS = {"find", "count", "search", "at"}
INSERTS = {"insert", "emplace", "push_back", "insert_or_assign", "try_emplace", "emplace_back"}


def recheck(ctx, K):
    p = ctx.prog
    # functions that insert / look up, directly or through helpers
    for fid, L in list(K.fl.items()):
        f = L.f
        if fid not in K.concurrent or not L.has:
            continue
        locks = set(h[0] for (_, h, _) in L.acq)
        tabs = [t for t, l in TABLES.items() if l in locks]
        if not tabs:
            continue

        def inl(fn, e, d):
            return not fn.file.startswith("include/tsl") and fn.short != "Logger::info" and touches(p, fn, tabs)
        g = Graph(p, f, inline=inl, maxdepth=3)
        L2 = type(L)()
        L2.f, L2.g, L2.has, L2.var, L2.rawidx, L2.acq, L2.problems = f, g, True, {}, {}, [], []
        L2.F = Facts(g)
        K.solve(L2)
        for t in tabs:
            lock = TABLES[t]

            def is_lookup(n):
                if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and base_name(n.ev["e"][1]) in LOOKUPS:
                    return mentions_field(n.ev["e"][2], t)
                if n.k == "sub" and n.ev["rw"] == "r" and mentions_field(n.ev["e"], t):
                    return True
                if n.k == "call" and n.ev["e"][0] == "c" and base_name(n.ev["e"][1]) in ("operator[]", "back", "front", "size", "empty") and n.func.id not in inserters and n.ev["e"][2] is not None and mentions_field(n.ev["e"][2], t):
                    return True
                return False

            def is_insert(n):
                if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and base_name(n.ev["e"][1]) in INSERTS:
                    return mentions_field(n.ev["e"][2], t)
                if n.k == "asg" and n.ev["op"] == "=" and n.ev["lhs"][0] in ("c", "x") and mentions_field(n.ev["lhs"], t):
                    return True
                return False

            inserters = set(n.func.id for n in g if is_insert(n))

            def gen(n):
                return ["looked"] if is_lookup(n) else []

            def kill(n):
                # leaving the critical section forgets the lookup; so does entering one
                if n.k == "dtor" or n.k == "decl" or n.k == "call":
                    a = set(h[0] for h in L2.IN.get(n.id, ()) if h[3] == "x")
                    b = set(h[0] for h in K.step(L2, n, L2.IN.get(n.id, frozenset())) if h[3] == "x")
                    if (lock in a) != (lock in b):
                        return ["looked"]
                return []
            IN = must_before(g, gen, kill=kill)
            for n in g:
                if not is_insert(n):
                    continue
                if not any(h[0] == lock for h in L2.IN.get(n.id, ())):
                    continue
                ctx.ob("recheck", "%s inserted in %s" % (t, f.short), "looked" in IN[n.id], n.loc,
                       "insertion into %s is not preceded by a lookup in the same critical section of %s: two threads that missed both insert" % (t, lock))


def mentions_field(e, t):
    return any((s[0] == "m" and s[2] == t) or (s[0] == "v" and s[1] == t) for s in walk(e))


_touch = {}


def touches(p, fn, tabs):
    k = (fn.id, tuple(tabs))
    if k not in _touch:
        _touch[k] = any(ev["k"] == "acc" and fld(ev["e"]) in tabs for fid in p.reachable([fn.id]) for ev in p.funcs[fid].events())
    return _touch[k]
