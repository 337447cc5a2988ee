"""The settings a partition or a month of rollup files was written with stay on file and are the ones used later."""
from common import *

ASSUMPTIONS = [
    "a value written as text by std::to_string is read back unchanged by the numeric getters of Config",
    "compaction is left aside: the partition it writes is not put back into use by anything but the admin command",
]

LAYOUT = {"Tsdb::m_page_size": "page size", "Tsdb::m_page_count": "page count", "Tsdb::m_compressor_version": "compressor",
          "Tsdb::m_mbucket_count": "metric buckets", "Tsdb::m_tstamp_ms": "resolution"}
MODE = "Tsdb::m_mode"
GETTERS = ("Config::get_int", "Config::get_bytes", "Config::get_str", "Config::get_bool", "Config::get_float")


def check(ctx):
    p = ctx.prog
    ctx.rule("agree", "every setting is written under the name and in the form it is read back", 6)
    ctx.rule("flags", "every persisted flag is written and read back under the same name", 4)
    ctx.rule("complete", "all settings are written before the file is, and read before they are used", 6)
    ctx.rule("when", "settings are recorded when a partition is created, rolled up or closed", 3)
    ctx.rule("withdrawn", "a roll-up that no longer covers the data is withdrawn on file too", 1)
    ctx.rule("own", "settings on file are not replaced by those of the command line or of the configuration", 4)
    ctx.rule("fixed", "the layout of a partition does not change while it is in use", 3)
    ctx.rule("used", "data is laid out and read by the settings of its own partition", 6)
    ctx.rule("store", "the settings file holds every setting, later lines replacing earlier ones", 4)
    ctx.rule("rollup", "rollup files are read with the settings recorded next to them", 4)
    W, R, A = files(p)
    written = agree(ctx, p, W, R)
    flags(ctx, p, W, R, A)
    complete(ctx, p, W, R)
    closed(ctx, p)
    own(ctx, p)
    fixed(ctx, p, R)
    used(ctx, p)
    store(ctx, p)
    rollup(ctx, p)


# ---- who reads and writes the settings of a partition

def ing(p, cls="Tsdb"):
    return lambda fn, e, d: fn.cls == cls and not fn.short.endswith(("<ctor>", "<dtor>"))


def has_config(f):
    return any(ev["k"] == "decl" and ev["t"] == "Config" for ev in f.events())


def files(p):
    """graphs of the partition's functions that write, read or add to its settings file"""
    W, R, A = [], [], []
    for f in p.funcs.values():
        if f.cls != "Tsdb" or not has_config(f):
            continue
        g = AGraph(p, f, inline=ing(p))
        if any(is_call(n, "Config::persist") for n in g):
            W.append((f, g))
        if any(is_call(n, "Config::load") for n in g):
            R.append((f, g))
        if any(is_call(n, "Config::append") for n in g):
            A.append((f, g))
    return W, R, A


def lit(g, e):
    ls = literals(g, e)
    return ls[0] if isinstance(ls, list) and len(ls) == 1 else (next(iter(ls)) if len(ls) == 1 else None)


def settings(g):
    for n in g:
        if is_call(n, "Config::set_value", "Config::set_value_no_lock") and len(args(n)) == 2:
            yield n, lit(g, args(n)[0]), args(n)[1]


def unwrap(g, e):
    """text built from a value: (the value, fixed texts round it)"""
    e = strip_cast(e)
    while True:
        if e[0] == "k" and e[3] and "basic_string" in e[1]:
            e = strip_cast(e[3][0])
        elif e[0] == "v" and e[3] == "l" and len(defs_of(g, e)) == 1:
            e = strip_cast(defs_of(g, e)[0])
        else:
            break
    if e[0] == "c" and short(e[1]) == "std::operator+":
        a, b = unwrap(g, e[3][0]), unwrap(g, e[3][1])
        if a[0] is not None and b[0] is None:
            return a[0], a[1] + b[1]
        if a[0] is None and b[0] is not None:
            return b[0], a[1] + b[1]
        return None, a[1] + b[1]
    if e[0] == "s":
        return None, [e[1]]
    if e[0] == "c" and short(e[1]) == "std::to_string":
        return strip_cast(e[3][0]), []
    return e, []


def defs_of(g, v):
    return _local_defs(g).get(v[2], [])


def _local_defs(g):
    if not hasattr(g, "_p11d"):
        d = {}
        for n in g:
            if n.k == "decl" and n.ev.get("init") is not None:
                d.setdefault(n.ev["id"], []).append(n.ev["init"])
            elif n.k == "asg" and n.ev["lhs"][0] == "v":
                d.setdefault(n.ev["lhs"][2], []).append(n.ev["rhs"])
            elif n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and n.ev["e"][2][0] == "v" and call_name(n).endswith("::operator="):
                d.setdefault(n.ev["e"][2][2], []).append(args(n)[0])
        g._p11d = d
    return g._p11d


def getter(g, e):
    """(getter, name of the setting) when e is the plain value of a setting"""
    e = strip_cast(e)
    if e[0] == "c" and short(e[1]) in GETTERS:
        return short(e[1]).split("::")[1], lit(g, e[3][0])
    return None


def restored(g):
    """(node, field, value) of settings taken over from the file"""
    for n in g:
        if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["lhs"])[2] in LAYOUT:
            yield n, strip_cast(n.ev["lhs"])[2], n.ev["rhs"]


def starts(e):
    """(text tested, character or text, truth) of a test on how a text starts"""
    t = True
    e = strip_cast(e)
    while e[0] == "u" and e[1] == "!":
        t, e = not t, strip_cast(e[2])
    if e[0] == "c" and short(e[1]) == "starts_with":
        v = strip_cast(e[3][1])
        while v[0] == "k" and v[3]:
            v = strip_cast(v[3][0])
        return e[3][0], chr(const_of(v)) if const_of(v) is not None else v[1] if v[0] == "s" else None, t
    return None


def agree(ctx, p, W, R):
    wrote, read = {}, {}
    for f, g in W:
        ctx.analysed(f)
        for n, name, val in settings(g):
            v, fix = unwrap(g, val)
            if v is not None and v[0] == "m" and v[2] in LAYOUT:
                wrote.setdefault(v[2], []).append((n, name, "number", fix))
            elif v is not None and v[0] == "?" and mentions_field(v[1], *LAYOUT):
                fld = [x[2] for x in walk(v[1]) if x[0] == "m" and x[2] in LAYOUT][0]
                a, b = unwrap(g, v[2])[1], unwrap(g, v[3])[1]
                neg = strip_cast(v[1])[0] == "u"
                wrote.setdefault(fld, []).append((n, name, "choice", (b, a) if neg else (a, b)))
            else:
                for x in walk(val):
                    if x[0] == "m" and x[2] in LAYOUT:
                        wrote.setdefault(x[2], []).append((n, name, "other", fix))
    for f, g in R:
        ctx.analysed(f)
        for n, fld, rhs in restored(g):
            got = [getter(g, o) for o in origins(g, rhs)]
            if got and all(got):
                read.setdefault(fld, []).append((n, got[0][1], "number", got[0][0]))
                continue
            st = [starts(o) for o in origins(g, rhs)]
            if st and all(st):
                k = [getter(g, o) for o in origins(g, st[0][0])]
                read.setdefault(fld, []).append((n, k[0][1] if k and k[0] else None, "choice", st[0][1:]))
                continue
            names = [getter(g, x)[1] for o in origins(g, rhs) for x in walk(o) if getter(g, x)]
            read.setdefault(fld, []).append((n, names[0] if names else None, "other", None))
    here = W[0][0].loc() if W else R[0][0].loc() if R else "src/core/tsdb.cpp:1"
    for fld, what in sorted(LAYOUT.items()):
        w, r = wrote.get(fld, []), read.get(fld, [])
        ctx.ob("agree", "%s recorded" % what, bool(w), here, "the %s of a partition is not recorded: after a restart with other settings its data is read with the wrong one" % what)
        ctx.ob("agree", "%s read back" % what, bool(r), here, "the recorded %s of a partition is not read back" % what)
        if not w or not r:
            continue
        ctx.ob("agree", "name of the %s" % what, {x[1] for x in w} == {x[1] for x in r} and None not in {x[1] for x in w}, r[0][0].loc,
               "the %s is written as %s but read as %s" % (what, sorted({str(x[1]) for x in w}), sorted({str(x[1]) for x in r})))
        for n, name, form, fix in w:
            for m, name2, form2, how in r:
                if form == "number" and form2 == "number":
                    ok = (fix in ([], ["b"])) and how in ("get_int", "get_bytes")
                elif form == "choice" and form2 == "choice":
                    (a, b), (c, t) = fix, how
                    ok = len(a) == 1 and len(b) == 1 and c is not None and a[0].startswith(c) == t and b[0].startswith(c) != t
                else:
                    ok = form == form2 == "choice"
                ctx.ob("agree", "form of the %s" % what, ok, m.loc, "the %s is not read back the way it is written" % what)
    for a in LAYOUT:
        for b in LAYOUT:
            if a < b and wrote.get(a) and wrote.get(b):
                ctx.ob("agree", "%s and %s apart" % (LAYOUT[a], LAYOUT[b]), not ({x[1] for x in wrote[a]} & {x[1] for x in wrote[b]}), wrote[b][0][0].loc,
                       "two settings are recorded under one name")
    return wrote


# ---- flags

def mode_value(n):
    """value stored into the mode of a partition"""
    if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None:
        b = strip_cast(n.ev["e"][2])
        if b[0] == "m" and b[2] == MODE:
            o = call_name(n).split("::")[-1]
            if o in ("operator=", "store"):
                return args(n)[0]
            if o in ("operator|=", "fetch_or"):
                return ("b", "|", b, args(n)[0])
            if o in ("operator&=", "fetch_and"):
                return ("b", "&", b, args(n)[0])
    return None


def sets(n):
    """bits set in the mode by a node"""
    v = mode_value(n)
    if v is None:
        return 0
    r = 0
    for x in walk(v):
        if x[0] == "b" and x[1] == "|":
            for y in (x[2], x[3]):
                c = const_of(y)
                if c is not None:
                    r |= c & 0xffffffff
    return r


def clears(n):
    v = mode_value(n)
    if v is None:
        return 0
    r = 0
    for x in walk(v):
        if x[0] == "b" and x[1] == "&":
            for y in (x[2], x[3]):
                c = const_of(y)
                if c is None and strip_cast(y)[0] == "u" and strip_cast(y)[1] == "~":
                    c2 = const_of(strip_cast(y)[2])
                    c = None if c2 is None else ~c2
                if c is not None:
                    r |= ~c & 0xffffffff
    return r


def bit_test(e):
    """the bit of the mode that is tested"""
    e = strip_cast(e)
    if e[0] == "b" and e[1] in ("!=", "==") and const_of(e[3]) == 0:
        r = bit_test(e[2])
        return (r[0], r[1] if e[1] == "!=" else not r[1]) if r else None
    if e[0] == "u" and e[1] == "!":
        r = bit_test(e[2])
        return (r[0], not r[1]) if r else None
    if e[0] == "b" and e[1] == "&" and mentions_field(e, MODE):
        for y in (e[2], e[3]):
            if const_of(y) is not None:
                return const_of(y) & 0xffffffff, True
    return None


def guards(g, n, test):
    """test holds on some edge of every path to n; returns the values test gave"""
    got = set()
    def cut(s, l):
        r = [test(e, t) for e, t in truths(l)]
        r = [x for x in r if x is not None]
        got.update(r)
        return bool(r)
    return got if paths(g).search([g.entry], lambda m: m is n, stop_edge=cut) is None else set()


def flags(ctx, p, W, R, A):
    wrote, read = {}, {}
    for f, g in W:
        for n, name, val in settings(g):
            v, fix = unwrap(g, val)
            if v is not None or len(fix) != 1:
                continue
            for b in sorted({bit_test(e)[0] for m in g for s, l in m.succ for e, t in truths(l) if bit_test(e)}):
                def is_set(e, t):
                    r = bit_test(e)
                    return True if r and r[0] == b and r[1] == t else None
                if guards(g, n, is_set):
                    wrote.setdefault(b, set()).add((name, fix[0], n))
    for f, g in R:
        for n in g:
            b = sets(n)
            if not b:
                continue
            names = {getter(g, x)[1] for m in g for s, l in m.succ for e, t in truths(l) for x in walk(e) if getter(g, x) and getter(g, x)[0] == "get_bool"}
            for k in sorted(x for x in names if x):
                def says(e, t):
                    r = getter(g, e)
                    return True if t and r and r[0] == "get_bool" and r[1] == k else None
                if guards(g, n, says):
                    read.setdefault(b, set()).add((k, n))
    here = R[0][0].loc() if R else "src/core/tsdb.cpp:1"
    ctx.ob("flags", "three flags kept", len(set(wrote) | set(read)) >= 3, here, "fewer flags of a partition are kept on file than there are to keep (rolled up, out of order, crashed)")
    for b in sorted(set(wrote) | set(read)):
        w, r = wrote.get(b, set()), read.get(b, set())
        ctx.ob("flags", "flag %#x recorded" % b, bool(w), here, "a flag is read back but never recorded")
        ctx.ob("flags", "flag %#x read back" % b, bool(r), here, "a flag is recorded but never read back")
        if w and r:
            ctx.ob("flags", "name of flag %#x" % b, {x[0] for x in w} == {x[0] for x in r}, min(x[1].loc for x in r), "a flag is recorded under another name than it is read by")
            ctx.ob("flags", "value of flag %#x" % b, all(x[1].lower() in ("true", "t", "1", "yes", "on") or x[1] == "true" for x in w), min(x[2].loc for x in w), "a flag is not recorded as true")
    # the flag whose effect must not outlive the data it was set for
    name_of = {b: {x[0] for x in w} for b, w in wrote.items()}
    rolled = rolled_bit(p, wrote, read)
    for f in p.funcs.values():
        if f.cls != "Tsdb" or f.short.endswith(("<ctor>", "<dtor>")) or any(f is x for x, g in R):
            continue
        g = None
        if not any(sets(_N(ev)) & rolled or clears(_N(ev)) & rolled for ev in f.events()):
            continue
        g = AGraph(p, f, inline=ing(p))
        for n in g:
            if n.frame != 0:
                continue
            if sets(n) & rolled and bin(sets(n)).count("1") == 1:
                bad = escapes(g, n, lambda m: is_call(m, "Config::persist"))
                ctx.ob("when", "rolled up in %s" % f.short, bad is None, n.loc, "a partition is marked as rolled up without recording it")
            if clears(n) & rolled:
                def app(m):
                    return is_call(m, "Config::append") and lit(g, args(m)[0]) in name_of.get(rolled, ()) and lit(g, args(m)[1]) == "false" or is_call(m, "Config::persist")
                def off(s, l):
                    return any(bit_test(e) and bit_test(e)[0] == rolled and bit_test(e)[1] != t for e, t in truths(l))
                before = paths(g).search([g.entry], lambda m: m is n, stop=app, stop_edge=off) is None
                def off2(s, l):
                    return any(e[0] == "v" and e[3] == "l" and not t for e, t in truths(l))
                g2 = Graph(p, f, inline=lambda fn, e, d: fn.cls == "Tsdb" and has_config(fn))
                n2 = [m for m in g2 if m.frame == 0 and m.line == n.line and mode_value(m) is not None]
                after = not before and n2 and escapes(g2, n2[0], lambda m: is_call(m, "Config::append", "Config::persist"), edge_stop=off2) is None
                ctx.ob("withdrawn", "roll-up withdrawn in %s" % f.short, bool(before or after), n.loc,
                       "data is added to a rolled-up partition without withdrawing the roll-up on file: after a crash queries use rollup data that misses it")


def rolled_bit(p, wrote, read):
    """the flag that is both set outside reading and cleared together with another"""
    cand = set(wrote) | set(read)
    for f in p.funcs.values():
        if f.cls == "Tsdb":
            for ev in f.events():
                c = clears(_N(ev))
                for b in cand:
                    if c & b and bin(c).count("1") > 1:
                        return b
    return 0x8


class _N:
    def __init__(self, ev):
        self.k, self.ev = ev["k"], ev


# ---- written in full, read first

def news(g, cls):
    return [n for n in g if n.k == "new" and n.ev["e"][1] == cls]


def complete(ctx, p, W, R):
    for f, g in W:
        names = {}
        for n, name, val in settings(g):
            for x in walk(val):
                if x[0] == "m" and x[2] in LAYOUT:
                    names.setdefault(x[2], set()).add(n.id)
        ps = [n for n in g if is_call(n, "Config::persist")]
        for fld, ids in sorted(names.items()):
            def optional(s, l, fld=fld):
                return any(mentions_field(e, fld) for e, t in truths(l))
            for q in ps:
                ok = paths(g).search([g.entry], lambda m: m is q, stop=lambda m: m.id in ids, stop_edge=optional) is None
                ctx.ob("complete", "%s in the file written by %s" % (LAYOUT[fld], f.short), ok, q.loc, "the settings file is written without the %s" % LAYOUT[fld])
        for n, name, val in settings(g):
            ctx.ob("complete", "%s stored by %s" % (name, f.short), escapes(g, n, lambda m: is_call(m, "Config::persist")) is None, n.loc, "a setting is set after the file was written, or the file is not written")
    for f, g in R:
        ld = lambda m: is_call(m, "Config::load")
        for n in g:
            if is_call(n, *GETTERS) or is_call(n, "Config::exists"):
                ctx.ob("complete", "%s read by %s" % (lit(g, args(n)[0]) if args(n) else "?", f.short), preceded(g, n, ld), n.loc, "a setting is asked for before the file was read")
    for f in p.funcs.values():
        if not any(ev["k"] == "new" and ev["e"][1] == "Tsdb" for ev in f.events()):
            continue
        g = AGraph(p, f, inline=ing(p))
        ctx.analysed(f)
        for t in news(g, "Tsdb"):
            ctor = t.ev["e"][2]
            old = [a for a in (ctor[3] if ctor and ctor[0] == "k" else ()) if a[0] == "v" and a[3] == "p" and a[4] == "bool"]
            def edge(truth):
                def cut(s, l):
                    return any(e[0] == "v" and any(e[2] == a[2] for a in old) and t != truth for e, t in truths(l))
                return cut
            if not old:
                continue
            ctx.ob("complete", "existing partition in %s" % f.short, escapes(g, t, lambda m: is_call(m, "Config::load"), edge_stop=edge(True)) is None, t.loc, "the settings of an existing partition are not read")
            ctx.ob("when", "new partition in %s" % f.short, escapes(g, t, lambda m: is_call(m, "Config::persist"), edge_stop=edge(False)) is None, t.loc, "the settings of a new partition are not recorded")
            for n in g:
                if n.k == "new" and n.ev["e"][1] == "Metric":
                    for fld in ("Tsdb::m_page_size", "Tsdb::m_page_count"):
                        ok = paths(g).search([t], lambda m: m is n, stop=lambda m: writes_field(m, fld) and m.func.short != f.short or writes_field(m, fld)) is None
                        ctx.ob("complete", "%s before files in %s" % (LAYOUT[fld], f.short), ok, n.loc, "files of a partition are loaded before its %s is known" % LAYOUT[fld])


def closed(ctx, p):
    """the partitions given up at shutdown are recorded, each of them"""
    for f in p.funcs.values():
        if f.cls != "Tsdb" or f.id not in live(ctx):
            continue
        if not any(ev["k"] == "call" and ev["e"][0] == "c" and ev["e"][2] is not None and is_global(ev["e"][2], "Tsdb::m_tsdbs") and ev["e"][1].split("(")[0].endswith("::clear") for ev in f.events()):
            continue
        g = Graph(p, f, inline=ing(p))
        cl = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None and is_global(n.ev["e"][2], "Tsdb::m_tsdbs") and n.ev["e"][1].split("(")[0].endswith("::clear")]
        els = [n for n in g if fetches(n, "Tsdb *")]
        per = lambda m: is_call(m, "Config::persist")
        for c in cl:
            mine = [n for n in els if path_exists(g, n, per)]
            ctx.ob("when", "settings recorded in %s" % f.short, bool(mine) and all(self_loop(g, n, per) is None for n in mine) and
                   all(paths(g).search([n], lambda m: m is c, stop=per) is None for n in mine), c.loc, "a partition is closed without recording its settings and flags")
            for n in mine:
                why = partial(g, n)
                ctx.ob("when", "every partition gone through in %s" % f.short, why is None, n.loc, "not every partition is gone through: %s" % (why,))


def live(ctx):
    if not hasattr(ctx, "_p11live"):
        K = ctx.locks
        ctx._p11live = callees_down(ctx.prog, set(K.all_reach) | set(ctx.prog.refs))
    return ctx._p11live


# ---- whose settings count

def own(ctx, p):
    for f in p.funcs.values():
        for ev in f.events():
            if ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "Config::load":
                b = ev["e"][2]
                inst = b is not None and (any(x[0] == "v" and x[1] == "Config::m_instance" for x in walk(b)) or mentions_call(b, "Config::inst"))
                if b is not None and b[0] == "t":
                    continue        # Config re-reading itself
                ctx.analysed(f)
                ctx.ob("own", "settings read in %s" % f.short, inst or const_of(ev["e"][3][0]) == 0, ev_loc(f, ev),
                       "the recorded settings are overridden by the command line: existing data is read with settings it was not written with")
    for f in p.funcs.values():
        if f.cls == "Config" and has_config(f):
            g = AGraph(p, f)
            for n, name, val in settings(g):
                b = n.ev["e"][2]
                if name and b is not None and b[0] == "v" and b[3] == "l" and b[4] == "Config":
                    same_name(ctx, g, f, n, name, val)
    # in load itself, overriding is optional
    for f in p.all("Config::load"):
        g = Graph(p, f)
        for n in g:
            if n.k == "acc" and n.ev["e"][0] in ("v", "m") and str(n.ev["e"][1 if n.ev["e"][0] == "v" else 2]).endswith("m_overrides"):
                def cut(s, l):
                    return any(e[0] == "v" and e[3] == "p" and t for e, t in truths(l))
                ok = paths(g).search([g.entry], lambda m: m is n, stop_edge=cut) is None
                ctx.ob("own", "override in Config::load", ok, n.loc, "the command line overrides settings although it was not asked to")


def ev_loc(f, ev):
    return "%s:%d" % (f.file, ev.get("l") or f.line)


def fixed(ctx, p, R):
    readers = {f.id for f, g in R}
    inner = {m.func.id for f, g in R for m in g}
    for f in p.funcs.values():
        for fld in LAYOUT:
            if not any(ev["k"] == "asg" and ev["lhs"][0] == "m" and ev["lhs"][2] == fld for ev in f.events()):
                continue
            if f.short == "Tsdb::<ctor>" or f.id in readers or f.id in inner:
                ctx.ob("fixed", "%s set in %s" % (LAYOUT[fld], f.short), True, f.loc(), "")
                continue
            g = Graph(p, f)
            for n in g:
                if writes_field(n, fld):
                    b = strip_cast(n.ev["lhs"])[1]
                    ok = b[0] == "v" and b[3] == "l" and all(o[0] == "new" or o[0] == "c" and makes(p, o[1]) for o in origins(g, b))
                    if b[0] == "t":
                        ce, cr = p.callgraph()
                        ok = bool(cr.get(f.id)) and all(p.funcs[x].short == "Tsdb::<ctor>" or x in inner for x in cr[f.id] if x in p.funcs)
                    ctx.ob("fixed", "%s set in %s" % (LAYOUT[fld], f.short), ok, n.loc, "the %s of a partition in use is changed: data already written is read with the new one" % LAYOUT[fld])


def makes(p, fid):
    """a function that returns a new partition"""
    f = p.funcs.get(fid)
    return f is not None and any(ev["k"] == "new" and ev["e"][1] == "Tsdb" for ev in f.events())


def used(ctx, p):
    want = [("PageInMemory::setup_compressor", {1: "Tsdb::m_page_size", 2: "Tsdb::m_compressor_version"}, 3),
            ("DataPointContainer::collect_data", {1: "Tsdb::m_page_size", 2: "Tsdb::m_compressor_version"}, 5),
            ("Metric::<ctor>", {1: "Tsdb::m_page_size", 2: "Tsdb::m_page_count"}, 3),
            ("Metric::get_last_files", {1: "Tsdb::m_page_count", 2: "Tsdb::m_page_size"}, 5),
            ("DataFile::append", {1: "Tsdb::m_page_size"}, 2)]
    for f in p.funcs.values():
        if f.cls not in ("Tsdb", "PageInMemory"):
            continue
        hit = [w for w in want if any(ev["k"] in ("call", "ctor") and ev["e"][0] in ("c", "k") and short(ev["e"][1 if ev["e"][0] == "c" else 2]) == w[0] for ev in f.events())]
        if not hit:
            continue
        ctx.analysed(f)
        g = AGraph(p, f)
        F = Facts(g)
        for n in g:
            for name, ps, cnt in hit:
                if not is_call(n, name) or len(args(n)) != cnt:
                    continue
                for i, fld in ps.items():
                    os_ = [F.c(n, o) for o in origins(g, args(n)[i])]
                    def fine(o):
                        if o[0] == "m":
                            return o[2] == fld
                        if o[0] == "v":
                            return o[3] == "p"
                        if o[0] == "c" and str(o[1]).startswith("Tsdb::get_"):
                            return True
                        return o[0] == "i" and fld == "Tsdb::m_compressor_version" and o[1] == 0
                    ctx.ob("used", "%s given to %s in %s" % (LAYOUT[fld], name, f.short), bool(os_) and all(fine(o) for o in os_), n.loc,
                           "data of a partition is handled with a %s that is not the partition's own" % LAYOUT[fld])


# ---- the settings file

def store(ctx, p):
    for f in p.funcs.values():
        if f.cls != "Config":
            continue
        opens = [ev for ev in f.events() if ev["k"] == "ctor" and "basic_fstream" in ev["e"][1] or ev["k"] == "ctor" and "basic_ofstream" in ev["e"][1]]
        if not opens:
            continue
        g = Graph(p, f, inline=lambda fn, e, d: fn.cls == "Config")
        ctx.analysed(f)
        outs = [n for n in g if n.k == "call" and "operator<<" in n.ev["e"][1]]
        if not outs:
            continue
        mode = {x[1] for ev in opens for x in walk(ev["e"]) if x[0] == "v" and x[1].startswith("std::ios_base::")}
        ps = [n for n in g if n.k == "call" and call_name(n) == "Property::as_str"]
        if ps:
            ctx.ob("store", "file replaced in %s" % f.short, "std::ios_base::app" not in mode, f.loc(), "settings are added to the old ones instead of replacing the file")
            for n in ps:
                why = partial(g, n)
                ctx.ob("store", "every setting written in %s" % f.short, why is None, n.loc, "not every setting is written: %s" % (why,))
            for n in g:
                if n.k == "call" and "_Rb_tree" in n.ev["e"][1] and "Property" in n.ev["e"][1] and call_name(n).endswith(("::operator*", "::operator->")):
                    bad = self_loop(g, n, lambda m: m in ps)
                    ctx.ob("store", "no setting skipped in %s" % f.short, bad is None, n.loc, "a setting is left out of the file")
            nm = [n for n in g if n.k == "call" and call_name(n) == "Property::get_name"] or [n for n in g if acc_pair(n, "first")]
            ctx.ob("store", "name with value in %s" % f.short, bool(nm), f.loc(), "settings are written without their names")
        elif any(is_param(f, x) for n in outs for x in walk(n.ev["e"])):
            ctx.ob("store", "line added in %s" % f.short, "std::ios_base::app" in mode and "std::ios_base::trunc" not in mode, f.loc(), "adding a setting drops the ones on file")
        seps = {x[1].strip() for n in outs for x in walk(n.ev["e"]) if x[0] == "s" and "=" in x[1]}
        ctx.ob("store", "separator in %s" % f.short, bool(seps) and all("=" in s for s in seps), f.loc(), "settings are written without the separator they are read by")
    for f in p.all("Config::load"):
        g = Graph(p, f, inline=lambda fn, e, d: fn.cls == "Config")
        tok = [n for n in g if n.k == "call" and call_name(n) == "tokenize"]
        for n in tok:
            ctx.ob("store", "separator read", any(const_of(a) == ord("=") for a in args(n)), n.loc, "settings are not read by the separator they are written with")
        gl = [n for n in g if n.k == "call" and "getline" in n.ev["e"][1]]
        for n in gl:
            def done(s, l):
                return any(not t and any(x[0] == "c" and "tokenize" in x[1] for x in walk(e)) or t and any(x[0] == "c" and "starts_with" in x[1] for x in walk(e)) for e, t in truths(l))
            put = lambda m: m.k == "call" and call_name(m) == "Property::set_value" or m.k == "new" and m.ev["e"][1] == "Property"
            bad = self_loop(g, n, put, done)
            ctx.ob("store", "line taken over in Config::load", bad is None, n.loc, "a line of the settings file is not taken over: a later line no longer replaces an earlier one")


def acc_pair(n, what):
    return n.k == "acc" and n.ev["e"][0] == "m" and n.ev["e"][2].endswith("::" + what)


def is_param(f, x):
    return x[0] == "v" and x[3] == "p"


def placing(g, n):
    """a value that decides where something is put (remainder by it)"""
    me = n.ev["e"][-1]
    return any(x[0] == "b" and x[1] == "%" and any(y[0] == "c" and y[-1] == me for y in walk(x[3])) for m in g for e in event_exprs(m) for x in walk(e))


def same_name(ctx, g, f, n, name, val):
    """a recorded setting has the value in use, that is the configured one"""
    v, fix = unwrap(g, val)
    if v is None:
        return
    got = [getter(g, o) for o in origins(g, v)]
    ctx.ob("own", "%s recorded in %s" % (name, f.short), bool(got) and all(x and x[1] == name for x in got), n.loc,
           "the value recorded for a setting is not the one in use: after a restart existing data is handled with another")


# ---- rollup files

def rollup(ctx, p):
    """name -> where written/read in the rollup settings"""
    wrote, read = {}, {}
    for f in p.funcs.values():
        if f.cls not in ("RollupManager", "RollupDataFile"):
            continue
        evs = list(f.events())
        if any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "Config::set_value" for ev in evs):
            ctx.analysed(f)
            g = AGraph(p, f)
            for n, name, val in settings(g):
                if name:
                    wrote.setdefault(name, []).append((f, n))
                    same_name(ctx, g, f, n, name, val)
                    bad = escapes(g, n, lambda m: is_call(m, "Config::persist"))
                    ctx.ob("rollup", "%s stored in %s" % (name, f.short), bad is None, n.loc, "a setting of the rollup files is changed without writing it to their settings file")
        if any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) in GETTERS for ev in evs):
            g = AGraph(p, f)
            for n in g:
                if is_call(n, *GETTERS):
                    b = n.ev["e"][2]
                    inst = all(mentions_call(o, "Config::inst") for o in origins(g, b)) if b is not None else True
                    name = lit(g, args(n)[0])
                    if inst and str(name).startswith("tsdb.rollup.") and ("compressor" in name or placing(g, n)):
                        def none(s, l):
                            return any(null_test(e, t) for e, t in truths(l))
                        ok = any(x == name for m, x, v in settings(g)) or paths(g).search([g.entry], lambda m: m is n, stop_edge=none) is None
                        ctx.ob("rollup", "%s from the configuration in %s" % (name, f.short), ok, n.loc, "existing rollup files are handled with the setting of the configuration, not with the recorded one")
                    if not inst:
                        read.setdefault(lit(g, args(n)[0]), []).append((f, n))
    for name in ("tsdb.rollup.buckets", "tsdb.rollup.compressor.precision", "tsdb.rollup.level1.compressor.version", "tsdb.rollup.level2.compressor.version"):
        w, r = wrote.get(name, []), read.get(name, [])
        loc = (w or r)[0][1].loc if w or r else "src/agg/rollup.cpp:1"
        ctx.ob("rollup", "%s recorded" % name, bool(w), loc, "a setting of the rollup files is not recorded with them")
        ctx.ob("rollup", "%s read back" % name, bool(r), loc, "a setting of the rollup files is not taken from the file next to them")
    # a file whose compressor changes
    for f in p.funcs.values():
        if f.cls == "RollupDataFile" or not any(ev["k"] == "call" and ev["e"][0] == "c" and short(ev["e"][1]) == "RollupDataFile::set_compressor_version" for ev in f.events()):
            continue
        g = AGraph(p, f)
        for n in g:
            if is_call(n, "RollupDataFile::set_compressor_version"):
                v = const_of(args(n)[0])
                ss = [m for m, name, val in settings(g) if name and "level1" in name and unwrap(g, val)[1] == [str(v)]]
                def none(s, l):
                    return any(null_test(e, t) for e, t in truths(l))
                same = any(ss) and paths(g).search([g.entry], lambda m: m is n, stop=lambda m: m in ss, stop_edge=none) is None
                ctx.ob("rollup", "compressor changed in %s" % f.short, same, n.loc, "the compressor of rollup files is changed to one that is not recorded: after a restart they are read with another")
