"""Rollup records: what is written is what is read back."""
from common import *
from bytes import Bytes, tag_of, signed_width, size_of
import common

ASSUMPTIONS = [
    "the byte order of the machine is little-endian, as the byte-swapping calls of the sources were compiled",
    "a day number within a year is less than 512",
    "rounding to the precision asked for is not judged",
]

CODEC = "RollupCompressor_v1"
FIELDS = ("tid", "cnt", "min", "max", "sum", "tstamp")
ENTRY = ("rollup_entry", "rollup_entry_ext")
DAY = 24 * 3600


def check(ctx):
    p = ctx.prog
    ctx.rule("layout", "each field of a record is read from the bytes it was written to, in the same form", 20)
    ctx.rule("width", "a value is written in a form wide enough for it", 20)
    ctx.rule("length", "the length returned is that of the record, for the writer and the reader", 6)
    ctx.rule("bounds", "a reader looks only at bytes it made sure are there", 3)
    ctx.rule("complete", "a reader does not ask for more bytes than the record has", 6)
    ctx.rule("needed", "the number of bytes said to be needed holds the value", 3)
    ctx.rule("dispatch", "records are read with the reader of the version they were written with", 3)
    ctx.rule("precision", "records are read with the precision they were written with", 4)
    ctx.rule("series", "a record without a series belongs to the series of the record before it", 2)
    ctx.rule("fields", "a field is passed on or copied as the same field", 10)
    ctx.rule("stream", "a stream of differences is read with the steps it was written with", 4)
    W = [f for f in p.funcs.values() if f.cls == CODEC and writer(f)]
    R = [f for f in p.funcs.values() if f.cls == CODEC and reader(f)]
    needs = [f for f in p.funcs.values() if f.cls == CODEC and f.ret == "int" and f.params and all(plain_t(q) == "double" for q in f.params)]
    need_some(W, "functions writing rollup records")
    need_some(R, "functions reading rollup records")
    pairs = dispatch(ctx, p, W, R)
    for f in needs:
        needed(ctx, p, f)
    for w, r in sorted(pairs, key=lambda x: (x[0].line, x[1].line)):
        agree(ctx, p, w, r, {f.id for f in needs})
    precision(ctx, p, W, R)
    series(ctx, p, W, R)
    fields(ctx, p)
    stream(ctx, p)


def plain_t(q):
    return q["t"].replace("const ", "").replace("&", "").strip()


def is_entry(t):
    return t.replace("const ", "").replace("struct ", "").replace("&", "").replace("*", "").strip() in ENTRY


def is_buff(t):
    return t.replace("const ", "").strip() == "unsigned char *"


def writer(f):
    """returns the length of the record made from several values, or from an entry, in the buffer"""
    ts = [q["t"] for q in f.params]
    if f.ret != "int" or not ts or not is_buff(ts[0]):
        return False
    if any(is_entry(t) and "*" not in t for t in ts):
        return True
    return sum(1 for q in f.params if plain_t(q) == "double") >= 3


def reader(f):
    ts = [q["t"] for q in f.params]
    return f.ret == "int" and ts and is_buff(ts[0]) and any(is_entry(t) and "*" in t for t in ts)


def source(f, q, order):
    t = plain_t(q)
    return ("S", order, "d") if t == "double" else ("S", order, "i", size_of(t) or 8)


def writer_values(p, f):
    vals = {}
    entry = None
    rest = []
    for q in f.params[1:]:
        k = (0, q["id"])
        if is_entry(q["t"]):
            vals[k] = ("P", "entry", 0)
            entry = entry_fields(p)
        elif plain_t(q) == "bool":
            vals[k] = ("S", "$same", "i", 1)
        else:
            rest.append(q)
    vals[(0, f.params[0]["id"])] = ("P", "buf", 0)
    if entry is not None:
        for q in rest:
            if plain_t(q) == "double":
                vals[(0, q["id"])] = ("prec",)
        return vals, entry
    names = [q["n"] for q in rest]
    byname = set(names) >= {"tid", "cnt", "min", "max", "sum"}
    vals[(0, rest[-1]["id"])] = ("prec",)
    for i, q in enumerate(rest[:-1]):
        nm = q["n"] if byname else FIELDS[i]
        vals[(0, q["id"])] = source(f, q, nm)
    return vals, {}


def entry_fields(p):
    out = {}
    for c in ENTRY:
        for fl in (p.records.get(c) or {}).get("fields", []):
            nm, t = fl["n"], fl["t"]
            out[nm.split("::")[-1]] = ("S", nm.split("::")[-1], "d") if tag_of(t) == "d" else ("S", nm.split("::")[-1], "i", size_of(t) or 8)
    return out


def reader_values(f):
    vals = {(0, f.params[0]["id"]): ("P", "buf", 0)}
    for q in f.params[1:]:
        k = (0, q["id"])
        t = plain_t(q)
        if is_entry(q["t"]):
            vals[k] = ("P", "entry", 0)
        elif t == "double":
            vals[k] = ("prec",)
        elif t in ("int", "unsigned int"):
            vals[k] = ("size", 0)
        else:
            vals[k] = ("begin",)
    return vals


def graph(p, f, skip):
    return Graph(p, f, inline=lambda c, e, d: c.id not in skip and not c.virt and c.kind != "ctor" and c.file == f.file, maxdepth=6)


def needed(ctx, p, f):
    g = graph(p, f, set())
    vals = {(0, f.params[0]["id"]): ("S", "value", "d")}
    for q in f.params[1:]:
        vals[(0, q["id"])] = ("prec",)
    B = Bytes(p, f, g, vals, entry={})
    ctx.analysed(f)
    per = {}
    for v, st, line in B.run({}):
        w = v[1] if v is not None and v[0] == "i" else None
        r = st.get(("b", ("S", "value", "sc")))
        have = signed_width(*r) if r is not None else 8
        ok = w is not None and (w >= 8 or have <= w)
        o = per.setdefault(w, [True, have, line])
        if not ok:
            o[0] = False
            o[1] = have
    for w, (ok, have, line) in sorted(per.items(), key=lambda x: str(x[0])):
        ctx.ob("needed", "%s says %s" % (f.short, w), ok, "%s:%d" % (f.file, f.line),
               "%s returns %s for values that need %d bytes" % (f.short, w, have), (f,))


def agree(ctx, p, w, r, needs):
    ctx.analysed(w, r)
    vals, entry = writer_values(p, w)
    B = Bytes(p, w, graph(p, w, needs), vals, entry=entry, needs=needs)
    outs = B.run({})
    obs = {}

    def ob(rule, inst, ok, msg, where=None):
        o = obs.setdefault((rule, inst), [True, "", where])
        if not ok and o[0]:
            obs[(rule, inst)] = [False, msg, where]
    for line, what in B.bad.items():
        ob("layout", "%s: %s" % (w.short, what), False, "%s: %s" % (w.short, what), "%s:%d" % (w.file, line))
    if not outs:
        ob("length", "%s returns" % w.short, False, "%s never returns a record" % w.short)
    rvals = reader_values(r)
    rg = graph(p, r, needs)
    cache = {}
    outside = {}
    want = set(entry) & set(FIELDS) if entry else set(v[1] for v in vals.values() if v[0] == "S")
    for v, st, line in outs:
        mem = {k[1]: b for k, b in st.items() if isinstance(k, tuple) and k[0] == "m"}
        n = v[1] if v is not None and v[0] == "i" else None
        ok = n is not None and sorted(mem) == list(range(n))
        ob("length", "%s returns the number of bytes written" % w.short, ok,
           "%s returns %s, having written bytes %s" % (w.short, n, runs(mem)), "%s:%d" % (w.file, line))
        if not ok:
            continue
        flag = mem.get(0)
        if not isinstance(flag, int):
            ob("layout", "%s: flags" % w.short, False, "the first byte %s writes is not one that tells how the rest is laid out" % w.short)
            continue
        cnt = next((x for x in list(vals.values()) + list(entry.values()) if x[0] == "S" and x[1] == "cnt"), None)
        lo, hi = B.range(st, cnt) if cnt else (1, 1)
        fields = {}
        for o, b in mem.items():
            if o and isinstance(b, tuple) and b[0] == "s":
                fields.setdefault(b[1], []).append((o, b[2]))
            elif o:
                ob("layout", "%s: byte %d" % (w.short, o), False, "%s writes something other than a field of the record at offset %d (flags 0x%02x)" % (w.short, o, flag))
        got = {s[1] for s in fields}
        same = B.range(st, ("S", "$same", "i", 1))[0] >= 1
        must = set(want) - {"$same"}
        if same:
            must.discard("tid")
        if hi == 0:
            must -= {"min", "max", "sum", "tstamp"}
        miss = must - got
        ob("layout", "%s writes every field" % w.short, not miss, "%s does not write %s (flags 0x%02x)" % (w.short, ", ".join(sorted(miss)), flag))
        if miss:
            continue
        if flag not in cache:
            RB = Bytes(p, r, rg, rvals, entry={}, flag=flag)
            cache[flag] = [x for x in RB.run({"$min": 1})]
            for k, o in RB.outside.items():
                outside.setdefault(k, (o, flag))
        reads = []
        for rv, rs, rl in cache[flag]:
            if rv is None or rv[0] != "i" or rv[1] <= 0:
                if rv is None or rv[0] != "i":
                    ob("length", "%s returns the number of bytes read" % r.short, False, "%s returns a length that is not known (flags 0x%02x)" % (r.short, flag), "%s:%d" % (r.file, rl))
                continue
            # is the count zero?
            c = rs.get(("f", "cnt"))
            z = rs.get(("z", c[1])) if c is not None and c[0] == "B" else None
            if z is True and lo > 0 or z is False and hi == 0:
                continue
            reads.append((rv[1], rs, rl))
        ob("complete", "%s reads what %s writes" % (r.short, w.short), bool(reads), "%s does not read a record with flags 0x%02x" % (r.short, flag))
        for ln, rs, rl in reads:
            ob("length", "%s returns the number of bytes read" % r.short, ln == n,
               "%s returns %d for a record of %d bytes (flags 0x%02x)" % (r.short, ln, n, flag), "%s:%d" % (r.file, rl))
            ob("complete", "%s asks for the bytes of the record" % r.short, rs.get("$min", 0) <= n,
               "%s asks for %d bytes to read a record of %d bytes (flags 0x%02x): the last record of a file would be left out" % (r.short, rs.get("$min", 0), n, flag))
            for s in fields:
                verdict(ob, B, st, w, r, s, fields[s], mem, rs, flag)
            for k, rv in rs.items():
                if isinstance(k, tuple) and k[0] == "f" and k[1] not in got and reads_input(rv):
                    ob("layout", "%s: %s read" % (r.short, k[1]), False, "%s reads %s from a record that does not hold it (flags 0x%02x)" % (r.short, k[1], flag))
    ob("bounds", "%s stays within the bytes given" % r.short, True, "")
    for line, (o, flag) in sorted(outside.items()):
        ob("bounds", "%s stays within the bytes given" % r.short, False,
           "%s reads byte %d of a record (flags 0x%02x) without having made sure it is there" % (r.short, o, flag), "%s:%d" % (r.file, line))
    for (rule, inst), (ok, msg, where) in sorted(obs.items()):
        ctx.ob(rule, inst, ok, where or "%s:%d" % (r.file, r.line if rule in ("bounds", "complete") else w.line), msg, (w, r))


def runs(mem):
    return ",".join(str(x) for x in sorted(mem))


def reads_input(v):
    return v is not None and any(isinstance(x, tuple) and x and x[0] == "in" for x in walk_any(v))


def walk_any(x):
    yield x
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple):
                for z in walk_any(y):
                    yield z


def verdict(ob, B, st, w, r, s, at, mem, rs, flag):
    """is the value written as s what the reader makes of the bytes?"""
    name, kind = s[1], s[2]
    n = len(at)
    form = {"d": "as it is", "sc": "scaled", "i": "plain"}[kind]
    inst = "%s: %s in %d bytes, %s" % (w.short, name, n, form)
    v = rs.get(("f", name))
    whole = sorted(k for _, k in at) == list(range(n))
    ob("layout", inst, whole, "%s does not write the low %d bytes of %s (flags 0x%02x)" % (w.short, n, name, flag))
    if not whole:
        return
    base, mul, addend, nb = v, 1, 0, 0
    if v is not None and v[0] == "L":
        base, mul, addend, nb = v[1:]
    got = "nothing" if base is None else None
    if base is not None:
        if kind == "sc":
            base = base[1] if base[0] == "div" else None
            got = got or (None if base is not None else "a value that was not divided by the precision")
        elif kind == "d":
            if base[0] != "B" or base[2] != "d":
                base, got = None, "something other than a stored floating-point number"
        else:
            if base[0] == "num":
                base = base[1]
            if base[0] != "B" or base[2] == "d":
                base, got = None, "something other than a stored whole number"
    ext = None
    if base is not None and base[0] == "B":
        # replace the bytes read by those written
        bs = [subst_in(x, mem) for x in base[1]]
        low = [("s", s, k) for k in range(min(n, len(bs)))]
        if bs[:len(low)] != low or len(bs) < n:
            got = "other bytes"
        else:
            rest = bs[n:]
            top = ("s", s, n - 1)
            # which way was the sign carried on?
            topin = [k for k, b in mem.items() if b == top]
            sg = rs.get(("sg", ("in", topin[0]))) if topin else None
            if not rest:
                ext = "s" if base[2] == "s" else "u"
                if kind == "d":
                    ext = "d"
            elif all(x == 0 for x in rest):
                ext = "s+" if sg is False else "u"
            elif all(x == 255 for x in rest):
                ext = "s-" if sg is True else None
                got = None if ext else "a value whose upper bytes are all ones"
            elif all(x == ("sx", top) for x in rest):
                ext = "s"
            else:
                got = "a value whose upper bytes are not those of its sign"
            if rest and sg is True and all(x == 0 for x in rest):
                ext, got = None, "a negative value taken for a positive one"
    elif base is not None and got is None:
        got = "something else"
    ob("layout", inst, got is None and ext is not None, "%s reads %s for %s, written in %d bytes by %s (flags 0x%02x)" % (r.short, got, name, n, w.short, flag))
    if got is not None or ext is None:
        return
    if name == "tstamp":
        lo, hi = B.range(st, s)
        step = 256 if addend else 0
        ok = mul == DAY and nb == 1 and addend in (0, 256 * DAY) and (lo >= 256 if step else hi <= 255)
        ob("layout", "%s: day" % w.short, ok, "%s makes another day of the one written (flags 0x%02x)" % (r.short, flag))
        return
    if mul != 1 or addend or nb:
        ob("layout", inst, False, "%s changes %s after reading it (flags 0x%02x)" % (r.short, name, flag))
        return
    # wide enough?
    if kind == "d":
        ob("width", inst, n == 8, "%s writes only %d bytes of %s" % (w.short, n, name))
    elif kind == "sc":
        b = st.get(("b", s))
        have = 8 if b is None else b[1] if b[0] == "w" else signed_width(*b)
        nd = st.get(("b", ("need", name)))
        if nd is not None:
            have = min(have, nd[1])
        ok = n >= 8 or have <= n
        ob("width", inst, ok, "%s writes %s in %d bytes when it may need %d (flags 0x%02x)" % (w.short, name, n, have, flag))
        ob("layout", inst, ext in ("s", "s+", "s-"), "%s takes %s, which may be negative, for a positive number (flags 0x%02x)" % (r.short, name, flag))
    else:
        lo, hi = B.range(st, s)
        if ext == "u":
            ok = hi < (1 << (8 * n))
        else:
            ok = hi < (1 << (8 * n - 1)) or n >= s[3]
        ob("width", inst, ok, "%s writes %s in %d bytes when it may be as large as %d, read as a %s number (flags 0x%02x)" %
           (w.short, name, n, hi, "signed" if ext != "u" else "positive", flag))


def subst_in(x, mem):
    if isinstance(x, tuple) and x[0] == "in":
        return mem.get(x[1])
    if isinstance(x, tuple) and x[0] == "sx":
        return ("sx", subst_in(x[1], mem))
    return x


# ------------------------------------------------------------------ which codec for which version
VERSION = "m_compressor_version"


def version_test(l, v):
    """does the branch hold for the version?  None when it does not ask"""
    if l is None or l[0] != "cond":
        return None
    return ask(l[1], v, l[2])


def ask(e, v, truth=True):
    e = strip_cast(e)
    if e[0] == "u" and e[1] == "!":
        return ask(e[2], v, not truth)
    if e[0] == "b" and e[1] in ("&&", "||"):
        a, b = ask(e[2], v), ask(e[3], v)
        if e[1] == "&&":
            r = False if a is False or b is False else True if a is True and b is True else None
        else:
            r = True if a is True or b is True else False if a is False and b is False else None
        return r if truth or r is None else not r
    if e[0] == "b" and e[1] in ("==", "!=", "<", "<=", ">", ">="):
        def val(x):
            x = strip_cast(x)
            if x[0] == "m" and x[2].split("::")[-1] == VERSION:
                return v
            c = const_of(x)
            return c if isinstance(c, int) else None
        a, b = val(e[2]), val(e[3])
        if a is None or b is None or not mentions(e, lambda x: x[0] == "m" and x[2].split("::")[-1] == VERSION):
            return None
        r = {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[e[1]]
        return r == truth
    return None


def tests_version(f):
    return any(b.succ and any(l and l[0] in ("cond", "case") and mentions(l[1], lambda x: x[0] == "m" and x[2].split("::")[-1] == VERSION) for _, l in b.succ)
               for b in f.blocks.values())


def reachable(g, v):
    seen, todo = set(), [g.entry.id]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for s, l in g.nodes[x].succ:
            if version_test(l, v) is False:
                continue
            if l is not None and l[0] in ("case", "default") and mentions(l[1], lambda x: x[0] == "m" and x[2].split("::")[-1] == VERSION):
                if (v in [const_of(c) for c in l[2]]) != (l[0] == "case"):
                    continue
            todo.append(s)
    return seen


def calls_of(g, ids):
    return [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] in ids]


def dispatch(ctx, p, W, R):
    """pairs of writer and reader used for the same version of the same kind of file"""
    pairs = set()

    def kind(f):
        return "day" if any("rollup_entry_ext" in q["t"] for q in f.params) else "hour"
    cg = p.callgraph()
    users = {}
    for f in p.funcs.values():
        if f.cls == CODEC:
            continue
        for ev in p.calls_in(f):
            e = ev["e"] if isinstance(ev, dict) else ev
            if e[0] == "c" and e[1] in {x.id for x in W + R}:
                users.setdefault(f.id, set()).add(e[1])
    ids = {x.id: x for x in W + R}
    roots = []
    for fid in users:
        f = p.funcs[fid]
        if tests_version(f):
            roots.append((f, Graph(p, f)))
            continue
        ups = [c for c in p.funcs.values() if c.cls == f.cls and c.id != fid and tests_version(c) and any(fid in p.targets(e, c) for e in direct(p, c))]
        if ups:
            for c in ups:
                roots.append((c, Graph(p, c, inline=lambda k, e, d, fid=fid: k.id == fid)))
        else:
            roots.append((f, Graph(p, f)))
    for k, versions in (("hour", (1, 2)), ("day", (1,))):
        for v in versions:
            ws, rs = {}, {}
            for f, g in roots:
                live = reachable(g, v)
                cs = {n.ev["e"][1] for n in calls_of(g, set(ids)) if n.id in live}
                cw = {x for x in cs if ids[x] in W and kind(ids[x]) == k}
                cr = {x for x in cs if ids[x] in R and kind(ids[x]) == k}
                if cw:
                    ws[f.id] = cw
                if cr:
                    rs[f.id] = cr
            aw = {y for x in ws.values() for y in x}
            ar = {y for x in rs.values() for y in x}
            at = p.funcs[min(list(ws) + list(rs), default=roots[0][0].id)].loc() if roots else ""
            ctx.ob("dispatch", "%s files of version %d are written one way" % (k, v), len(aw) == 1, at, "records of version %d are written by %s" %
                   (v, ", ".join(sorted(ids[x].short for x in aw)) or "nothing"), [p.funcs[x] for x in ws])
            ctx.ob("dispatch", "%s files of version %d are read one way" % (k, v), len(ar) == 1, at, "records of version %d are read by %s" %
                   (v, ", ".join(sorted("%s in %s" % (ids[y].short, p.funcs[x].short) for x in rs for y in rs[x])) or "nothing"), [p.funcs[x] for x in rs])
            pairs |= {(ids[x], ids[y]) for x in aw for y in ar}
    # recompressed files are streams, the others are records
    st = {f.id for f in p.funcs.values() if f.cls != "Compressor" and not f.name.startswith("Compressor") and any(stream_read(e) == "f" for e in direct(p, f))}
    ro = {f.id for f in p.funcs.values() if f.cls and any(e[0] == "c" and e[1] in {x.id for x in R if kind(x) == "hour"} for e in direct(p, f))}
    for f in p.funcs.values():
        if f.id in st or not tests_version(f) or not f.cls:
            continue
        g = Graph(p, f, inline=lambda c, e, d, f=f: c.cls == f.cls and c.id not in st and d < 2 and size_small(c))
        cs = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] in st]
        if not cs:
            continue
        ctx.analysed(f)
        for v, want in ((1, False), (2, False), (3, True)):
            live = reachable(g, v)
            got = any(n.id in live for n in cs)
            ctx.ob("dispatch", "%s reads version %d as %s" % (f.short, v, "a stream" if want else "records"), got == want,
                   "%s:%d" % (f.file, f.line), "%s reads files of version %d as %s" % (f.short, v, "a stream" if got else "records"), (f,))
    return pairs


def size_small(c):
    return sum(1 for _ in c.events()) < 200


def direct(p, f):
    for ev in f.events():
        if ev["k"] == "call":
            yield ev["e"]


# ------------------------------------------------------------------ precision
PRECISION = "m_compressor_precision"


def precision(ctx, p, W, R):
    ids = {x.id: x for x in W + R}
    for f in p.funcs.values():
        if f.cls == CODEC or f.cls is None:
            continue
        es = [e for e in direct(p, f) if e[0] == "c" and (e[1] in ids or stream_call(e) == "f")]
        if not es:
            continue
        g = Graph(p, f)
        for n in g:
            if n.k != "call" or n.ev["e"][0] != "c":
                continue
            e = n.ev["e"]
            if e[1] in ids:
                h = ids[e[1]]
                i = [j for j, q in enumerate(h.params) if plain_t(q) == "double"][-1]
            elif stream_call(e) == "f" and f.cls and not f.cls.startswith("Compressor"):
                i = 1
                if stream_read(e) and unused(g, n):
                    continue
            else:
                continue
            a = e[3][i] if i < len(e[3]) else None
            os_ = origins(g, a) if a is not None else set()
            ok = bool(os_) and all(x[0] == "m" and x[2].split("::")[-1] == PRECISION or x[0] == "v" and x[3] == "p" for x in os_)
            ctx.ob("precision", "%s for %s" % (f.short, e[1].split("(")[0].split("::")[-1]), ok, n.loc,
                   "%s passes a precision that is not that of the file" % f.short, (f,))


def unused(g, n):
    cid = n.ev["e"][-1]
    for m in g:
        if m.id == n.id or not m.ev:
            continue
        for k in ("e", "lhs", "rhs", "init"):
            x = m.ev.get(k)
            if isinstance(x, tuple) and any(y[0] == "c" and y[-1] == cid for y in walk(x)):
                return False
        for _, l in m.succ:
            if l is not None and l[0] in ("cond", "case") and any(y[0] == "c" and y[-1] == cid for y in walk(l[1])):
                return False
    return True


# ------------------------------------------------------------------ the series of a record
def series(ctx, p, W, R):
    for w in W:
        bi = [j for j, q in enumerate(w.params) if plain_t(q) == "bool"]
        if not bi:
            continue
        ei = [j for j, q in enumerate(w.params) if is_entry(q["t"])]
        for f in p.funcs.values():
            if f.cls == CODEC or not any(e[0] == "c" and e[1] == w.id for e in direct(p, f)):
                continue
            ctx.analysed(f)
            g = Graph(p, f, inline=lambda c, e, d, f=f: c.cls == f.cls and any(x[0] == "c" and x[1] == w.id for x in direct(p, c)))
            ws = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] == w.id]
            last = set()
            for n in ws:
                os_ = [strip_cast(x) for x in origins(g, n.ev["e"][3][bi[0]])]
                ok = bool(os_)
                for o in os_:
                    if const_of(o) == 0:
                        continue
                    if o[0] != "b" or o[1] != "==":
                        ok = False
                        continue
                    vs = [strip_cast(x) for x in (o[2], o[3])]
                    t = [x for x in vs if is_tid(g, x)]
                    v = [x for x in vs if x[0] == "v" and x not in t]
                    if not v and len(t) == 2:
                        v = [x for x in t if x[0] == "v"]
                    if not t or not v:
                        ok = False
                    last |= {x[2] for x in v}
                ctx.ob("series", "%s leaves the series out of a record only when it is that of the one before" % f.short, ok, n.loc,
                       "the record is written without its series on another condition than that it is that of the record before", (f,))
            for n in g:
                if n.k == "asg" and n.ev["op"] == "=" and strip_cast(n.ev["lhs"])[0] == "v" and strip_cast(n.ev["lhs"])[2] in last:
                    if const_of(n.ev["rhs"]) is not None:
                        continue
                    bad = path_avoiding(g, g.entry.id, n.id, {m.id for m in ws})
                    if not bad:
                        bad = any(path_avoiding(g, s, n.id, {m.id for m in ws}) for s, _ in n.succ)
                    ctx.ob("series", "%s remembers the series of the record written" % f.short, not bad, n.loc,
                           "the series of the last record changes though no record was written", (f,))
    for r in R:
        if not any("rollup_entry_ext" in q["t"] for q in r.params):
            continue
        ei = [j for j, q in enumerate(r.params) if is_entry(q["t"])][0]
        for f in p.funcs.values():
            if f.cls == CODEC or not any(e[0] == "c" and e[1] == r.id for e in direct(p, f)):
                continue
            ctx.analysed(f)
            g = Graph(p, f)
            rs = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1] == r.id]
            for n in rs:
                a = strip_cast(n.ev["e"][3][ei])
                a = strip_cast(a[2]) if a[0] == "u" and a[1] == "&" else a
                if a[0] != "v":
                    continue
                # a declaration of the entry inside the loop starts it afresh
                fresh = {m.id for m in g if m.k in ("decl", "ctor") and m.ev.get("id") == a[2]}
                sets = [m for m in g if m.k == "asg" and m.ev["op"] == "=" and tid_of(m.ev["lhs"], a)]
                names = {strip_cast(m.ev["rhs"])[2] for m in sets if strip_cast(m.ev["rhs"])[0] == "v"}
                keeps = {m.id for m in g if m.k == "asg" and m.ev["op"] == "=" and strip_cast(m.ev["lhs"])[0] == "v" and strip_cast(m.ev["lhs"])[2] in names
                         and tid_of(m.ev["rhs"], a)}
                inloop = path_avoiding(g, [s for s, _ in n.succ], n.id, set())
                if not inloop:
                    continue
                through = any(path_avoiding(g, [s for s, _ in n.succ], x, {n.id}) and path_avoiding(g, [x], n.id, {n.id} - {n.id}) for x in fresh)
                ok = True
                if through:
                    ok = bool(sets) and not any(path_avoiding(g, [x], n.id, {m.id for m in sets}) for x in fresh)
                    ok = ok and bool(keeps) and not path_avoiding(g, [s for s, _ in n.succ], n.id, keeps)
                ctx.ob("series", "%s carries the series over to the next record" % f.short, ok, n.loc,
                       "a record without a series is not given that of the record before", (f,))


def is_tid(g, x):
    return x[0] == "m" and x[2].split("::")[-1] in ("tid", "first") or x[0] == "v" and x[3] != "g" and any(
        o[0] == "m" and o[2].split("::")[-1] in ("tid", "first") for o in origins(g, x))


def tid_of(e, a):
    e = strip_cast(e)
    if e[0] != "m" or e[2].split("::")[-1] != "tid":
        return False
    b = strip_cast(e[1])
    return b[0] == "v" and b[2] == a[2]


def path_avoiding(g, src, dst, avoid):
    todo = list(src) if isinstance(src, (list, tuple)) else [src]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        if x == dst:
            return True
        seen.add(x)
        if x in avoid:
            continue
        for s, l in g.nodes[x].succ:
            if l is None or l[0] not in ("eh", "throw"):
                todo.append(s)
    return False


# ------------------------------------------------------------------ fields passed on
def field_name(e):
    e = strip_cast(e)
    if e[0] == "m" and (e[2].split("::")[0] in ENTRY or e[2].split("::")[0].startswith("Rollup")):
        n = e[2].split("::")[-1]
    elif e[0] == "v" and e[3] == "p":
        n = e[1]
    else:
        return None
    n = n[2:] if n.startswith("m_") else n
    return n if n in FIELDS else None


def fields(ctx, p):
    for f in p.funcs.values():
        for ev in f.events():
            if ev["k"] == "call" and ev["e"][0] == "c":
                h = p.funcs.get(ev["e"][1])
                if h is None or len({q["n"] for q in h.params} & {"cnt", "min", "max", "sum"}) < 4:
                    continue
                bad = [(field_name(a), q["n"]) for a, q in zip(ev["e"][3], h.params) if q["n"] in FIELDS and field_name(a) not in (None, q["n"])]
                ctx.ob("fields", "%s passes the fields of an entry to %s" % (f.short, h.short), not bad, f.loc(ev["l"]),
                       "%s passes %s as the %s of an entry" % ((f.short,) + (bad[0] if bad else ("", ""))), (f,))
            elif ev["k"] == "asg" and ev["op"] == "=":
                l, r = strip_cast(ev["lhs"]), strip_cast(ev["rhs"])
                if l[0] != "m" or l[2].split("::")[0] not in ENTRY:
                    continue
                a, b = field_name(l), field_name(r)
                if a is None or b is None:
                    continue
                ctx.ob("fields", "%s sets the %s of an entry" % (f.short, a), a == b, f.loc(ev["l"]), "%s sets the %s of an entry to the %s" % (f.short, a, b), (f,))


# ------------------------------------------------------------------ streams of differences
def stream_call(e):
    return stream_write(e) or stream_read(e)


def stream_write(e):
    """i: whole number, f: floating point, h: header"""
    if e[0] != "c" or not e[1].startswith("Compressor::compress4"):
        return None
    if e[1].startswith("Compressor::compress4a("):
        return "h"
    return "f" if e[1].split("(")[1].startswith("double") else "i"


def stream_read(e):
    if e[0] != "c":
        return None
    return {"Compressor::uncompress_i4a": "h", "Compressor::uncompress_i4": "i", "Compressor::uncompress_f4": "f"}.get(e[1].split("(")[0])


class Lin:
    """one turn of a loop: what is written or read, as sums of what was there at its start"""

    def __init__(self, g, header, body):
        self.g, self.h, self.body = g, header, body
        self.out = []
        self.count = 0

    def ev(self, e, env):
        """{symbol: factor}"""
        e = strip_cast(e)
        if e[0] == "v" and e[3] != "g":
            return env.get(("v", e[2]), {("v", e[2]): 1})
        if e[0] == "m":
            k = ("f", e[2].split("::")[-1])
            return env.get(k, {k: 1})
        if number(e) is not None:
            return {1: number(e)} if number(e) else {}
        if e[0] == "c":
            return env.get(("c", e[-1]), {("c", e[-1]): 1})
        if e[0] == "b" and e[1] in ("+", "-"):
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            s = 1 if e[1] == "+" else -1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
                if r[k] == 0:
                    del r[k]
            return r
        if e[0] == "b" and e[1] == "=":
            return self.ev(e[3], env)
        if e[0] == "u" and e[1] == "-":
            return {k: -v for k, v in self.ev(e[2], env).items()}
        return {("?", str(e)): 1}

    def run(self):
        self._walk(self.h, {}, (), frozenset(), None)
        return self.out

    def _walk(self, i, env, seq, seen, zero):
        if i == self.h and seen or i not in self.body:
            if seq:
                self.out.append((seq, env, zero, i in self.body))
            return
        if i in seen or len(self.out) > 400:
            return
        n = self.g.nodes[i]
        seen = seen | {i}
        if n.k == "call" and n.ev["e"][0] == "c" and stream_call(n.ev["e"]):
            e = n.ev["e"]
            if stream_write(e):
                seq = seq + ((stream_write(e), freeze(self.ev(e[3][0], env)), n.line),)
            else:
                k = stream_read(e)
                d = ("d", len(seq))
                env = dict(env)
                env[("c", e[-1])] = {d: 1}
                seq = seq + ((k, None, n.line),)
        elif n.k == "decl":
            env = dict(env)
            if n.ev["init"] is not None:
                env[("v", n.ev["id"])] = self.ev(n.ev["init"], env)
        elif n.k == "asg":
            l = strip_cast(n.ev["lhs"])
            k = ("v", l[2]) if l[0] == "v" and l[3] != "g" else ("f", l[2].split("::")[-1]) if l[0] == "m" else None
            if k is not None:
                env = dict(env)
                r = self.ev(n.ev["rhs"], env)
                if n.ev["op"] in ("+=", "-="):
                    r = self.ev(("b", n.ev["op"][0], n.ev["lhs"], n.ev["rhs"]), env)
                elif n.ev["op"] != "=":
                    r = {("?", n.id): 1}
                env[k] = r
        for s, l in n.succ:
            if l is not None and l[0] in ("eh", "throw"):
                continue
            z = zero
            if l is not None and l[0] == "cond":
                t = zero_test(l[1], l[2])
                if t is not None:
                    # is it the count?
                    form = freeze(self.ev(t[0], env))
                    first = {s for s, _ in seq[0][1]} if seq and seq[0][1] else {("d", 0)}
                    if seq and seq[0][0] == "i" and any(isinstance(s, tuple) and s[0] in ("f", "d") and s in first for s, _ in form):
                        z = (form, t[1])
            self._walk(s, env, seq, seen, z)


def zero_test(e, truth):
    """(expression, is it zero) for a comparison with zero"""
    e = strip_cast(e)
    if e[0] == "u" and e[1] == "!":
        return zero_test(e[2], not truth)
    if e[0] == "b" and e[1] in ("==", "!=", ">", "<", ">=", "<="):
        a, b = e[2], e[3]
        op = e[1]
        if const_of(strip_cast(a)) is not None:
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if const_of(strip_cast(b)) != 0:
            return None
        if op == "==":
            return (a, truth)
        if op in ("!=", ">"):
            return (a, not truth)
    return None


def number(e):
    e = strip_cast(e)
    if e[0] == "f":
        try:
            return float(e[1])
        except ValueError:
            return None
    c = const_of(e)
    return c if isinstance(c, (int, float)) else None


def freeze(d):
    return frozenset(d.items())


def stream(ctx, p):
    ws, rs = [], []
    for f in p.funcs.values():
        if f.cls is None or f.cls.startswith("Compressor"):
            continue
        es = list(direct(p, f))
        if any(stream_write(e) == "f" for e in es):
            ws.append(f)
        if any(stream_read(e) == "f" for e in es):
            rs.append(f)
    turns = []
    for f in ws:
        ctx.analysed(f)
        g = Graph(p, f)
        for h, body in inner(g, stream_write):
            t = Lin(g, h, body).run()
            turns.append((f, g, h, body, t))
    if not turns:
        for f in ws:
            ctx.ob("stream", "%s writes in a loop" % f.short, False, f.loc(), "the stream is not written entry by entry", (f,))
        return
    for wf, wg, wh, wbody, wt in turns:
        model = model_of(ctx, wf, wt)
        if model is None:
            continue
        for f in rs:
            ctx.analysed(f)
            g = Graph(p, f)
            for h, body in inner(g, stream_read):
                compare(ctx, wf, model, f, g, h, body)
        restart(ctx, wf, wg, model["carried"], stream_write)


def inner(g, test):
    """innermost loops around the whole-number steps"""
    ls = loops(g)
    out = {}
    for n in g:
        if n.k == "call" and n.ev["e"][0] == "c" and test(n.ev["e"]) == "i":
            best = None
            for h, body in ls:
                if n.id in body and (best is None or len(body) < len(best[1])):
                    best = (h, body)
            if best:
                out[best[0]] = best
    return [(h, set(b)) for h, b in out.values()]


def model_of(ctx, f, turns):
    """the two kinds of turn of the writer: with a count of zero, and otherwise"""
    full = [t for t in turns if len(t[0]) > 1]
    bare = [t for t in turns if len(t[0]) == 1]
    shapes = {(tuple((s[0], s[1]) for s in t[0]), tuple(sorted(((k, freeze(v)) for k, v in t[1].items() if k[0] == "v"), key=str))) for t in full}
    ok = len(full) >= 1 and len(shapes) == 1
    ctx.ob("stream", "%s writes every entry in the same steps" % f.short, ok, f.loc(), "the entries are not all written in the same steps", (f,))
    if not ok:
        return None
    seq, env, zero, _ = full[0]
    # variables changed in the turn and used at its start
    used = set()
    for k, form, _ in seq:
        used |= {s for s, c in form if isinstance(s, tuple) and s[0] == "v"}
    todo = list(used)
    while todo:
        x = todo.pop()
        for s in env.get(x, {}):
            if isinstance(s, tuple) and s[0] == "v" and s not in used and s in env:
                used.add(s)
                todo.append(s)
    carried = {v: env.get(v, {v: 1}) for v in used}
    # the count is what tells whether there is more
    ok = True
    for t in full:
        z = t[2]
        ok = ok and z is not None and not z[1]
    for t in bare:
        z = t[2]
        ok = ok and z is not None and z[1] and not any(v in t[1] and t[1][v] != {v: 1} for v in carried)
    ctx.ob("stream", "%s writes nothing more of an entry exactly when its count is zero" % f.short, ok, f.loc(),
           "an entry is cut short, or what later ones build on changes, on another condition than a count of zero", (f,))
    return {"seq": seq, "carried": carried, "zero": full[0][2], "bare": bool(bare)}


def substitute(form, m):
    r = {}
    for s, c in form.items():
        for s2, c2 in (m[s] if s in m else {s: 1}).items():
            r[s2] = r.get(s2, 0) + c * c2
            if r[s2] == 0:
                del r[s2]
    return r


def compare(ctx, wf, model, f, g, h, body):
    turns = Lin(g, h, body).run()
    where = "%s:%s" % (f.file, g.nodes[h].line or f.line)
    full = [t for t in turns if len(t[0]) > 1]
    bare = [t for t in turns if len(t[0]) == 1]
    kinds = [s[0] for s in model["seq"]]
    line = min((s[2] for t in turns for s in t[0]), default=f.line)
    where = "%s:%d" % (f.file, line)
    ok = bool(full) and all([s[0] for s in t[0]] == kinds for t in full) and (bool(bare) or not model["bare"])
    tag = "%s, %s entries" % (f.short, "kept" if any(k[0] == "f" and any(isinstance(s, tuple) and s[0] == "d" for s in v) for t in full for k, v in t[1].items()) else "skipped")
    ctx.ob("stream", "%s: same steps" % tag, ok, where, "%s reads an entry in steps %s, written in steps %s" %
           (f.short, ["".join(s[0] for s in t[0]) for t in full[:1]], "".join(kinds)), (f, wf))
    if not ok:
        return
    ok = False
    why = ""
    for t in full:
        ok, why = match(model, t)
        if not ok:
            break
    ctx.ob("stream", "%s: same sums" % tag, ok, where, "%s: %s" % (f.short, why), (f, wf))
    z = True
    for t in full:
        z = z and t[2] is not None and not t[2][1]
    for t in bare:
        z = z and t[2] is not None and t[2][1] and not any(k[0] == "v" and changes(t, k, full) for k in t[1])
    ctx.ob("stream", "%s: nothing more follows a count of zero" % tag, z, where, "%s does not read the rest of an entry exactly when its count is not zero" % f.short, (f, wf))
    carried = {}
    for t in full:
        for k in carried_of(t):
            carried[k] = 1
    restart(ctx, f, g, carried, stream_read)


def changes(t, k, full):
    """does a turn that reads nothing more change something the others build on?"""
    if t[1].get(k) == {k: 1}:
        return False
    return any(k in carried_of(x) for x in full)


def carried_of(t):
    """variables of a turn that carry something from the one before"""
    seq, env = t[0], t[1]
    used = set()
    for k, v in env.items():
        if any(isinstance(s, tuple) and s[0] == "d" for s in v) or k[0] == "f":
            used |= {s for s in v if isinstance(s, tuple) and s[0] == "v"}
    return used


def match(model, t):
    seq, env = t[0], t[1]
    fields = {k: v for k, v in env.items() if k[0] == "f" and any(isinstance(s, tuple) and s[0] == "d" for s in v)}
    carried = carried_of(t)
    wv = list(model["carried"])
    d = {("d", i): dict(s[1]) for i, s in enumerate(model["seq"])}
    # every field written is read
    names = {s[1] for _, form, _ in model["seq"] for s, c in form if isinstance(s, tuple) and s[0] == "f"}
    got = {k[1] for k in fields}
    if fields and names - got:
        return False, "%s is not read back" % ", ".join(sorted(names - got))

    def good(m):
        # m: reader's variable -> writer's
        sub = dict(d)
        sub.update({r: {w: 1} for r, w in m.items()})
        for k, v in fields.items():
            if k[1] in names and set(s for s in v if isinstance(s, tuple) and s[0] == "v") <= set(m):
                if substitute(v, sub) != {k: 1}:
                    return k[1]
        for r, w in m.items():
            v = env.get(r, {r: 1})
            if set(s for s in v if isinstance(s, tuple) and s[0] == "v" and s in carried) <= set(m):
                if substitute(v, sub) != model["carried"][w]:
                    return r
        return None
    order = sorted(carried, key=str)
    budget = [20000]

    def extend(i, m):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        if good(m) is not None:
            return None
        if i == len(order):
            return m
        for w in wv:
            if w not in m.values():
                r = extend(i + 1, dict(m, **{}) | {order[i]: w})
                if r is not None:
                    return r
        return None
    m = extend(0, {})
    if m is None:
        return False, "what is read is not added up to what the differences were taken from"
    return True, ""


def restart(ctx, f, g, carried, test):
    """for each series the differences start from the same constant"""
    heads = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and test(n.ev["e"]) == "h"]
    steps = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and test(n.ev["e"]) == "i"]
    bad = []
    vals = set()
    for v in carried:
        inits = {n.id for n in g if n.k == "decl" and n.ev["id"] == v[1] and n.ev["init"] is not None and number(n.ev["init"]) is not None
                 or n.k == "asg" and n.ev["op"] == "=" and strip_cast(n.ev["lhs"])[0] == "v" and strip_cast(n.ev["lhs"])[2] == v[1]
                 and number(n.ev["rhs"]) is not None}
        for i in inits:
            x = g.nodes[i].ev
            vals.add(float(number(x.get("init") or x.get("rhs"))))
        for s in steps:
            for hd in heads:
                # step -> head -> step without a fresh start
                if path_avoiding(g, [x for x, _ in s.succ], hd.id, inits) and any(path_avoiding(g, [x for x, _ in hd.succ], s2.id, inits) for s2 in steps):
                    bad.append(v)
    ctx.ob("stream", "%s starts every series afresh" % f.short, not bad and vals <= {0.0}, f.loc(),
           "what differences are taken from is not set back to zero for each series", (f,))
