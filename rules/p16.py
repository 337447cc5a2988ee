"""Page compressors: the points read back are the points compressed."""
from common import *
from bits import Bits, Lost, landing, sym, plus, form, mkform, real, minus, ZERO
from bytes import plain, size_of

ASSUMPTIONS = [
    "the byte order of the machine is little-endian, as the byte-swapping calls of the sources were compiled",
    "the points of one page lie within 2^31 time units of the start of the page",
    "rounding to the precision configured is not judged",
    "counting the zero bits of an exclusive-or with the compiler's builtins is right",
]

TS, VAL, START = sym("n", "timestamp"), sym("d", "value"), sym("c", "get_start_tstamp")


def check(ctx):
    ctx = Once(ctx)
    p = ctx.prog
    ctx.rule("number", "a number is read from the bits it was written to, whatever its size", 4)
    ctx.rule("point", "a point read from a page is the point that was compressed", 20)
    ctx.rule("carried", "after reading a point the state carried on is the one the writer carried on", 20)
    ctx.rule("repeat", "a point is stored as a repetition only if it repeats the step before it", 1)
    ctx.rule("undo", "a point that does not fit leaves the page and the state as they were", 6)
    ctx.rule("position", "the position saved with a page is the one it is restored from", 4)
    ctx.rule("version", "a page is read with the compressor of the version it was written with", 6)
    ctx.rule("fresh", "a page being started does not keep state of the page before it", 4)
    ctx.rule("move", "bits are moved to and from the page at the place asked for, within its bounds", 2)
    numbers(ctx, p)
    consts = statics(p)
    n = 0
    for c in classes(p):
        n += 1
        stream(ctx, p, c, consts)
        undo(ctx, p, c)
    need_some([1] * n, "classes compressing points into bits")
    position(ctx, p)
    version(ctx, p)
    fresh(ctx, p)
    move(ctx, p)
    ctx.done()


class Once:
    """one entry for all the paths of an instance"""

    def __init__(self, ctx):
        self.ctx, self.d = ctx, {}
        self.prog, self.analysed, self.rule = ctx.prog, ctx.analysed, ctx.rule

    def ob(self, rule, name, ok, loc=None, what=""):
        if (rule, name) not in self.d or not ok and self.d[rule, name][0]:
            self.d[rule, name] = (bool(ok), loc, what)

    def done(self):
        for (rule, name), (ok, loc, what) in self.d.items():
            self.ctx.ob(rule, name, ok, loc, what)


def method(p, cls, name, pred=None):
    r = [f for f in p.funcs.values() if f.cls == cls and f.short == cls + "::" + name and (pred is None or pred(f))]
    return r[0] if r else None


def compressors(p):
    """classes that compress points"""
    return sorted({f.cls for f in p.funcs.values() if f.cls and f.short == f.cls + "::compress" and
                   [plain(q["t"]) for q in f.params] == ["unsigned long", "double"]})


def classes(p):
    """those that write bits"""
    return [c for c in compressors(p) if c in p.records and any(plain(x["t"]) == "BitSet" for x in p.records[c]["fields"])]


def own(f):
    """callees to look into"""
    return lambda c, e, d: (c.file == f.file or c.cls and c.cls == f.cls) and not c.virt and c.kind != "ctor" and "get_start" not in c.short and "BitSet::" not in c.short


def graph(p, f):
    return Graph(p, f, inline=own(f), maxdepth=6)


def statics(p):
    """static members given one constant"""
    vals = {}
    for f in p.funcs.values():
        if "compress" not in f.file:
            continue
        for ev in f.events():
            if ev["k"] == "asg":
                l = strip_cast(ev["lhs"])
                if l[0] == "v" and l[3] == "g":
                    vals.setdefault(l[1], []).append(ev)
    out = {}

    def val(e):
        e = strip_cast(e)
        c = const_of(e)
        if isinstance(c, int):
            return c
        if e[0] == "v" and e[1] in out:
            return out[e[1]][1]
        if e[0] == "c" and short(e[1]).split("::")[-1] == "pow" and len(e[3]) == 2:
            a, b = val(e[3][0]), val(e[3][1])
            return None if a is None or b is None else a ** b
        if e[0] == "b" and e[1] in ("+", "-", "*", "<<"):
            a, b = val(e[2]), val(e[3])
            if a is None or b is None:
                return None
            return {"+": a + b, "-": a - b, "*": a * b, "<<": a << b if b >= 0 else 0}[e[1]]
        return None

    for _ in range(3):
        for k, evs in vals.items():
            if len(evs) == 1 and evs[0]["op"] == "=" and k not in out:
                v = val(evs[0]["rhs"])
                if v is not None:
                    out[k] = ("i", v)
    return out


# ---------------------------------------------------------------- numbers
def numbers(ctx, p):
    """functions writing one number to a stream, and those reading one"""
    W, R = [], []
    for f in p.funcs.values():
        if "compress" not in f.file or f.kind in ("ctor", "dtor") or f.cls is None:
            continue
        t = [plain(q["t"]) for q in f.params]
        if f.virt or "BitSet" not in t:
            continue
        if f.ret == "void" and t and t[0] in ("long", "unsigned long", "unsigned int", "int", "double"):
            W.append(f)
        elif f.ret in ("long", "unsigned long", "unsigned int", "int", "double") and "BitSetCursor *" in t:
            R.append(f)
    for w in W:
        t = plain(w.params[0]["t"])
        rs = [r for r in R if r.ret == t]
        ctx.ob("number", "%s has a reader" % w.id, len(rs) >= 1, w.loc(), "nothing reads a number of type %s" % t)
        for r in rs:
            number(ctx, p, w, r, t)


def number(ctx, p, w, r, t):
    x = sym("d" if t == "double" else "n", "number")
    wp, rp = {}, {}
    prec = ("prec", "precision")
    for q in w.params:
        if plain(q["t"]) == t and x not in wp.values():
            wp[(0, q["id"])] = x
        elif plain(q["t"]) == "double":
            wp[(0, q["id"])] = prec
    for q in r.params:
        if plain(q["t"]) == "double":
            rp[(0, q["id"])] = prec
    full = {"long": (-(1 << 63), (1 << 63) - 1), "unsigned int": (0, (1 << 32) - 1), "int": (-(1 << 31), (1 << 31) - 1), "unsigned long": (0, (1 << 64) - 1)}
    ranges = {x: full[t]} if t in full else {}
    for v, st, line in Bits(p, w, graph(p, w), wp, {}, ranges=ranges).run({}):
        out = st.get("$out", ())
        nm = "%s to %s, %s" % (w.short, r.short, describe(st, x, out))
        if None in out:
            ctx.ob("number", nm, False, w.loc(line), "a bit written is not one of the number")
            continue
        b = Bits(p, r, graph(p, r), rp, {}, stream=out, ranges=ranges)
        facts = {k: s for k, s in st.items() if isinstance(k, tuple) and k[0] in ("r", "bit", "int", "near")}
        try:
            ends = b.run(facts)
        except Lost:
            ctx.ob("number", nm, False, r.loc(), "what is read has nothing to do with what was written")
            continue
        for v2, s2, l2 in ends:
            bad = why(b, s2, out)
            if not bad and not b.same(s2, b.number(s2, v2) if t == "double" else v2, x):
                bad = "what is read is not the number written"
            ctx.ob("number", nm, not bad, r.loc(l2), bad or "")
        ctx.ob("number", nm + " read", bool(ends), r.loc(), "no path reads what was written")


def why(b, st, out):
    if "$bad" in st:
        return st["$bad"][1]
    if st.get("$pos", 0) != len(out):
        return "%d bits are read where %d were written" % (st.get("$pos", 0), len(out))
    return None


def describe(st, x, out):
    r = next((v for k, v in st.items() if isinstance(k, tuple) and k[0] == "r"), None)
    how = next(("%s" % (k[1][2] if isinstance(k[1][2], str) else "scaled") for k in st if isinstance(k, tuple) and k[0] == "r" and k[1][0] == "S"), "")
    return "%s%d bits" % (how + " " if how else "", len(out)) + ("" if r is None else " for %d" % r[0] if r[0] == r[1] else "")


# ---------------------------------------------------------------- points
class Codec:
    def __init__(self, p, cls, consts):
        self.p, self.cls, self.consts = p, cls, consts
        self.w = method(p, cls, "compress")
        rs = [f for f in p.funcs.values() if f.cls == cls and f.short == cls + "::uncompress" and
              any(c[0] == "c" and short(c[1]) == "BitSet::retrieve" for c in called(p, f))]
        self.r = max(rs, key=lambda f: f.end - f.line, default=None)
        pad = method(p, cls, "pad")
        self.pad = pad
        self.fields = {x["n"]: plain(x["t"]) for x in p.records[cls]["fields"]}
        self.map = {}       # member -> variable of the reader
        self.after = {}     # member -> constant after restoring
        self.count = None
        if self.r is None:
            return
        self.gr = graph(p, self.r)
        self.gw = graph(p, self.w)
        for n in self.gr:
            if n.k != "asg" or n.ev["op"] != "=":
                continue
            l, r = strip_cast(n.ev["lhs"]), strip_cast(n.ev["rhs"])
            if l[0] != "m" or strip_cast(l[1])[0] != "t":
                continue
            m = l[2].split("::")[-1]
            if r[0] == "v" and r[3] != "g":
                self.map[m] = r[2]
            elif r[0] == "c" and short(r[1]).endswith("::size"):
                self.count = m
            elif const_of(r) is not None:
                self.after[m] = ("i", int(const_of(r)))
        wr = {strip_cast(n.ev["lhs"])[2].split("::")[-1] for n in self.gw if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m"}
        self.written = wr
        self.bools = [m for m, t in self.fields.items() if t == "bool"]
        self.padded = None
        self.rep = None
        if pad is not None:
            for n in Graph(p, pad):
                if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "m" and n.ev["op"] == "=":
                    m = strip_cast(n.ev["lhs"])[2].split("::")[-1]
                    c = const_of(strip_cast(n.ev["rhs"]))
                    if m in self.bools and c:
                        self.padded = m
                    elif m not in self.bools and c == 0:
                        self.rep = m

    def msym(self, m):
        return sym("d" if self.fields.get(m) == "double" else "o" if self.fields.get(m) in ("unsigned char",) else "n", ("f", m))

    def members(self, k, padded=True, rep=None):
        ms = {}
        for m in self.fields:
            if m in self.bools:
                ms[m] = ZERO
            else:
                ms[m] = self.msym(m)
        if self.count:
            ms[self.count] = ("i", k)
        if self.padded:
            ms[self.padded] = ("i", int(padded))
        if self.rep:
            ms[self.rep] = ZERO if rep is None else rep
        return ms

    def ranges(self, extra=()):
        d = {plus(TS, START, -1): (0, (1 << 31) - 1)}
        d.update(extra)
        return d


def called(p, f):
    g = graph(p, f)
    return [n.ev["e"] for n in g if n.k == "call"]


def stream(ctx, p, cls, consts):
    c = Codec(p, cls, consts)
    ctx.ob("point", "%s has a writer and a reader" % cls, c.w is not None and c.r is not None, None, "no function reads the bits written")
    if c.w is None or c.r is None:
        return
    ctx.analysed(c.w.short)
    ctx.analysed(c.r.short)
    ctx.ob("carried", "%s carries state on when restored" % cls, len(c.map) >= 2 and c.count is not None, c.r.loc(),
           "the state is not restored from what was read")
    if not c.map or c.count is None:
        return
    for m in sorted(c.written - set(c.map) - set(c.after) - {c.count}):
        if m not in c.bools:
            ctx.ob("carried", "%s::%s is restored" % (cls, m), False, c.r.loc(), "the writer goes on from a state that was not restored")
    wp = {(0, c.w.params[0]["id"]): TS, (0, c.w.params[1]["id"]): VAL}
    pads = {f.short for f in (c.pad,) if f is not None}
    most = repmax(c)

    def write(k, padded=True, rep=None, extra=()):
        b = Bits(p, c.w, c.gw, wp, c.members(k, padded, rep), consts, pads=pads, ranges=c.ranges(extra))
        res = []
        for v, st, line in b.run({}):
            if v == ("i", 1) and (st.get("$out") or any(isinstance(x, tuple) and x[0] == "f" for x in st)):
                res.append((st, line, b))
        return res

    def endings(k, rep, extra):
        """what ends the points before, written by the function that does"""
        if c.pad is None:
            return [((), {})]
        g = graph(p, c.pad)
        b = Bits(p, c.pad, g, {}, c.members(k, False, rep), consts, ranges=c.ranges(extra))
        return [(st.get("$out", ()), st) for v, st, line in b.run({})]

    starts = {(None, frozenset(), frozenset())}
    for k in range(4):
        nxt = set()
        runs = write(k)
        ctx.ob("point", "%s point %s is written" % (cls, nth(k)), bool(runs), c.w.loc(), "no path writes it")
        for st, line, b in runs:
            out = tuple(x for x in st.get("$out", ()) if x != ("pad",))
            nm = "%s point %s, %s" % (cls, nth(k), shape(out))
            if None in out:
                ctx.ob("point", nm, False, c.w.loc(line), "a bit written is not one of the point")
                continue
            facts = {x: y for x, y in st.items() if isinstance(x, tuple) and x[0] in ("r", "bit", "int", "near")}
            new = {m: st.get(("f", m), b.members.get(m)) for m in c.fields}
            if c.padded and k >= 2:
                ctx.ob("repeat", "%s remembers that point %s is not ended" % (cls, nth(k)), new.get(c.padded) == ZERO, c.w.loc(line),
                       "the number of repetitions will not be written")
            cases = []
            for rep in ([None] if c.rep is None or k < 2 else [None, sym("o", ("f", c.rep))]):
                extra = {} if rep is None else {rep: (1, most)}
                cases.append((out, dict(new, **({c.rep: rep or ZERO} if c.rep else {})), rep, extra, False))
                for bits, ps in endings(k + 1, rep, extra):
                    m2 = dict(new)
                    m2.update({x[1]: y for x, y in ps.items() if isinstance(x, tuple) and x[0] == "f"})
                    if c.rep and ("f", c.rep) not in ps:
                        m2[c.rep] = rep or ZERO
                    cases.append((out + bits, m2, rep, extra, True))
            for bits, mem, rep, extra, ended in cases:
                for node, env, old in starts:
                    read(ctx, c, k, nm + (", ended" if ended and c.pad is not None else "") + (", repeated" if rep is not None else ""),
                         bits, mem, new, rep, extra, facts, node, env, old, nxt if ended else None, st)
        starts = nxt
        if sum(1 for r, x in ctx.d if r == "point" and not ctx.d[r, x][0]) > 20:
            return
        if not starts:
            ctx.ob("point", "%s point %s is read to the end" % (cls, nth(k)), False, c.r.loc(), "no path reads it to the end")
            return
    if c.rep:
        repeat(ctx, p, c, write, most)


def nth(k):
    return ("1", "2", "3", "4 and later")[k]


def shape(out):
    return "%d bits%s" % (sum(1 for x in out if not (isinstance(x, tuple) and x[0] == "seg")), " and a run" if any(isinstance(x, tuple) and x[0] == "seg" for x in out) else "")


def repmax(c):
    """largest count of repetitions"""
    for n in c.gw:
        for s, l in n.succ:
            if l is not None and l[0] == "cond":
                for e in walk(l[1]):
                    if e[0] == "b" and e[1] in ("<", "<=", "!=") and c.rep and any(x[0] == "m" and x[2].endswith("::" + c.rep) for x in walk(e[2])):
                        r = strip_cast(e[3])
                        v = c.consts.get(r[1]) if r[0] == "v" else None
                        v = v[1] if v else const_of(r)
                        if isinstance(v, int) and v > 0:
                            return v + (1 if e[1] == "<=" else 0)
    return 255


def read(ctx, c, k, nm, bits, mem, new, rep, extra, facts, node, env, old, nxt, wst):
    p = c.p
    init = dict(facts)
    init.update(dict(env))
    members = {m: v for m, v in mem.items()}
    mirror = {v: m for m, v in c.map.items()}
    if k > 0:
        for m, v in c.map.items():
            init[("v", v)] = c.msym(m)
    rp = {}
    for q in c.r.params:
        if plain(q["t"]) == "bool":
            rp[(0, q["id"])] = None
    b = Bits(p, c.r, c.gr, rp, members, c.consts, stream=bits, ranges=c.ranges(extra))
    try:
        ends = b.run(init, start=node)
    except Lost:
        ctx.ob("point", nm, False, c.r.loc(), "what is read has nothing to do with what was written")
        return
    ctx.ob("point", nm + " is read", bool(ends), c.r.loc(), "no path reads what was written")
    for v, st, line in ends:
        if "$bad" in st or "$thrown" in st:
            ctx.ob("point", nm, False, c.r.loc(line), st["$bad"][1] if "$bad" in st else "reading past the end is not caught")
            continue
        dps = st.get("$dps", ())
        if not dps and st.get("$pos", 0) == 0 and "$end" not in st and k == 0:
            continue        # taken for an empty page
        n = 0
        if rep is not None:
            lo, hi = b.range(st, rep)
            if lo != hi:
                if len(dps) < 1 + lo:
                    ctx.ob("point", nm, False, c.r.loc(line), "repetitions are left out")
                continue
            n = lo
        bad = None
        if st.get("$pos", 0) != len(bits):
            bad = "%d of the %d bits written are read" % (st.get("$pos", 0), len(bits))
        elif len(dps) != 1 + n:
            bad = "%d points are read where %d were written" % (len(dps), 1 + n)
        else:
            step = {}
            dts = dv = None
            for i, d in enumerate(dps):
                ts, val = TS, VAL
                if i:
                    dts = dts or plus(TS, c.msym(prev(c, "unsigned long", TS, new)), -1)
                    dv = dv or plus(VAL, c.msym(prev(c, "double", VAL, new)), -1)
                    for _ in range(i):
                        ts, val = plus(ts, dts), plus(val, dv)
                if len(d) != 2 or not b.same(st, d[0], ts):
                    bad = "the time read is not the one written"
                elif not b.same(st, d[1], val):
                    bad = "the value read is not the one written"
        ctx.ob("point", nm, not bad, c.r.loc(line), bad or "")
        if bad:
            continue
        if rep is None:
            for m, var in sorted(c.map.items()):
                got = st.get(("f", m)) if ("f", m) in st else None
                if got is None:
                    continue
                want = new.get(m)
                if k == 0 and ("f", m) not in wst:
                    continue
                ok = b.same(st, got, want)
                if not ok and (want is None or c.fields[m] == "unsigned char" and b.range(st, want) == (0, 0)):
                    continue
                if not ok and c.fields[m] == "unsigned char" and any(isinstance(x, tuple) and x[0] == "r" and y == (0, 0) and bits_opaque(x[1]) for x, y in st.items()):
                    continue
                ctx.ob("carried", "%s in %s" % (m, nm), ok, c.r.loc(line), "what was carried on is not what the writer carries on")
            for m, v in sorted(c.after.items()):
                if ("f", m) in st and nxt is not None and k >= 2:
                    ok = st[("f", m)] == mem.get(m)
                    ctx.ob("carried", "%s in %s" % (m, nm), ok or m not in mem or mem[m][0] != "i", c.r.loc(line), "what was carried on is not what the writer carries on")
        if nxt is not None and "$end" in st and (rep is None):
            e2 = []
            for kk, vv in st["$env"]:
                if kk[1] in mirror or kk[1] not in b.live[st["$end"]]:
                    continue
                vv = rename(vv, {("d", "value"): ("d", ("f", prev(c, "double", VAL, new)))})
                if kk[0] == "ref" or vv is not None and clean(vv):
                    e2.append((kk, vv))
            nxt.add((st["$end"], frozenset(e2), frozenset()))


def bits_opaque(v):
    from bits import opaque
    return opaque(v)


def prev(c, t, what, new):
    """the member holding the time or value of the point before"""
    for m, v in new.items():
        if c.fields[m] == t and v == what:
            return m
    return None


def rename(v, m):
    if v is None:
        return None
    if v in m:
        return m[v]
    if isinstance(v, tuple):
        return tuple(rename(x, m) if isinstance(x, (tuple, frozenset)) else x for x in v)
    if isinstance(v, frozenset):
        return frozenset(rename(x, m) if isinstance(x, (tuple, frozenset)) else x for x in v)
    return v


def clean(v):
    """nothing of the point just read is left in it"""
    return "timestamp" not in str(v)


def repeat(ctx, p, c, write, most):
    rep = sym("o", ("f", c.rep))
    found = False
    for st, line, b in write(3, padded=False, rep=rep, extra={rep: (0, most)}):
        out = st.get("$out", ())
        tsd = plus(plus(TS, c.msym(prev(c, "unsigned long", TS, {m: st.get(("f", m)) for m in c.fields})), -1), ZERO)
        if out:
            # not repeated: the run before it has to be ended first
            pads = [bits for bits in pad_bits(p, c, rep, most)]
            ok = out[0] == ("pad",) or any(bits and out[:len(bits)] == bits for bits in pads)
            ctx.ob("repeat", "%s ends the repetitions before writing a point" % c.cls, ok, c.w.loc(line),
                   "a point is written without the number of repetitions before it")
            continue
        if st.get(("f", c.rep)) is None:
            continue
        found = True
        ctx.ob("repeat", "%s counts a repetition" % c.cls, st[("f", c.rep)] == plus(rep, ("i", 1)), c.w.loc(line), "the count does not grow by one")
        pt = prev(c, "unsigned long", TS, {m: st.get(("f", m)) for m in c.fields})
        pv = prev(c, "double", VAL, {m: st.get(("f", m)) for m in c.fields})
        dt, dv = plus(TS, c.msym(pt), -1) if pt else None, plus(VAL, c.msym(pv), -1) if pv else None
        mt = next((m for m in c.fields if st.get(("f", m)) == dt and dt is not None), None)
        mv = next((m for m in c.fields if st.get(("f", m)) == dv and dv is not None), None)
        ok = mt is not None and b.same(st, dt, c.msym(mt))
        ctx.ob("repeat", "%s repeats only the same step in time" % c.cls, ok, c.w.loc(line), "the step in time may differ from the one before")
        ok = mv is not None and b.same(st, dv, c.msym(mv))
        ctx.ob("repeat", "%s repeats only the same step in value" % c.cls, ok, c.w.loc(line), "the step in value may differ from the one before")
        lo, hi = b.range(st, rep)
        fits = most <= largest(p, c)
        ctx.ob("repeat", "%s does not count further than the bits for the count" % c.cls, hi + 1 <= most and fits, c.w.loc(line),
               "up to %d repetitions are counted, the bits written hold %d" % (min(hi + 1, 255), largest(p, c)))
    ctx.ob("repeat", "%s has repetitions" % c.cls, found, c.w.loc(), "points are never stored as repetitions")
    for bits in pad_bits(p, c, ZERO, most):
        ctx.ob("repeat", "%s ends points not repeated" % c.cls, len(bits) > 0, c.pad.loc(), "nothing is written after the point")
    for bits in pad_bits(p, c, rep, most):
        ctx.ob("repeat", "%s ends points repeated" % c.cls, len(bits) > 0, c.pad.loc(), "nothing is written after the point")


def pad_bits(p, c, rep, most):
    g = graph(p, c.pad)
    b = Bits(p, c.pad, g, {}, c.members(3, False, rep), c.consts, ranges=c.ranges({rep: (1, most)} if rep != ZERO else {}))
    return [st.get("$out", ()) for v, st, line in b.run({})]


def largest(p, c):
    """the largest count the bits written hold"""
    rep = sym("o", ("f", c.rep))
    n = 0
    for bits in pad_bits(p, c, rep, 255):
        n = max(n, sum(1 for x in bits if isinstance(x, tuple) and x[0] == "b" and x[1] == rep))
    for bits in pad_bits(p, c, rep, 127):
        n = max(n, sum(1 for x in bits if isinstance(x, tuple) and x[0] == "b" and x[1] == rep))
    return (1 << n) - 1


# ---------------------------------------------------------------- rollback
def undo(ctx, p, cls):
    w = method(p, cls, "compress")
    if w is None:
        return
    g = graph(p, w)
    app = [n for n in g if is_call(n, "BitSet::append")]
    save = [n for n in g if is_call(n, "BitSet::save_check_point")]
    back = [n for n in g if is_call(n, "BitSet::restore_from_check_point")]
    c = Codec(p, cls, {})
    state = set(c.map) | ({c.count} if c.count else set())
    for a in app:
        ctx.ob("undo", "check point before writing in %s" % cls, not reachable(g, [g.entry.id], [a], save), a.loc,
               "bits are written without a check point to go back to")
    # what is thrown
    thr = [n for n in g if n.k == "throw"] + app
    for n in thr:
        hs = handlers(g, n)
        ctx.ob("undo", "a full page is handled in %s" % cls, bool(hs), n.loc, "writing past the end of the page is not handled")
        for h in hs:
            ctx.ob("undo", "bits taken back in %s" % cls, all_after(g, h, lambda x: x in back), g.nodes[h].loc if g.nodes[h].line else n.loc, "the bits written stay in the page")
            full = lambda x: x.k == "asg" and strip_cast(x.ev["lhs"])[0] == "m" and strip_cast(x.ev["lhs"])[2].split("::")[-1] in c.bools and const_of(strip_cast(x.ev["rhs"])) == 1
            ctx.ob("undo", "page marked full in %s" % cls, all_after(g, h, full), n.loc, "the page is not marked as full")
            ctx.ob("undo", "refused in %s" % cls, all_after(g, h, lambda x: x.k == "ret" and x.frame == 0 and const_of(x.ev["e"]) == 0), n.loc,
                   "the caller is told that the point was stored")
    # state changed before the last bit is written
    for n in g:
        if n.k == "asg":
            l = strip_cast(n.ev["lhs"])
            if l[0] == "m" and strip_cast(l[1])[0] == "t" and l[2].split("::")[-1] in state:
                r = reachable(g, [s for s, lb in n.succ], thr, [])
                ctx.ob("undo", "%s is kept until the point is written in %s" % (l[2].split("::")[-1], cls), not r, n.loc,
                       "it has changed when the page turns out to be full")


def reachable(g, starts, goals, stops):
    goals, stops = {n.id for n in goals}, {n.id for n in stops}
    seen, work = set(), list(starts)
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        if i in goals:
            return True
        if i in stops:
            continue
        work += [s for s, l in g.nodes[i].succ if l is None or l[0] not in ("eh", "throw", "catch")]
    return False


def handlers(g, n):
    """where an exception thrown there is caught"""
    out, seen = [], set()
    work = landing(g, n)
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        x = g.nodes[i]
        for s, l in x.succ:
            if l is not None and l[0] == "catch":
                if g.nodes[s].k != "texit":
                    out.append(s)
            elif l is not None and l[0] in ("eh", "throw"):
                work.append(s)
    return out


def all_after(g, i, pred):
    """every way out from there passes a node that satisfies it"""
    seen, work = set(), [i]
    while work:
        j = work.pop()
        if j in seen:
            continue
        seen.add(j)
        n = g.nodes[j]
        if pred(n):
            continue
        if n.k == "exit":
            return False
        work += [s for s, l in n.succ if l is None or l[0] not in ("eh", "throw", "catch")]
    return True


# ---------------------------------------------------------------- position
def position(ctx, p):
    for cls in classes(p):
        sv = method(p, cls, "save", lambda f: any("CompressorPosition" in q["t"] for q in f.params))
        rs = method(p, cls, "restore")
        ctx.ob("position", "%s saves and restores its position" % cls, sv is not None and rs is not None, None, "one of the two is missing")
        if sv is None or rs is None:
            continue
        g = Graph(p, sv)
        part = {}
        for n in g:
            if n.k == "asg" and n.ev["op"] == "=":
                l = strip_cast(n.ev["lhs"])
                if l[0] == "m" and l[2].startswith("CompressorPosition::"):
                    part.setdefault(l[2].split("::")[-1], []).append((n, n.ev["rhs"]))
        for fld, want in (("m_offset", "whole bytes"), ("m_start", "the bits left over")):
            v = part.get(fld, [])
            ok = bool(v) and all(eighth(g, e, fld == "m_offset") for _, e in v)
            ctx.ob("position", "%s of %s" % (fld, cls), ok, v[0][0].loc if v else sv.loc(), "it is not the number of %s of the size in bits" % want)
        g = graph(p, rs)
        cp = [n for n in g if is_call(n, "BitSet::copy_from")]
        ctx.ob("position", "%s is restored from bits" % cls, bool(cp), rs.loc(), "the bits are not restored")
        for n in cp:
            a = args(n)
            ok = len(a) == 3 and [fieldname(g, x) for x in a[1:]] == ["m_offset", "m_start"]
            ctx.ob("position", "%s is restored at the position saved" % cls, ok, n.loc, "the position is not the one saved")
            un = [m for m in g if m.k == "call" and m.ev["e"][0] == "c" and short(m.ev["e"][1]).endswith("::uncompress")]
            r2 = [m for m in g if is_call(m, "BitSet::retrieve", "BitSet::new_cursor")] + un
            ctx.ob("position", "%s is read after its bits are restored" % cls, bool(r2) and not reachable(g, [g.entry.id], r2, cp), n.loc,
                   "points are read before the bits are restored")
            for m in un:
                b = [x for x in m.ev["e"][3] if const_of(x) is not None]
                ctx.ob("position", "%s goes on from the state read" % cls, bool(b) and all(const_of(x) for x in b), m.loc, "the state is not carried on")
    # check points
    sv, rs = p.all("BitSet::save_check_point"), p.all("BitSet::restore_from_check_point")
    if sv and rs:
        a = {(l, r) for l, r in moves(sv[0])}
        b = {(r, l) for l, r in moves(rs[0])}
        moved = set()
        for f in p.all("BitSet::append"):
            for ev in f.events():
                if ev["k"] == "asg":
                    l = strip_cast(ev["lhs"])
                    if l[0] == "m" and strip_cast(l[1])[0] == "t":
                        moved.add(l[2].split("::")[-1])
        for m in sorted(moved):
            ok = any(r == m and (l, r) in b for l, r in a)
            ctx.ob("undo", "check point holds BitSet::%s" % m, ok, rs[0].loc(), "it is not saved and restored with the check point")
    # header of a page
    for f in p.funcs.values():
        for ev in f.events():
            if ev["k"] == "asg" and ev["op"] == "=":
                l, r = strip_cast(ev["lhs"]), strip_cast(ev["rhs"])
                if l[0] == "m" and l[2].startswith("compress_info_on_disk::"):
                    if r[0] == "m" and r[2].startswith("CompressorPosition::"):
                        ok = {"m_cursor": "m_offset", "m_start": "m_start"}.get(l[2].split("::")[-1]) == r[2].split("::")[-1]
                        ctx.ob("position", "%s stored by %s" % (l[2].split("::")[-1], f.short), ok, f.loc(ev["l"]), "another part of the position is stored")
            elif ev["k"] == "init" and f.short.startswith("CompressorPosition::"):
                r = strip_cast(ev["e"])
                if r[0] == "m" and r[2].startswith("compress_info_on_disk::"):
                    fl = (ev["f"] or "").split("::")[-1]
                    ok = {"m_offset": "m_cursor", "m_start": "m_start"}.get(fl) == r[2].split("::")[-1]
                    ctx.ob("position", "%s taken from the page" % fl, ok, f.loc(ev["l"]), "another part of the position is taken")
    # points not yet ended
    n = 0
    for f in p.funcs.values():
        if f.cls in compressors(p) or f.cls == "Compressor":
            continue
        g = Graph(p, f)
        sv = [x for x in g if is_call(x, "Compressor::save") and "CompressorPosition" in x.ev["e"][1]]
        if not sv:
            continue
        n += 1
        pads = [x for x in g if is_call(x, "Compressor::pad")]
        for x in sv:
            ctx.ob("position", "the points are ended before the position is taken in %s" % f.short, not reachable(g, [g.entry.id], [x], pads), x.loc,
                   "the position may leave out repetitions still counted")


def moves(f):
    for ev in f.events():
        if ev["k"] == "asg" and ev["op"] == "=":
            l, r = strip_cast(ev["lhs"]), strip_cast(ev["rhs"])
            if l[0] == "m" and r[0] == "m":
                yield l[2].split("::")[-1], r[2].split("::")[-1]


def value(g, e):
    """what a variable set once stands for"""
    e = strip_cast(e)
    for _ in range(4):
        if e[0] != "v" or e[3] == "g":
            break
        d = [n for n in g if n.k == "decl" and n.ev["id"] == e[2] and n.ev["init"] is not None]
        d += [n for n in g if n.k == "asg" and strip_cast(n.ev["lhs"]) == e]
        if len(d) != 1:
            break
        e = strip_cast(d[0].ev["init"] if d[0].k == "decl" else d[0].ev["rhs"])
    return e


def fieldname(g, e):
    e = value(g, e)
    return e[2].split("::")[-1] if e[0] == "m" else None


def eighth(g, e, whole):
    e = value(g, e)
    if e[0] != "b":
        return False
    ok = (e[1], const_of(strip_cast(e[3]))) in ((("/", 8), (">>", 3)) if whole else (("%", 8), ("&", 7)))
    x = value(g, e[2])
    return ok and x[0] == "c" and short(x[1]) == "BitSet::size_in_bits"


# ---------------------------------------------------------------- versions
def version(ctx, p):
    cs = compressors(p)
    made = {}
    for f in p.funcs.values():
        if f.short != "Compressor::create":
            continue
        g = Graph(p, f)
        for n in g:
            for s, l in n.succ:
                if l is None or l[0] != "case":
                    continue
                vals = [const_of(x) for x in l[2]]
                for x in after(g, s):
                    made.setdefault(x, []).append((vals, g.nodes[s]))
    for c in cs:
        vs = made.get(c)
        ctx.ob("version", "%s is made for a version" % c, bool(vs), None, "no version makes it")
        f = method(p, c, "get_version")
        ctx.ob("version", "%s says its version" % c, f is not None, None, "it does not")
        if f is None or not vs:
            continue
        rets = [const_of(ev["e"]) for ev in f.events() if ev["k"] == "ret"]
        for vals, n in vs:
            ctx.ob("version", "version of %s" % c, rets == vals, f.loc(), "it says %s and is made for %s" % (rets, vals))
    for en, d in p.enums.items():
        k = {}
        for x in d["consts"]:
            nm, v = (x["n"], x["v"]) if isinstance(x, dict) else x
            if nm.split("::")[-1].startswith("RT_COMPRESSOR_V"):
                k[int(nm.split("RT_COMPRESSOR_V")[1])] = v
        if 0 in k:
            for i, v in k.items():
                ctx.ob("version", "kind of object for version %d" % i, v == k[0] + i, None, "it is not the one made for the version")


def after(g, i):
    """classes made from there up to where the branches meet"""
    seen, work, out = set(), [i], set()
    while work:
        j = work.pop()
        if j in seen:
            continue
        seen.add(j)
        n = g.nodes[j]
        if n.k == "new":
            out.add(plain(n.ev["e"][1]).split("::")[-1])
            continue
        if n.k == "ctor" and n.ev["e"][0] == "k" and n.ev["e"][1].startswith("Compressor"):
            out.add(n.ev["e"][1])
            continue
        work += [s for s, l in n.succ if l is None or l[0] not in ("eh", "throw", "catch")]
    return out


# ---------------------------------------------------------------- a page being started
def fresh(ctx, p):
    for cls in compressors(p):
        ini = method(p, cls, "init")
        ctx.ob("fresh", "%s is started" % cls, ini is not None, None, "nothing starts a page")
        if ini is None:
            continue
        changed = {}
        for f in p.funcs.values():
            if f.cls == cls and f.kind not in ("ctor", "dtor") and f.id != ini.id and f.short.split("::")[-1] not in ("recycle", "init"):
                for ev in f.events():
                    if ev["k"] == "asg":
                        l = strip_cast(ev["lhs"])
                        if l[0] == "m" and strip_cast(l[1])[0] == "t" and l[2].split("::")[0] == cls:
                            changed.setdefault(l[2].split("::")[-1], f.loc(ev["l"]))
        g = graph(p, ini)
        for m, loc in sorted(changed.items()):
            sets = [n for n in g if n.k == "asg" and n.ev["op"] == "=" and strip_cast(n.ev["lhs"])[0] == "m" and strip_cast(n.ev["lhs"])[2].split("::")[-1] == m]
            ok = bool(sets) and not reachable(g, [g.entry.id], [g.exit], sets)
            ctx.ob("fresh", "%s::%s" % (cls, m), ok, ini.loc(), "it keeps what the page before left in it")
        if cls in classes(p):
            b = [n for n in g if is_call(n, "BitSet::init")]
            ctx.ob("fresh", "bits of %s" % cls, bool(b) and not reachable(g, [g.entry.id], [g.exit], b), ini.loc(), "they are not started")


# ---------------------------------------------------------------- moving bits
def move(ctx, p):
    byte = ["unsigned char", "unsigned char", "unsigned char"]
    for f in sorted((f for f in p.funcs.values() if f.cls == "BitSet"), key=lambda f: f.id):
        t = [plain(q["t"]) for q in f.params]
        if f.short == "BitSet::append" and t == byte:
            one(ctx, p, f, f.params, "m_start", "m_cursor", True)
        elif f.short == "BitSet::retrieve" and t == ["BitSetCursor *"] + byte:
            b = f.params[0]["n"] + "."
            one(ctx, p, f, f.params[1:], b + "m_start", b + "m_cursor", False)
        if f.short in ("BitSet::append", "BitSet::retrieve") and "unsigned char *" in t and "FILE" not in str(t):
            bounds(ctx, p, f)
        if f.short in ("BitSet::set", "BitSet::test"):
            within(ctx, p, f)


def one(ctx, p, f, ps, start, cursor, out):
    """at most a byte moved, for every alignment"""
    g = Graph(p, f)
    byte, ln, at = ps
    for m in range(8):
        for s in range(8):
            for n in range(1, 10):
                src = tuple(("b", sym("n", "given"), i) for i in range(8))
                old = tuple(("b", sym("n", "page"), i) for i in range(8))
                b = Bits(p, f, g, {(0, byte["id"]): ("B", src, "u"), (0, ln["id"]): ("i", n), (0, at["id"]): ("i", s)},
                         {start: ("i", m), cursor: ("P", ("f", "$cur"), 0), "$cur": ("B", old, "u")})
                b.ranges = {sym("n", "given"): (-1 << 40, 1 << 40), sym("n", "page"): (-1 << 40, 1 << 40)}
                k = min(n, 8 - m, 8 - s)
                bad = None
                ends = b.run({})
                for v, st, line in ends:
                    get = lambda key, d: st.get(key, d)
                    page = b.bits(st, get(("f", "$cur"), b.members["$cur"]), 8)
                    have = b.bits(st, get(("v", (0, byte["id"])), ("B", src, "u")), 8)
                    ms, cu = get(("f", start), ("i", m)), get(("f", cursor), b.members[cursor])
                    l2, s2 = get(("v", (0, ln["id"])), ("i", n)), get(("v", (0, at["id"])), ("i", s))
                    fro, to, fa, ta = (src, page, s, m) if out else (old, have, m, s)
                    keep = old if out else src
                    if any(to[7 - (ta + i)] != fro[7 - (fa + i)] for i in range(k)):
                        bad = "the bits moved are not the ones asked for"
                    elif any(to[7 - i] != keep[7 - i] for i in range(ta)):
                        bad = "bits that were there before are changed"
                    elif l2 != ("i", n - k):
                        bad = "the number of bits left is wrong"
                    elif l2 != ZERO and s2 != ("i", (s + k) % 8):
                        bad = "the next bit is taken from a wrong place"
                    elif ms != ("i", (m + k) % 8) or cu != ("P", ("f", "$cur"), (m + k) // 8):
                        bad = "the place reached is wrong"
                ctx.ob("move", "%s at bit %d" % (f.short, m), bool(ends) and not bad, f.loc(), (bad or "no path moves the bits") + " (bit %d of the page, bit %d of the byte, %d bits)" % (m, s, n))


def bounds(ctx, p, f):
    """the end is looked at before each byte"""
    g = Graph(p, f)
    inner = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and short(n.ev["e"][1]) == f.short]
    out = f.short == "BitSet::append"

    def ends(n, l):
        if l is None or l[0] != "cond":
            return False
        e = strip_cast(l[1])
        if e[0] != "b" or e[1] not in ("<", "<=", ">", ">=", "==", "!="):
            return False
        fs = {x[2].split("::")[-1] for x in walk(e) if x[0] == "m"}
        cs = {short(x[1]).split("::")[-1] for x in walk(e) if x[0] == "c"}
        if out:
            if "avail_capacity_in_bits" in cs:
                return True
            return {"m_cursor", "m_end"} <= fs and (e[1], l[2]) in (("==", False), ("!=", True), ("<", True), (">=", False), (">", True), ("<=", False))
        return "bits_left" in cs

    for n in inner:
        bad = avoiding(g, [g.entry.id], n, ends) or any(avoiding(g, [s for s, _ in m.succ], n, ends) for m in inner)
        ctx.ob("move", "%s looks at the end before each byte" % f.short, not bad, n.loc, "a byte past the end may be used")


def avoiding(g, starts, goal, edge):
    seen, work = set(), list(starts)
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        n = g.nodes[i]
        if n is goal:
            return True
        work += [s for s, l in n.succ if (l is None or l[0] not in ("eh", "throw", "catch")) and not edge(n, l)]
    return False


def within(ctx, p, f):
    g = Graph(p, f)
    use = [n for n in g if n.k == "deref"]

    def inside(n, l):
        if l is None or l[0] != "cond":
            return False
        e = strip_cast(l[1])
        if e[0] != "b":
            return False
        fs = [any(x[0] == "m" and x[2].endswith("::m_end") or x[0] == "c" and "capacity" in x[1] for x in walk(y)) for y in e[2:4]]
        if fs == [False, True]:
            return (e[1], l[2]) in ((">=", False), ("<", True))
        if fs == [True, False]:
            return (e[1], l[2]) in (("<=", False), (">", True))
        return False

    for n in use:
        ctx.ob("move", "%s stays within the bits" % f.short, not avoiding(g, [g.entry.id], n, inside), n.loc, "the byte after the last one may be used")
