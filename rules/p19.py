"""Text that comes from clients or files is not read or written past its end."""
from common import *
import common
from cursor import Cursors, is_text, name, libname, FIND

ASSUMPTIONS = [
    "text given to a function ends with a zero",
    "a delimiter given as an argument is not zero",
    "search functions of the C library stop at the end of the text, rawmemchr does not",
]

# answers and requests are bounded by lengths, not by their text: another property
LENGTHS = ("HttpServer", "HttpResponse", "HttpRequest", "TcpServer", "TcpListener", "UdpServer", "UdpListener", "MemoryManager", "Logger", "Config", "Stats")


def check(ctx):
    p = ctx.prog
    ctx.rule("cursor", "a pointer into text does not leave the text", 12)
    ctx.rule("ends", "what was received ends with a zero before it is parsed", 3)
    cursors(ctx, p)
    ends(ctx, p)


def pointer(e):
    e = strip_cast(e)
    return e[0] == "v" and e[3] != "g" and is_text(e[4]) or e[0] == "m" and is_text(e[3])


def walks(f):
    """does a function look at text through a pointer, or search it"""
    for ev in f.events():
        if ev["k"] == "asg" and ev["op"] in ("++", "+=") and pointer(ev["lhs"]):
            return True
        if ev["k"] == "deref" and pointer(ev["e"]):
            return True
        if ev["k"] == "sub":
            e = strip_cast(ev["e"])
            if e[0] == "x" and pointer(e[1]) and const_of(e[2]) is not None:
                return True
        if ev["k"] == "call" and ev["e"][0] == "c" and libname(ev["e"]) in FIND + ("rawmemchr",) and pointer(ev["e"][3][0]):
            return True
    return False


class Texts:
    def __init__(self, p):
        self.p = p
        ce, self.callers = p.callgraph()
        self.fs = {f.id: f for f in p.funcs.values() if f.file.startswith(("src/", "include/")) and not f.file.startswith("include/tsl") and
                   f.cls not in LENGTHS and f.kind != "dtor" and walks(f)}
        self.text = {i for i, f in self.fs.items() if is_text(f.ret)}
        self.nulls = {i for i in self.text if any(ev["k"] == "ret" and ev.get("e") is not None and self.null(ev["e"]) for ev in self.fs[i].events())}
        self.loops = {i for i in self.fs if self.calls_itself(i, ce)}
        self.done = {}

    def null(self, e):
        e = strip_cast(e)
        return e[0] == "n" or e[0] == "?" and (self.null(e[2]) or self.null(e[3]))

    def calls_itself(self, i, ce):
        seen, todo = set(), [i]
        while todo:
            for c in ce.get(todo.pop(), ()):
                if c == i:
                    return True
                if c not in seen and c in self.p.funcs:
                    seen.add(c)
                    todo.append(c)
        return False

    def run(self, i, deep):
        """problems of a function: alone, or with the functions on text it calls taken in"""
        if (i, deep) not in self.done:
            f = self.p.funcs[i]
            into = lambda fn, e, d: fn.id in self.fs and fn.id not in self.loops and fn.file.startswith("src/") or small(fn)
            g = Graph(self.p, f, into if deep else None, maxdepth=3)
            self.done[i, deep] = Cursors(self.p, g, f, self.text, self.nulls).run()
        return self.done[i, deep]

    def used(self, i):
        return bool(self.callers.get(i)) or i in self.p.refs or self.p.funcs[i].virt

    def problems(self, i):
        f = self.fs[i]
        a = self.run(i, False)
        if not a.problems:
            return a, {}
        b = self.run(i, True)
        # a problem in a function taken in is this one's if that one has none alone
        own = {k: v for k, v in b.problems.items() if v[0].func is f or v[0].func.id not in self.fs or not self.run(v[0].func.id, False).problems}
        if not own:
            return b, {}
        # what the callers know may be needed
        cs = [c for c in self.callers.get(i, ()) if c in self.p.funcs and c != i]
        if cs and i not in self.loops and i not in self.p.refs and not f.virt:
            left = {}
            for c in cs:
                r = self.run(c, True)
                if any(v[0].func is f or v[0].func.id == c for v in r.problems.values()) or c not in self.fs and not any(n.func is f for n in r.g.nodes):
                    left = own
            if not left:
                return b, {}
        return b, own


def small(fn):
    """a test on a character"""
    return fn.end - fn.line < 12 and fn.ret in ("bool", "char", "int") and len(fn.params) <= 2 and fn.file.startswith(("src/", "include/")) and fn.cls not in LENGTHS


def cursors(ctx, p):
    T = Texts(p)
    for i, f in sorted(T.fs.items()):
        if not T.used(i):
            continue
        ctx.analysed(f)
        r, bad = T.problems(i)
        keys = {}
        for k, n in T.run(i, False).used.items():
            keys.setdefault(name(k), n.loc)
        for n, k, msg in bad.values():
            keys.setdefault(name(k), n.loc)
        for nm, loc in sorted(keys.items()):
            ps = sorted((n.line, n.loc, msg) for n, k, msg in bad.values() if name(k) == nm)
            ctx.ob("cursor", "%s in %s" % (nm, f.short), not ps, ps[0][1] if ps else loc, "; ".join("%s (line %d)" % (m, ln) for ln, _, m in ps[:3]))


# ---- the end is put there

def zero_at(n):
    """(base, index) if a node puts a zero at a place given by a length"""
    if n.k != "asg" or n.ev["op"] != "=" or const_of(n.ev["rhs"]) != 0:
        return None
    l = strip_cast(n.ev["lhs"])
    if l[0] == "x":
        return strip_cast(l[1]), strip_cast(l[2])
    if l[0] == "u" and l[1] == "*" and strip_cast(l[2])[0] == "b" and strip_cast(l[2])[1] == "+":
        e = strip_cast(l[2])
        return strip_cast(e[2]), strip_cast(e[3])
    return None


def ended(p, fn, given):
    """does a function itself put the end, before it does anything with what it is given"""
    g = Graph(p, fn)
    ids = {(0, x["id"]) for x in given} | {x["id"] for x in given}
    put = [n for n in g if zero_at(n) and zero_at(n)[0][0] == "v" and zero_at(n)[0][2] in ids and const_of(zero_at(n)[1]) is None]
    return bool(put) and paths(g).search([g.entry], lambda q: q.k == "call" and q.ev["e"][0] == "c" and q.ev["e"][1] in p.funcs, stop=lambda q: q in put, eh=False) is None


PARSE = ("DataPoint::from_plain", "Tsdb::parse_line", "Tsdb::parse_line_safe")


def ends(ctx, p):
    LEN = "HttpRequest::length"
    # handlers that parse lines, which may be part of a bigger buffer
    ce, cr = p.callgraph()
    def near(i, depth):
        """functions from which a request reaches a line parser"""
        out = set()
        for c in cr.get(i, ()):
            f = p.funcs.get(c)
            if f is None:
                continue
            if any("HttpRequest" in x["t"] for x in f.params):
                out.add(c)
            elif depth:
                out |= near(c, depth - 1)
        return out
    hs = set()
    for nm in PARSE:
        for f in p.all(nm):
            hs |= near(f.id, 2)
    for i in sorted(hs):
        f = p.funcs[i]
        g = Graph(p, f, lambda fn, e, d: fn.cls == f.cls and fn.short not in PARSE and fn.end - fn.line < 80 and any("HttpRequest" in x["t"] or is_text(x["t"]) for x in fn.params) or fn.file == f.file and fn.short not in PARSE and not fn.cls, maxdepth=2)
        put = [n for n in g if zero_at(n) and any(mentions_field(o, LEN) for o in origins(g, zero_at(n)[1]) | {zero_at(n)[1]})]
        for n in g:
            if is_call(n, *PARSE):
                ok = paths(g).search([g.entry], lambda q: q is n, stop=lambda q: q in put, eh=False) is None
                ctx.ob("ends", "%s ends the text before %s" % (f.short, call_name(n).split("::")[-1]), ok, n.loc, "the text has no end")
    # what is received
    for f in p.funcs.values():
        if not f.file.startswith("src/core/") or not any(ev["k"] == "call" and ev["e"][0] == "c" and libname(ev["e"]) == "recv" for ev in f.events()):
            continue
        g = Graph(p, f, lambda fn, e, d: fn.file == f.file and fn.end - fn.line < 20 and any(is_text(x["t"]) for x in fn.params), maxdepth=2)
        rs = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and libname(n.ev["e"]) == "recv"]
        bases = set()
        for n in rs:
            a = strip_cast(args(n)[1])
            for v in walk(a):
                if v[0] == "v" and is_text(v[4]):
                    bases.add(v[2])
        if not bases:
            continue
        put = [n for n in g if zero_at(n) and zero_at(n)[0][0] == "v" and zero_at(n)[0][2] in bases and const_of(zero_at(n)[1]) is None]
        for n in g:
            if n.k != "call" or n.ev["e"][0] != "c" or n.ev["e"][1] not in p.funcs or n in rs:
                continue
            fn = p.funcs[n.ev["e"][1]]
            hit = [x for x, a in zip(fn.params, n.ev["e"][3]) if is_text(x["t"]) and strip_cast(a)[0] == "v" and strip_cast(a)[2] in bases]
            if not hit or fn.cls in ("MemoryManager", "Logger") or ended(p, fn, hit):
                continue
            r = None
            for q in rs:
                r = r or paths(g).search([g.nodes[s] for s, l in q.succ if not (l and l[0] == "eh")], lambda x: x is n, stop=lambda x: x in put, eh=False)
            ctx.ob("ends", "%s ends what was received before %s" % (f.short, fn.short.split("::")[-1]), r is None, n.loc, "what was received has no end")
