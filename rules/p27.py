"""Settings: which are known, of what kind, with which default, and who wins."""
import re
from fractions import Fraction
from common import *
import common
from along import *
from p18 import after, implies, holds_if
from p22 import local, nm, V, behind, each

ASSUMPTIONS = [
    "settings are read through the configuration's own functions",
]

KINDS = {"get_bool": "bool", "get_int": "int", "get_float": "int", "get_bytes": "bytes", "get_time": "time", "get_str": "str", "get_count_internal": "int"}
AS = {"get_bool": "as_bool", "get_int": "as_int", "get_float": "as_float", "get_bytes": "as_bytes", "get_time": "as_time", "get_str": "as_str"}
PROPS, OVER = "Config::m_properties", "Config::m_overrides"


def check(ctx):
    p = ctx.prog
    ctx.rule("kind", "a setting is read as one kind of value, and what is given is looked at for that kind", 20)
    ctx.rule("default", "a setting not given has one default", 10)
    ctx.rule("given", "a setting without default is read only where it is given", 4)
    ctx.rule("value", "what is read is the value given, as the kind asked for, or else the default", 6)
    ctx.rule("unit", "sizes and times are read with the unit written behind them", 6)
    ctx.rule("wins", "the command line wins over the file, and the data's own settings over both", 5)
    ctx.rule("kept", "settings kept with the data are all written, and read back", 3)
    ctx.rule("place", "directories are where the settings say", 3)
    us = uses(p)
    kinds(ctx, p, us)
    defaults(ctx, p, us)
    given(ctx, p)
    values(ctx, p)
    units(ctx, p)
    wins(ctx, p, us)
    kept(ctx, p)
    places(ctx, p)


def key_of(e):
    """the literal a name is made of"""
    s = {x[1] for x in walk(e) if x[0] == "s"}
    return next(iter(s)) if len(s) == 1 and not any(x[0] == "v" and x[3] != "g" for x in walk(e)) else None


def fname(e):
    return e[1].split("(")[0].split("::")[-1]


def is_cfg(e):
    return e[0] == "c" and e[1].startswith("Config::")


def running(f, e):
    """the running configuration, not one kept with data"""
    b = strip_cast(e[2]) if e[2] is not None else ("n",)
    return b[0] == "c" and b[1].startswith("Config::inst") or b[0] == "v" and b[1] == "Config::m_instance" or b[0] == "t"


def uses(p):
    out = []
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if not f.file.startswith(("src/", "include/")):
            continue
        for ev in f.events():
            if ev["k"] == "call" and is_cfg(ev["e"]) and ev["e"][3]:
                out.append((f, ev, fname(ev["e"])))
    return out


# ---- kinds

def kinds(ctx, p, us):
    read = {}
    for f, ev, n in us:
        k = key_of(ev["e"][3][0])
        if k and n in KINDS:
            read.setdefault(k, []).append((KINDS[n], f, ev, running(f, ev["e"])))
    vs = [f for f in p.funcs.values() if f.short == "Config::verify" and not f.params]
    lists = {}
    for f in vs:
        g = AGraph(p, f, lambda x, e, d: (x.cls == "Config" or x.file == "src/utils/config.cpp") and not x.virt, maxdepth=3)
        names = {}
        for n in g:
            if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("emplace", "insert") and n.ev["e"][2] is not None:
                b = strip_cast(n.ev["e"][2])
                k = key_of(n.ev["e"][3][0])
                if b[0] == "v" and k:
                    names.setdefault(b[2], set()).add(k)
            if n.k == "decl" and "set<" in n.ev["t"] and n.ev["init"] is not None:
                names.setdefault(n.ev["id"], set()).update(x[1] for x in walk(n.ev["init"]) if x[0] == "s")
        # what is done for the members of each
        found, at = {}, {}
        for n in g:
            for s, l in n.succ:
                if not l or l[0] != "cond":
                    continue
                for v in names:
                    member = lambda e, t: (strip_cast(e)[0] == "c" and (nm(e) == "operator!=" and t or nm(e) == "operator==" and not t) and any(has_find(g, x, v) for x in walk(e))
                                           or strip_cast(e)[0] == "c" and nm(e) == "count" and t and any(same_set(x, v) for x in walk(e))
                                           or strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("!=", ">") and t and any(x[0] == "c" and nm(x) == "count" and any(same_set(y, v) for y in walk(x)) for x in walk(e)))
                    if implies(g, l, member):
                        found.setdefault(v, []).append(g.nodes[s])
                        at.setdefault(v, set()).add(n.id)
        for v, st in found.items():
            others = {x for w in at if w != v for x in at[w]}
            big = max((body for h, body in loops(g) if at[v] & body), key=len, default=set())
            top = {h for h, body in loops(g) if body == big}
            seen = reach(g, st, lambda m: m.id in top or m.id in others)
            if not any(m.k == "throw" for m in seen):
                continue
            ex = [x for m in seen for e in list(event_exprs(m)) + [l[1] for s, l in m.succ if l and l[0] == "cond"] for x in walk(e)]
            consts = {x[1] for x in ex if x[0] == "i"} | {ord(c) for x in ex if x[0] == "s" and len(x[1]) < 12 for c in x[1] if not x[1].startswith("Inv")}
            calls_ = {fname(x) for x in ex if x[0] == "c"}
            lits = {x[1] for x in ex if x[0] == "s"}
            kd = "time" if "as_time" in calls_ else "bool" if "true" in lits and "false" in lits else "bytes" if ord("k") in consts and ord("g") in consts and ord("m") in consts else "int" if "isdigit" in calls_ else None
            if kd:
                lists.setdefault(kd, set()).update(names[v])
    for kd in ("bool", "bytes", "int", "time"):
        ctx.ob("kind", "values of kind %s are looked at" % kd, bool(lists.get(kd)), vs[0].loc() if vs else "src/utils/config.cpp:1", "settings of this kind are taken without looking at them")
    for k in sorted(read):
        ks = {x[0] for x in read[k] if x[0] != "str"}
        f, ev = read[k][0][1:3]
        ctx.ob("kind", "%s: one kind" % k, len(ks) <= 1 and not ("str" in {x[0] for x in read[k]} and ks and any(x[0] == "str" and x[3] for x in read[k])), f.loc(ev["l"]), "a setting is read as different kinds of value")
        if any(x[3] for x in read[k]) and len(ks) == 1:
            kd = next(iter(ks))
            ins = [x for x in lists if k in lists[x]]
            ctx.ob("kind", "%s: looked at" % k, ins == [kd], f.loc(ev["l"]), "a setting read as %s is looked at as %s" % (kd, " and ".join(sorted(ins)) or "nothing"))
        elif any(x[3] for x in read[k]):
            ctx.ob("kind", "%s: free text" % k, not [x for x in lists if k in lists[x]], f.loc(ev["l"]), "a setting read as text must be of another kind")
    if vs:
        refused(ctx, p)


def same_set(e, v):
    return e[0] == "v" and e[2] == v


def has_find(g, x, v):
    x = behind(g, x) if x[0] == "v" else x
    return x[0] == "c" and nm(x) == "find" and x[2] is not None and same_set(strip_cast(x[2]), v)


def reach(g, start, stop):
    seen, todo = {}, list(start)
    while todo:
        n = todo.pop()
        if n.id in seen or stop(n):
            continue
        seen[n.id] = n
        for s, l in n.succ:
            if not (l and l[0] == "eh"):
                todo.append(g.nodes[s])
    return list(seen.values())


def refused(ctx, p):
    """the whole is gone through for the file's and for the command line's settings"""
    for f in [x for x in p.funcs.values() if x.short == "Config::verify"]:
        g = AGraph(p, f, lambda x, e, d: (x.cls == "Config" or x.file == "src/utils/config.cpp") and not x.virt and x.short != "Config::verify", maxdepth=3)
        cmps = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("strcasecmp",) and any(x[0] == "s" and x[1] in ("true", "false") for x in walk(n.ev["e"]))]
        if cmps:
            # a value that is either is not refused
            for w in ("true", "false"):
                is_w = lambda e, t: strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("==", "!=") and any(const_of(x) == 0 for x in strip_cast(e)[2:4]) and any(y[0] == "c" and nm(y) == "strcasecmp" and any(z == ("s", w) for z in walk(y)) for y in walk(e)) and (strip_cast(e)[1] == "==") == t
                ths = [m for m in g if m.k == "throw" and any("oolean" in x[1] for x in walk(m.ev["e"]) if x[0] == "s")] or [m for m in g if m.k == "throw"][:1]
                isnot = lambda s, l: implies(g, l, lambda e, t: is_w(e, not t))
                r = [m for m in ths if paths(g).search([c for c in cmps if any(x == ("s", w) for x in walk(c.ev["e"]))], lambda q: q is m, stop_edge=isnot) is not None]
                ctx.ob("kind", "%s: %s is accepted" % (f.short, w), not r, ths[0].loc if ths else f.loc(), "a right value is refused")
        for n in [n for n in g if n.k == "decl" and n.ev["t"].replace("const ", "") in ("char", "char &") and loop_of(g, n) is not None]:
            good = {c: judge(g, n, ord(c)) for c in "0579.-kKMGgbx!/:@Zz"}
            if None in good.values():
                continue
            size = "refused" not in (good["k"], good["M"])
            need = "0579kKMGgb" if size else "0579.-"
            ctx.ob("kind", "%s: characters of %s" % (f.short, "sizes" if size else "numbers"), all(good[c] == "taken" for c in need), n.loc, "a right value is refused")
            ctx.ob("kind", "%s: other characters in %s" % (f.short, "sizes" if size else "numbers"), all(good[c] == "refused" for c in good if c in "x!/:@Zz" or c == "k" and not size), n.loc, "a value that cannot be read is taken")
        times = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "as_time"]
        for n in times:
            good = lambda s, l: implies(g, l, lambda e, t: strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("==", "!=") and (strip_cast(e)[1] == "!=") == t and any(any(y[0] == "c" and nm(y) == "as_time" for o in origins(g, x) | {behind(g, x)} for y in walk(o)) for x in strip_cast(e)[2:4]))
            lp = loop_of(g, n)
            r = paths(g).search([x for x in after(g, n)] + [n], lambda q: q is g.exit or lp is not None and q.id == lp[0], stop=lambda q: q.k == "throw", stop_edge=good)
            ctx.ob("kind", "%s: bad times are refused" % f.short, r is None, n.loc, "a time that cannot be read is taken")
        if not f.params:
            for what, has in (("the file's", lambda e: mentions_field(e, PROPS)), ("the command line's", lambda e: mentions_global(e, OVER))):
                r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q.k == "call" and q.ev["e"][0] == "c" and q.ev["e"][1].startswith("Config::verify") and has(q.ev["e"]) or q.k == "decl" and q.ev["init"] is not None and has(q.ev["init"]))
                ctx.ob("kind", "%s settings are looked at" % what, r is None, f.loc(), "%s settings are taken without looking at them" % what)


def val(e, env):
    e = strip_cast(e)
    c = const_of(e)
    if c is not None:
        return c
    if e[0] == "v":
        return env.get(e[2])
    if e[0] == "c" and e[3]:
        a = val(e[3][0], env)
        if a is None:
            return None
        n = nm(e)
        return {"isdigit": 48 <= a <= 57, "tolower": a + 32 if 65 <= a <= 90 else a, "toupper": a - 32 if 97 <= a <= 122 else a}.get(n)
    if e[0] == "u" and e[1] == "!":
        a = val(e[2], env)
        return None if a is None else not a
    if e[0] == "b":
        a, b = val(e[2], env), val(e[3], env)
        if a is None or b is None:
            return None
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "&&": a and b, "||": a or b}.get(e[1])
    return None


def judge(g, n, c):
    """what becomes of a value with this character in it"""
    env = {n.ev["id"]: c}
    head = {h for h, body in loops(g) if n.id in body}
    m, steps = n, 0
    while steps < 200:
        steps += 1
        if m.k == "throw":
            return "refused"
        if m is not n and (m is g.exit or m.id in head):
            return "taken"
        if m is not n and m.k in ("decl", "asg"):
            i = m.ev["id"] if m.k == "decl" else strip_cast(m.ev["lhs"])[2] if strip_cast(m.ev["lhs"])[0] == "v" else None
            r = m.ev.get("init") if m.k == "decl" else m.ev["rhs"]
            env[i] = val(r, env) if r is not None else None
        go = []
        for s, l in m.succ:
            if l and l[0] == "eh":
                continue
            if l and l[0] == "cond":
                v = val(l[1], env)
                if v is None:
                    return None
                if bool(v) != l[2]:
                    continue
            elif l and l[0] in ("case", "default"):
                return None
            go.append(s)
        if len(go) != 1:
            return None
        m = g.nodes[go[0]]
    return None


# ---- defaults

def defaults(ctx, p, us):
    per = {}
    for f, ev, n in us:
        if n not in KINDS or n == "get_count_internal":
            continue
        k = key_of(ev["e"][3][0])
        at = 2 if n == "get_time" else 1
        if not k or len(ev["e"][3]) <= at:
            continue
        d = ev["e"][3][at]
        v = const_of(d)
        if v is None:
            s = [x[1] for x in walk(d) if x[0] in ("s", "f")]
            v = s[0] if len(s) == 1 else None
        per.setdefault(k, []).append((v, f, ev))
        if n in ("get_time", "get_bytes") and isinstance(v, str):
            ok = re.match(r"\d+ ?[dhmnswyDHMNSWY]" if n == "get_time" else r"\d+", v)
            ctx.ob("default", "%s in %s" % (k, f.short), bool(ok), f.loc(ev["l"]), "the default %r cannot be read" % v)
    for k, xs in sorted(per.items()):
        vs = {v for v, f, ev in xs if v != 0}
        many = [v for v, f, ev in xs]
        odd = min(xs, key=lambda x: many.count(x[0]))
        ctx.ob("default", k, len(vs) <= 1 or None in vs, odd[1].loc(odd[2]["l"]), "a setting not given has different defaults: %s" % ", ".join(sorted(map(str, vs))))


# ---- read only where given

def given(ctx, p):
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if not f.file.startswith(("src/", "include/")):
            continue
        g = None
        for ev in f.events():
            if ev["k"] != "call" or not is_cfg(ev["e"]) or not ev["e"][3]:
                continue
            n = fname(ev["e"])
            need = {"get_int": 1, "get_float": 1, "get_bytes": 1, "get_time": 2}.get(n)
            if n == "get_str" and f.cls == "Config" and f.short != "Config::init" and len(ev["e"][3]) == 1:
                need = 1
            if need is None or len(ev["e"][3]) != need:
                continue
            g = g or Graph(p, f)
            k = key_of(ev["e"][3][0])
            arg = strip_cast(ev["e"][3][0])
            for m in [m for m in g if m.k == "call" and m.line == ev["l"] and is_cfg(m.ev["e"]) and fname(m.ev["e"]) == n and len(m.ev["e"][3]) == need and key_of(m.ev["e"][3][0]) == k]:
                has = lambda e, t: t and is_cfg(strip_cast(e)) and fname(strip_cast(e)) == "exists" and (k is not None and key_of(strip_cast(e)[3][0]) == k or k is None and same_var(strip_cast(e)[3][0], m.ev["e"][3][0])) and samecfg(g, strip_cast(e)[2], m.ev["e"][2])
                r = paths(g).search([g.entry], lambda q: q is m, stop_edge=lambda s, l: implies(g, l, has))
                ctx.ob("given", "%s: %s" % (f.short, k or "the one named"), r is None, m.loc, "a setting that may not be given is read without default")


def same_var(a, b):
    va = {x[2] for x in walk(a) if x[0] == "v"}
    vb = {x[2] for x in walk(b) if x[0] == "v"}
    return bool(va & vb)


def samecfg(g, a, b):
    a, b = [behind(g, x) if x is not None and strip_cast(x)[0] == "v" and strip_cast(behind(g, x))[0] == "c" and strip_cast(behind(g, x))[1].startswith("Config::inst") else x for x in (a, b)]
    clean = lambda e: ("none",) if e is None else ("inst",) if strip_cast(e)[0] == "c" and strip_cast(e)[1].startswith("Config::inst") or strip_cast(e)[0] == "v" and strip_cast(e)[1] == "Config::m_instance" else ("this",) if strip_cast(e)[0] == "t" else ("v", strip_cast(e)[2]) if strip_cast(e)[0] == "v" else strip_cast(e)[:2]
    return clean(a) == clean(b)


# ---- values

def values(ctx, p):
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls != "Config" or f.short.split("::")[-1] not in AS or not f.params:
            continue
        want = AS[f.short.split("::")[-1]]
        g = Graph(p, f, lambda x, e, d: x.cls == "Config" and not x.virt and not finder(x) and x.short != "Config::exists", maxdepth=2)
        what = "%s/%d" % (f.short, len(f.params))
        finds = [n for n in g if n.k == "call" and is_find(p, n.ev["e"]) or n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("find", "at", "operator[]") and mentions_field(n.ev["e"], PROPS)]
        ok = bool(finds) and all(any(x[0] == "v" and x[1] == f.params[0]["n"] and x[3] == "p" for o in deep(g, args(n)[0]) for x in walk(o)) for n in finds)
        ctx.ob("value", "%s: by its name" % what, ok, f.loc(), "not the setting asked for is read")
        absent = lambda e, t: null_ptr(g, e, t)
        there = lambda e, t: null_ptr(g, e, not t)
        asx = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][1].startswith("Property::as_")]
        for n in asx:
            static = n.ev["e"][2] is None
            ctx.ob("value", "%s: its kind" % what, nm(n.ev["e"]) == want, n.loc, "a setting is read as another kind of value than asked for")
            if not static:
                r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, there))
                ctx.ob("value", "%s: if given" % what, r is None, n.loc, "a setting that is not given is read")
        last = f.params[-1]
        if len(f.params) > 1 and "unit" not in last["n"].lower() and "TimeUnit" not in last["t"]:
            bad = lambda e, t: strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("==", "!=") and (strip_cast(e)[1] == "==") == t and any(any(y[0] == "c" and nm(y) == "as_time" for o in origins(g, x) for y in walk(o)) for x in strip_cast(e)[2:4])
            mention = lambda e: any(x[0] == "v" and x[1] == last["n"] for x in walk(e))
            isdef = lambda m: m.k in ("ret",) and m.ev.get("e") is not None and mention(m.ev["e"]) or m.k == "call" and m.ev["e"][0] == "c" and m.ev["e"][1].startswith("Property::as_") and mention(m.ev["e"])
            ds = [m for m in g if isdef(m)]
            before = [m for m in g if m.k in ("decl", "asg") and not m.ev.get("param") and (m.k == "decl" and m.ev["init"] is not None and mention(m.ev["init"]) or m.k == "asg" and mention(m.ev["rhs"]))]
            none = lambda s, l: implies(g, l, lambda e, t: absent(e, t) or bad(e, t))
            r = paths(g).search([g.entry], lambda q: q in ds, stop_edge=none)
            late = paths(g).search([x for m in asx if m.ev["e"][2] is not None for x in after(g, m)], lambda q: q in before, stop_edge=none)
            ctx.ob("value", "%s: default only if not given" % what, r is None and late is None and bool(ds or before) or conditional(g, ds, absent), f.loc(), "the default is used although the setting is given, or never")
            # given: the value, not the default
            starts = [g.nodes[s] for n in g for s, l in n.succ if l and l[0] == "cond" and implies(g, l, there)]
            r = paths(g).search(starts, lambda q: q is g.exit, stop=lambda q: q in asx and q.ev["e"][2] is not None) if starts else None
            ctx.ob("value", "%s: value if given" % what, r is None, f.loc(), "a setting that is given is not read")
        if f.short.endswith("get_time"):
            u = [x for x in f.params if "TimeUnit" in x["t"]]
            for n in asx:
                ctx.ob("value", "%s: in the unit asked for" % what, bool(u) and any(strip_cast(a)[0] == "v" and strip_cast(a)[1] == u[0]["n"] for a in args(n)), n.loc, "a time is not given in the unit asked for")
    for f in p.funcs.values():
        if finder(f) and not f.static:
            g = Graph(p, f)
            fs = V(g, "find")
            ok = bool(fs) and all(mentions_field(n.ev["e"], PROPS) and strip_cast(args(n)[0])[0] == "v" and strip_cast(args(n)[0])[1] == f.params[0]["n"] for n in fs)
            ctx.ob("value", "the setting of that name", ok or any(n.k == "call" and nm(n.ev["e"]) in ("at", "operator[]", "count") for n in g if n.k == "call" and n.ev["e"][0] == "c"), f.loc(), "not the setting of that name is found")
    # counts: one for each kind of listener, from the setting it is named after
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls == "Config":
            for ev in f.events():
                if ev["k"] == "call" and is_cfg(ev["e"]) and fname(ev["e"]) == "get_count_internal":
                    k = key_of(ev["e"][3][0])
                    me = f.short.split("::")[-1].replace("get_", "", 1).replace("_", ".")
                    ctx.ob("value", "%s: its own setting" % f.short, k == me, f.loc(ev["l"]), "a count is read from another setting (%s)" % k)
                    w = strip_cast(ev["e"][3][2])
                    ctx.ob("value", "%s: the one asked for" % f.short, w[0] == "v" and w[3] == "p", f.loc(ev["l"]), "another count than the one asked for is read")


def conditional(g, ds, absent):
    """return c ? default : value"""
    for m in ds:
        e = m.ev.get("e")
        for x in walk(e) if e is not None else ():
            if x[0] == "?":
                return True
    return False


def finder(x):
    return x.cls == "Config" and bool(x.params) and x.ret is not None and "shared_ptr<" in x.ret and "Property" in x.ret


def is_find(p, e):
    return is_cfg(e) and any(finder(x) for x in [p.funcs.get(e[1])] if x)


def null_ptr(g, e, t):
    """says that a looked up setting is not there"""
    e = strip_cast(e)
    while e[0] == "u" and e[1] == "!":
        e, t = strip_cast(e[2]), not t
    if e[0] == "c" and nm(e) in ("operator==", "operator!="):
        a = list(e[3]) + ([e[2]] if e[2] is not None else [])
        if any(strip_cast(x)[0] == "n" for x in a) and any(prop(g, x) for x in a):
            return (nm(e) == "operator==") == t
        if any(y[0] == "c" and nm(y) == "end" for x in a for y in walk(x)) and any(mentions_field(x, PROPS) for x in a):
            return (nm(e) == "operator==") == t
    if is_cfg(e) and fname(e) == "exists":
        return not t
    if e[0] == "c" and "operator bool" in e[1] and e[2] is not None and prop(g, e[2]):
        return not t
    return False


def prop(g, x):
    x = strip_cast(x)
    return any(is_find(g.prog, y) for o in [x, behind(g, x)] for y in walk(o)) or x[0] == "v" and "shared_ptr<Property>" in x[4]


# ---- units

def units(ctx, p):
    for f in p.funcs.values():
        n = f.short.split("::")[-1]
        if f.cls == "Property" and n in ("as_time", "as_bytes", "as_int", "as_float", "as_bool"):
            g = Graph(p, f)
            st = f.params and "basic_string" in f.params[0]["t"]
            src = (lambda e: any(x[0] == "v" and x[1] == f.params[0]["n"] for x in walk(e))) if st else (lambda e: mentions_field(e, "Property::m_value"))
            cs = [m for m in g if m.k == "call" and m.ev["e"][0] == "c"]
            if not st and any(m.ev["e"][1].startswith("Property::" + n) for m in cs):
                for m in cs:
                    if m.ev["e"][1].startswith("Property::" + n):
                        ctx.ob("unit", "%s: its value" % f.id, src(args(m)[0]), m.loc, "not the value of the setting is read")
                        if n == "as_time":
                            ctx.ob("unit", "%s: its unit" % f.id, strip_cast(args(m)[1])[0] == "v" and strip_cast(args(m)[1])[3] == "p", m.loc, "not the unit asked for is used")
                continue
            if n == "as_time":
                for m in [m for m in cs if nm(m.ev["e"]) == "convert_time"]:
                    a = args(m)
                    o = [origins(g, x) | {behind(g, x)} for x in a]
                    num = any(y[0] == "c" and nm(y).startswith("sto") and src(y) for x in o[0] for y in walk(x))
                    frm = any(y[0] == "c" and nm(y) == "to_time_unit" and src(y) for x in o[1] for y in walk(x))
                    to = strip_cast(a[2])[0] == "v" and strip_cast(a[2])[3] == "p"
                    ctx.ob("unit", "times", num and frm and to, m.loc, "a time is not converted from the unit it is written in to the one asked for")
                cv = [m for m in cs if nm(m.ev["e"]) == "convert_time"]
                unk = lambda e, t: strip_cast(e)[0] == "b" and strip_cast(e)[1] in ("==", "!=") and (strip_cast(e)[1] == "!=") == t and any(any(y[0] == "c" and nm(y) == "to_time_unit" for o in origins(g, x) | {behind(g, x)} for y in walk(o)) for x in strip_cast(e)[2:4])
                r = [m for m in cv if paths(g).search([g.entry], lambda q: q is m, stop_edge=lambda s, l: implies(g, l, unk)) is not None]
                ctx.ob("unit", "times without unit", bool(cv) and not r, f.loc(), "a time without a unit is taken as it is")
            elif n == "as_bytes":
                fine = False
                for m in g:
                    es = [("b", "*", m.ev["lhs"], m.ev["rhs"])] if m.k == "asg" and m.ev["op"] == "*=" else list(event_exprs(m))
                    for e in es:
                        for x in walk(e):
                            if x[0] == "b" and x[1] == "*":
                                sides = [{y for o in origins(g, z) | {behind(g, z), strip_cast(z)} for y in walk(o) if y[0] == "c"} for z in x[2:4]]
                                if any(any(nm(y) == "get_bytes_factor" and src(y) for y in s) for s in sides) and any(any(nm(y).startswith("sto") and src(y) for y in s) for s in sides):
                                    fine = True
                ctx.ob("unit", "sizes", fine, f.loc(), "a size is not its number times its unit")
            elif n in ("as_int", "as_float"):
                ok = any(nm(m.ev["e"]).startswith("sto" + ("i" if n == "as_int" else "")) and src(m.ev["e"]) for m in cs)
                ctx.ob("unit", n, ok, f.loc(), "a number is not the one written")
            elif n == "as_bool":
                chars = {x[1] for m in g for e in event_exprs(m) for x in walk(e) if x[0] == "i"} | {ord(c) for m in g for e in event_exprs(m) for x in walk(e) if x[0] == "s" for c in x[1][:1]}
                ctx.ob("unit", "yes and no", 116 in chars and (84 in chars or any(nm(m.ev["e"]) in ("strcasecmp", "tolower", "strncasecmp") for m in cs)) and not any(x[0] == "u" and x[1] == "!" for m in g if m.k == "ret" for x in walk(m.ev["e"])), f.loc(), "yes and no are not told apart")
        if f.short == "to_time_unit" and len(f.params) == 2:
            table = {"d": "DAY", "h": "HOUR", "s": "SEC", "w": "WEEK", "y": "YEAR"}
            got = letters(p, f)
            for c, u in table.items():
                ctx.ob("unit", "times in %s" % u, got.get(c) is None or got[c] == {u}, f.loc(), "a time written with %r is taken as %s" % (c, ", ".join(sorted(got.get(c) or ()))))
            ctx.ob("unit", "times in MIN", got.get("m") is None or "MIN" in got["m"] and not got["m"] & {"DAY", "HOUR", "SEC", "WEEK", "YEAR", "UNKNOWN"}, f.loc(), "a time in minutes is taken as something else")
            ctx.ob("unit", "letters of times", len(got) >= 4, f.loc(), "the letters of times are not told apart")
        if f.short == "get_bytes_factor":
            got = factors(p, f)
            for c, v in (("k", 1 << 10), ("m", 1 << 20), ("g", 1 << 30), ("t", 1 << 40)):
                if got:
                    ctx.ob("unit", "sizes in %s" % c, got.get(c) == {v}, f.loc(), "a size written with %r is taken as %s bytes" % (c, ", ".join(map(str, sorted(x for x in got.get(c, {0}))))))
        if f.short == "convert_time" and len(f.params) == 3:
            conversions(ctx, p, f)
    # what is set while running is read back as it was meant
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        for ev in f.events():
            if ev["k"] == "call" and is_cfg(ev["e"]) and fname(ev["e"]) == "set_value" and len(ev["e"][3]) == 2:
                k = key_of(ev["e"][3][0])
                g = Graph(p, f)
                v = ev["e"][3][1]
                suf = [x[1] for x in walk(v) if x[0] == "s"]
                n = [m for m in g if m.k == "call" and m.line == ev["l"] and is_cfg(m.ev["e"]) and fname(m.ev["e"]) == "set_value"]
                if not k or len(suf) != 1 or not n:
                    continue
                gets = [x for o in walk(n[0].ev["e"][3][1]) if o[0] == "v" for d in origins(g, o) for x in walk(d) if x[0] == "c" and nm(x) == "get_time" and key_of(x[3][0]) == k]
                for x in gets:
                    u = strip_cast(x[3][1])
                    u = str(u[2]).split("::")[-1] if len(u) > 2 else None
                    want = {"DAY": "d", "HOUR": "h", "SEC": "s", "MIN": "m", "WEEK": "w"}.get(u)
                    ctx.ob("unit", "%s: %s set again" % (f.short, k), want is None or suf[0].startswith(want), f.loc(ev["l"]), "a time read in one unit is set in another")


SECS = {"MS": Fraction(1, 1000), "SEC": Fraction(1), "MIN": Fraction(60), "HOUR": Fraction(3600), "DAY": Fraction(86400), "WEEK": Fraction(604800), "MONTH": Fraction(30 * 86400), "YEAR": Fraction(365 * 86400)}


def conversions(ctx, p, f):
    en = next((v["consts"] for k, v in p.enums.items() if k.split("::")[-1] == "TimeUnit"), None)
    if not en:
        return
    num = {str(k).split("::")[-1]: v for k, v in (en.items() if isinstance(en, dict) else [(x[0], x[1]) for x in en])}
    g = Graph(p, f, lambda x, e, d: x.file == f.file and x.short.startswith("static:"), maxdepth=2)
    for a in SECS:
        for b in SECS:
            if a in num and b in num:
                r = ratio(g, f, num[a], num[b])
                if r is not None:
                    ctx.ob("unit", "%s to %s" % (a, b), r == SECS[a] / SECS[b], f.loc(), "%s are turned to %s with the factor %s" % (a, b, r))


def ratio(g, f, a, b):
    """the factor a time is multiplied with, where it can be followed"""
    env = {}
    byname = {f.params[1]["n"]: a, f.params[2]["n"]: b}
    fac = {f.params[0]["n"]: Fraction(1)}

    def num(e):
        e = strip_cast(e)
        if const_of(e) is not None:
            return const_of(e)
        if e[0] == "v":
            return byname.get(e[1])
        if e[0] == "b":
            x, y = num(e[2]), num(e[3])
            if x is None or y is None:
                return None
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "&&": bool(x and y), "||": bool(x or y), "*": x * y}.get(e[1])
        if e[0] == "u" and e[1] == "!":
            x = num(e[2])
            return None if x is None else not x
        return None

    def times(e):
        e = strip_cast(e)
        if e[0] == "v":
            return fac.get(e[1])
        if e[0] == "b" and e[1] in ("*", "/"):
            x, y = times(e[2]), num(e[3])
            if x is None and e[1] == "*":
                x, y = times(e[3]), num(e[2])
            if x is None or not y:
                return None
            return x * y if e[1] == "*" else x / y
        return None
    m = g.entry
    for _ in range(300):
        if m.k == "asg":
            l = strip_cast(m.ev["lhs"])
            if l[0] != "v":
                return None
            k = num(m.ev["rhs"])
            if m.ev["op"] in ("*=", "/="):
                if k is None or fac.get(l[1]) is None or not k:
                    return None
                fac[l[1]] = fac[l[1]] * k if m.ev["op"] == "*=" else fac[l[1]] / k
            elif m.ev["op"] == "=" and l[1] in fac or m.ev["op"] == "=" and times(m.ev["rhs"]) is not None:
                fac[l[1]] = times(m.ev["rhs"])
                if fac[l[1]] is None:
                    return None
            else:
                return None
        elif m.k == "decl" and not m.ev.get("param"):
            if m.ev["init"] is None:
                pass
            elif times(m.ev["init"]) is not None:
                fac[m.ev["n"]] = times(m.ev["init"])
            elif num(m.ev["init"]) is not None:
                byname[m.ev["n"]] = num(m.ev["init"])
            else:
                return None
        elif m.k == "ret":
            return times(m.ev["e"]) if m.ev.get("e") is not None else None
        elif m.k in ("call", "throw"):
            return None
        go = None
        cases = [(s, l) for s, l in m.succ if l and l[0] in ("case", "default")]
        if cases:
            v = num(cases[0][1][1])
            if v is None:
                return None
            go = next((s for s, l in cases if l[0] == "case" and v in [const_of(x) for x in l[2]]), None)
            if go is None:
                go = next((s for s, l in cases if l[0] == "default"), None)
        else:
            for s, l in m.succ:
                if l and l[0] == "eh":
                    continue
                if l and l[0] == "cond":
                    v = num(l[1])
                    if v is None:
                        return None
                    if bool(v) != l[2]:
                        continue
                go = s
                break
        if go is None:
            return None
        m = g.nodes[go]
    return None


def letters(p, f):
    """letter -> units a path through the switch ends with"""
    g = Graph(p, f, lambda x, e, d: x.file == f.file and not x.virt and x.short.startswith("static:"), maxdepth=2)
    out = {}
    for n in g:
        for s, l in n.succ:
            cs = []
            if l and l[0] == "case":
                cs = [const_of(v) for v in l[2]]
            elif l and l[0] == "cond":
                for e, t in truths(l):
                    e = strip_cast(e)
                    if t and e[0] == "b" and e[1] == "==" and any(const_of(x) is not None for x in e[2:4]):
                        cs.append([const_of(x) for x in e[2:4] if const_of(x) is not None][0])
            for c in cs:
                if c is None or not 97 <= c <= 122:
                    continue
                vals = set()
                todo, seen = [(g.nodes[s], "UNKNOWN")], set()
                while todo:
                    m, u = todo.pop()
                    if (m.id, u) in seen:
                        continue
                    seen.add((m.id, u))
                    u = unit_of(m) or u
                    if m is g.exit:
                        vals.add(u)
                        continue
                    todo += [(g.nodes[x], u) for x, y in m.succ if not (y and y[0] == "eh")]
                out.setdefault(chr(c), set()).update(vals)
    # the letters behind an m do not count on their own
    for c in ("i", "o"):
        out.pop(c, None)
    if "s" in out and "MS" in out["s"]:
        out["s"].discard("MS")
    return out


def unit_of(m):
    e = m.ev.get("rhs") if m.k == "asg" else m.ev.get("e") if m.k == "ret" else None
    e = strip_cast(e) if e is not None else None
    if e is not None and e[0] == "i" and len(e) > 2:
        u = str(e[2]).split("::")[-1]
        return u if u in ("MS", "SEC", "MIN", "HOUR", "DAY", "WEEK", "MONTH", "YEAR") else None
    return None


def factors(p, f):
    """letter -> factor, along the paths from its label"""
    g = Graph(p, f)
    out = {}
    for n in g:
        for s, l in n.succ:
            if not l or l[0] != "case":
                continue
            for v in l[2]:
                c = const_of(v)
                if c is None:
                    continue
                todo = [(g.nodes[s], 1, frozenset())]
                while todo:
                    m, k, seen = todo.pop()
                    if m.id in seen:
                        continue
                    if m.k == "asg" and strip_cast(m.ev["lhs"])[0] == "v":
                        r = m.ev["rhs"]
                        if m.ev["op"] == "*=" and const_of(r) is not None:
                            k *= const_of(r)
                        elif m.ev["op"] == "<<=" and const_of(r) is not None:
                            k <<= const_of(r)
                        elif m.ev["op"] == "=" and const_of(r) is not None:
                            k = const_of(r)
                    if m.k == "ret" and const_of(m.ev["e"]) is not None:
                        k = const_of(m.ev["e"])
                    if m is g.exit:
                        out.setdefault(chr(c), set()).add(k)
                        continue
                    todo += [(g.nodes[x], k, seen | {m.id}) for x, y in m.succ if not (y and y[0] == "eh")]
    return out


# ---- who wins

def sets(n):
    return n.k == "call" and is_cfg(n.ev["e"]) and fname(n.ev["e"]) in ("set_value_no_lock", "set_value")


def wins(ctx, p, us):
    for f in p.funcs.values():
        if f.short == "Config::load":
            g = Graph(p, f, lambda x, e, d: x.cls == "Config" and not x.virt and not x.short.endswith("set_value_no_lock") and not finder(x), maxdepth=2)
            over = [n for n in g if sets(n) and any(over_src(g, a) for a in args(n))]
            file = [n for n in g if sets(n) and n not in over and not any(x[0] == "s" for x in walk(args(n)[0]))]
            ctx.ob("wins", "the file is read", bool(file), f.loc(), "no setting of the file is taken")
            ctx.ob("wins", "the command line is read", bool(over), f.loc(), "no setting of the command line is taken")
            for n in over:
                r = paths(g).search(after(g, n), lambda q: q in file)
                ctx.ob("wins", "the command line after the file", r is None, n.loc, "the file's settings win over the command line's")
                why = each(g, [n])
                ctx.ob("wins", "all of the command line", why is None, n.loc, "not all settings of the command line are taken: %s" % why)
                a = args(n)
                ok = any(x[0] == "m" and x[2].endswith("::first") for x in walk(behind(g, a[0]))) and any(x[0] == "m" and x[2].endswith("::second") for x in walk(behind(g, a[1])))
                ctx.ob("wins", "the command line as given", ok, n.loc, "names and values of the command line are mixed up")
                lp = loop_of(g, n)
                no = lambda s, l: implies(g, l, lambda e, t: not t and strip_cast(e)[0] == "v" and strip_cast(e)[3] == "p")
                if lp:
                    r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q.id == lp[0], stop_edge=no)
                    ctx.ob("wins", "the command line always", r is None, n.loc, "the command line's settings are left out though asked for")
            clears = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "clear" and mentions_field(n.ev["e"], PROPS)]
            for n in clears:
                r = paths(g).search([x for m in file + over for x in after(g, m)], lambda q: q is n)
                ctx.ob("wins", "nothing thrown away", r is None, n.loc, "settings read are thrown away")
            for n in file:
                skip = lambda s, l: implies(g, l, lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "starts_with") or implies(g, l, lambda e, t: not t and strip_cast(e)[0] == "c" and nm(e) == "tokenize") or implies(g, l, lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "empty")
                why = each(g, [n], excuse=skip) if loop_of(g, n) else "it is done once only"
                bad = [why] if why and "passed over" in why else []
                ctx.ob("wins", "all of the file", not bad and loop_of(g, n) is not None, n.loc, "not all settings of the file are taken: %s" % why)
        if f.short == "Config::set_value_no_lock":
            g = Graph(p, f)
            val = f.params[1]["n"]
            has = lambda e: any(x[0] == "v" and x[1] == val for x in walk(e))
            keep = lambda m: m.k == "call" and m.ev["e"][0] == "c" and (nm(m.ev["e"]) == "set_value" and any(has(a) for a in args(m)) or nm(m.ev["e"]) in ("operator=", "reset", "emplace", "insert") and mentions_field(m.ev["e"], PROPS))
            made = any(has(e) and (n.k in ("ctor", "new") and "Property" in str(e[1]) or n.k == "call" and e[0] == "c" and nm(e) in ("make_shared", "set_value", "emplace")) for n in g if n.k in ("ctor", "new", "call") for e in [n.ev["e"]])
            r = paths(g).search([g.entry], lambda q: q is g.exit, stop=keep)
            ctx.ob("wins", "setting a value", r is None and made, f.loc(), "a value that is set is not kept")
            for n in [n for n in g if n.k == "ctor" and n.ev["e"][1] == "Property" and len(n.ev["e"][3]) == 2]:
                a = [strip_cast(x) for x in n.ev["e"][3]]
                ctx.ob("wins", "a new setting", a[0][0] == "v" and a[0][1] == f.params[0]["n"] and a[1][0] == "v" and a[1][1] == val, n.loc, "name and value of a new setting are mixed up")
        if f.short == "Config::set_value":
            ok = any(ev["k"] == "call" and is_cfg(ev["e"]) and fname(ev["e"]) == "set_value_no_lock" and [strip_cast(a)[1] for a in ev["e"][3] if strip_cast(a)[0] == "v"] == [x["n"] for x in f.params] for ev in f.events())
            ctx.ob("wins", "setting while running", ok or not any(ev["k"] == "call" and is_cfg(ev["e"]) for ev in f.events()), f.loc(), "a value that is set is not kept")
        if f.short == "Config::add_override":
            g = Graph(p, f)
            keep = lambda m: m.k == "call" and m.ev["e"][0] == "c" and (nm(m.ev["e"]) == "set_value" and any(x[0] == "v" and x[1] == f.params[1]["n"] for a in args(m) for x in walk(a)) or nm(m.ev["e"]) in ("operator=", "reset", "emplace", "insert") and (mentions_global(m.ev["e"], OVER)))
            r = paths(g).search([g.entry], lambda q: q is g.exit, stop=keep)
            ctx.ob("wins", "the command line is kept", r is None, f.loc(), "a setting of the command line is not kept")
        if f.short == "Config::exists":
            g = Graph(p, f)
            found = any(n.k == "call" and (is_find(p, n.ev["e"]) or n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("find", "count") and mentions_field(n.ev["e"], PROPS)) for n in g)
            wrong = False
            for n in g:
                if n.k == "ret" and n.ev.get("e") is not None:
                    todo = [strip_cast(n.ev["e"])]
                    while todo:
                        x = strip_cast(todo.pop())
                        if x[0] == "b" and x[1] in ("||", "&&"):
                            wrong = wrong or x[1] == "&&"
                            todo += [x[2], x[3]]
                        elif null_ptr(g, x, True):
                            wrong = True
            ctx.ob("wins", "given is given", found and not wrong, f.loc(), "a setting that is given is taken as not given")
        if f.short == "Config::init":
            init(ctx, p, f)
    known = {key_of(ev["e"][3][0]) for f, ev, n in us if n in KINDS or n == "exists"}
    # names offered on the command line are names of settings
    for f, ev, n in us:
        if n == "add_override":
            a = ev["e"][3]
            g = Graph(p, f)
            nodes = [m for m in g if m.k == "call" and is_cfg(m.ev["e"]) and fname(m.ev["e"]) == "add_override"]
            for m in nodes:
                x, y = behind(g, args(m)[0]), behind(g, args(m)[1])
                ctx.ob("wins", "options as given", any(z[0] == "m" and z[2].endswith("::name") for z in walk(x)) and any(z[0] == "v" and z[1] == "optarg" for z in walk(y)), m.loc, "an option of the command line is not kept as it was given")
            names = set()
            for e2 in f.events():
                if e2["k"] == "decl" and "option" in e2["t"] and e2.get("init") is not None:
                    names |= {x[1] for x in walk(e2["init"]) if x[0] == "s"}
            for nme, gl in p.globals.items():
                if "option" in str(gl.get("t", "")) and gl.get("init") is not None:
                    names |= {x[1] for x in walk(gl["init"]) if x[0] == "s"}
            for s in sorted(x for x in names if "." in x):
                ctx.ob("wins", "option %s" % s, s in known, f.loc(ev["l"]), "an option of the command line that no one reads")


def over_src(g, a):
    return any(mentions_global(o, OVER) for o in deep(g, a))


def deep(g, e, n=6):
    """an expression, and what the locals in it stand for"""
    out, todo, seen = [e], [e], set()
    while todo and n:
        x = todo.pop()
        for y in walk(x):
            if y[0] == "v" and y[3] != "g" and y[2] not in seen:
                seen.add(y[2])
                for d in common._defs(g).get(y[2], ()):
                    out.append(d)
                    todo.append(d)
    return out


def init(ctx, p, f):
    g = Graph(p, f, lambda x, e, d: x.file == f.file and x.short.startswith("static:"), maxdepth=2)
    also = {strip_cast(n.ev["rhs"])[2] for n in g if n.k == "asg" and strip_cast(n.ev["lhs"])[0] == "v" and strip_cast(n.ev["lhs"])[1] == "Config::m_instance" and strip_cast(n.ev["rhs"])[0] == "v"}
    inst = lambda e: e is not None and strip_cast(e)[0] == "v" and (strip_cast(e)[1] == "Config::m_instance" or strip_cast(e)[2] in also)
    C = lambda n, *names: n.k == "call" and is_cfg(n.ev["e"]) and fname(n.ev["e"]) in names
    loads = [n for n in g if C(n, "load") and inst(n.ev["e"][2])]
    ctx.ob("wins", "the command line is asked for", any(const_of(args(n)[0]) == 1 for n in loads), f.loc(), "the command line's settings are not taken at the start")
    gets = [n for n in g if C(n, "get_str", "get_bool", "get_int", "get_time", "get_bytes", "exists") and inst(n.ev["e"][2])]
    ver = lambda n: C(n, "verify") and inst(n.ev["e"][2])
    r = paths(g).search([g.entry], lambda q: q in gets, stop=ver)
    ctx.ob("wins", "looked at before used", r is None, f.loc(), "settings are used before they are looked at")
    r = paths(g).search([g.entry], ver, stop=lambda q: q in loads)
    ctx.ob("wins", "read before looked at", r is None, f.loc(), "settings are looked at before they are read")
    # the data's own
    KEY = "tsdb.rollup.buckets"
    own = lambda e: e is not None and strip_cast(e)[0] == "v" and strip_cast(e)[3] == "l" and "Config" in strip_cast(e)[4]
    has = lambda e, t: t and is_cfg(strip_cast(e)) and fname(strip_cast(e)) == "exists" and own(strip_cast(e)[2]) and key_of(strip_cast(e)[3][0]) == KEY
    hasnt = lambda e, t: has(e, not t)
    take = lambda n: sets(n) and inst(n.ev["e"][2]) and key_of(args(n)[0]) == KEY and any(x[0] == "c" and is_cfg(x) and own(x[2]) for o in deep(g, args(n)[1]) for x in walk(o))
    keep = lambda n: sets(n) and own(n.ev["e"][2]) and key_of(args(n)[0]) == KEY
    starts = [g.nodes[s] for n in g for s, l in n.succ if l and l[0] == "cond" and implies(g, l, has)]
    r = paths(g).search(starts, lambda q: q is g.exit, stop=take) if starts else True
    ctx.ob("wins", "the data's own setting is used", r is None, f.loc(), "the setting the data was written with is not used")
    starts = [g.nodes[s] for n in g for s, l in n.succ if l and l[0] == "cond" and implies(g, l, hasnt)]
    r = paths(g).search(starts, lambda q: q is g.exit, stop=keep) if starts else True
    ctx.ob("wins", "a new data's setting is kept", r is None, f.loc(), "the setting new data is written with is not kept with it")
    pers = lambda n: C(n, "persist") and own(n.ev["e"][2])
    r = paths(g).search([g.entry], lambda q: q is g.exit, stop=pers)
    r2 = paths(g).search([x for n in g if pers(n) for x in after(g, n)], keep)
    ctx.ob("wins", "and written", r is None and r2 is None, f.loc(), "the setting new data is written with is not kept with it")
    ld = lambda n: C(n, "load") and own(n.ev["e"][2])
    nofile = lambda s, l: implies(g, l, lambda e, t: not t and strip_cast(e)[0] == "c" and nm(e) == "file_exists")
    r = paths(g).search([g.entry], lambda q: keep(q) or take(q) or pers(q), stop=ld, stop_edge=nofile)
    ctx.ob("wins", "the data's own are read", r is None, f.loc(), "the data's own settings are overwritten without reading them")
    # version of the data
    empty = lambda s, l: implies(g, l, lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "is_dir_empty")
    v = [n for n in g if C(n, "get_str") and key_of(args(n)[0]) == "ticktockdb.version"]
    r = paths(g).search([g.entry], pers, stop=lambda q: q in v, stop_edge=empty)
    ctx.ob("wins", "the data's version is looked at", r is None and bool(v), f.loc(), "data of another version is taken on")
    for n in v:
        noversion = lambda e, t: t and strip_cast(e)[0] == "c" and nm(e) == "empty" and "basic_string" in e[1]
        st = [g.nodes[s] for m in g for s, l in m.succ if l and l[0] == "cond" and implies(g, l, noversion)]
        r = paths(g).search(st, lambda q: q is g.exit) if st else True
        ctx.ob("wins", "data without version", r is None, n.loc, "data without a version is taken on")
    olds = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "stoi"]
    if olds:
        young = lambda s, l: implies(g, l, lambda e, t: strip_cast(e)[0] == "b" and any(y[0] == "c" and nm(y) == "stoi" for y in walk(e)) and (strip_cast(e)[1] in ("<", "<=")) != t)
        old = lambda e, t: strip_cast(e)[0] == "b" and strip_cast(e)[1] == "<" and t and const_of(strip_cast(e)[3]) == 20 and any(y[0] == "c" and nm(y) == "stoi" for y in walk(e))
        st = [g.nodes[s] for m in g for s, l in m.succ if l and l[0] == "cond" and implies(g, l, old)]
        r = paths(g).search(st, lambda q: q is g.exit, stop_edge=young) if st else None
        ctx.ob("wins", "old data", r is None, olds[0].loc, "data of a version that is too old is taken on")
    # what cannot change while running stays when the file is read again
    rl = [(h, ev) for h in p.funcs.values() for ev in h.events() if ev["k"] == "call" and is_cfg(ev["e"]) and fname(ev["e"]) == "load" and h.short != "Config::init" and ev["e"][2] is not None and running(h, ev["e"])]
    for h, ev in rl:
        ok = False
        for x in [y for y in p.funcs.values() if y.short == "Config::load"] + [h]:
            gg = Graph(p, x)
            ns = [m for m in gg if sets(m) and key_of(args(m)[0]) == KEY]
            if ns and any(paths(gg).search(after(gg, m), lambda q: sets(q) and q not in ns) is None for m in ns):
                ok = True
        ctx.ob("wins", "%s: reading again" % h.short, ok, h.loc(ev["l"]), "reading the file again drops the setting the data was written with")


# ---- kept with the data

def kept(ctx, p):
    for f in p.funcs.values():
        if f.short == "Config::persist":
            g = Graph(p, f, lambda x, e, d: x.cls == "Config" and not x.virt and x.short != "Config::exists", maxdepth=2)
            outs = [n for n in g if n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "operator<<"]
            names = [n for n in outs if any(x[0] == "c" and nm(x) == "get_name" for x in walk(n.ev["e"])) or any(x[0] == "m" and x[2].endswith("::first") for x in walk(n.ev["e"]))]
            vals = [n for n in outs if any(x[0] == "c" and nm(x) == "as_str" for x in walk(n.ev["e"]))]
            for what, ns in (("names", names), ("values", vals)):
                why = each(g, ns) if ns else "it is not done"
                ctx.ob("kept", "all %s are written" % what, why is None, f.loc(), "not all settings are written: %s" % why)
            lits = {x[1] for n in outs for x in walk(n.ev["e"]) if x[0] == "s"}
            ctx.ob("kept", "written as read", any("=" in x for x in lits), f.loc(), "settings are not written the way they are read")
            ver = [n for n in outs if any(x[0] == "s" and "ticktockdb.version" in x[1] for x in walk(n.ev["e"]))]
            have = lambda s, l: implies(g, l, lambda e, t: t and any(x[0] == "c" and is_cfg(x) and fname(x) == "exists" for o in deep(g, e) for x in walk(o)) and strip_cast(e)[0] != "u")
            r = paths(g).search([g.entry], lambda q: q is g.exit, stop=lambda q: q in ver, stop_edge=have)
            ctx.ob("kept", "the version is written", r is None and bool(ver), f.loc(), "the version of new data is not kept")
            op = [n for n in g if n.k == "ctor" and "basic_fstream" in n.ev["e"][1] or n.k == "ctor" and "basic_ofstream" in n.ev["e"][1]]
            for n in op:
                modes = {x[1] for x in walk(n.ev["e"]) if x[0] == "v" and x[3] == "g"}
                ctx.ob("kept", "written anew", not any(m.endswith("::app") for m in modes), n.loc, "settings are written behind the old ones")
                ctx.ob("kept", "its own file", mentions_field(n.ev["e"], "Config::m_file_name"), n.loc, "settings are written to another file")
        if f.short == "Config::append":
            g = Graph(p, f)
            for n in [n for n in g if n.k == "ctor" and "stream" in n.ev["e"][1] and mentions_field(n.ev["e"], "Config::m_file_name")]:
                modes = {x[1] for x in walk(n.ev["e"]) if x[0] == "v" and x[3] == "g"}
                ctx.ob("kept", "added behind", any(m.endswith("::app") for m in modes) and not any(m.endswith("::trunc") for m in modes), n.loc, "adding a setting drops the others")


# ---- places

def places(ctx, p):
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if f.cls != "Config" or f.ret is None or "basic_string" not in f.ret or f.params:
            continue
        g = Graph(p, f)
        gets = [n for n in g if n.k == "call" and is_cfg(n.ev["e"]) and fname(n.ev["e"]) == "get_str" and key_of(args(n)[0])]
        homes = [n for n in gets if key_of(args(n)[0]) == "ticktock.home"]
        own = {key_of(args(n)[0]) for n in gets} - {"ticktock.home"}
        for n in homes:
            for k in own:
                not_ = lambda e, t: not t and is_cfg(strip_cast(e)) and fname(strip_cast(e)) == "exists" and key_of(strip_cast(e)[3][0]) == k
                r = paths(g).search([g.entry], lambda q: q is n, stop_edge=lambda s, l: implies(g, l, not_))
                ctx.ob("place", "%s: %s first" % (f.short, k), r is None, n.loc, "the home directory is used although %s is given" % k)
        wd = [m for m in g if m.k == "ret" and m.ev.get("e") is not None and mentions_global(m.ev["e"], "g_working_dir") and homes]
        for m in wd:
            nohome = lambda e, t: not t and is_cfg(strip_cast(e)) and fname(strip_cast(e)) == "exists" and key_of(strip_cast(e)[3][0]) == "ticktock.home"
            has = lambda e, t: t and is_cfg(strip_cast(e)) and fname(strip_cast(e)) == "exists" and key_of(strip_cast(e)[3][0]) in own
            r = paths(g).search([g.entry], lambda q: q is m, stop_edge=lambda s, l: implies(g, l, nohome) or implies(g, l, has))
            ctx.ob("place", "%s: home before the current directory" % f.short, r is None, m.loc, "the current directory is used although a home is given")
        rets = [m for m in g if m.k == "ret" and m.ev.get("e") is not None]
        sub = {f.short: {"get_data_dir": "/data", "get_log_dir": "/log"}.get(f.short.split("::")[-1])}[f.short]
        if sub and homes:
            tails = {x[1] for m in rets for x in walk(m.ev["e"]) if x[0] == "s" and x[1].startswith("/")}
            ctx.ob("place", "%s: one directory" % f.short, len(tails) <= 1, f.loc(), "the directory has different names, depending on how it is found: %s" % ", ".join(sorted(tails)))
        if f.short.endswith("get_wal_dir"):
            ctx.ob("place", f.short, any(x[0] == "c" and fname(x) == "get_data_dir" for m in rets for o in deep(g, m.ev["e"]) for x in walk(o)), f.loc(), "the append log is not kept with the data")
