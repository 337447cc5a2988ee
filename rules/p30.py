"""What is not there is not used: null pointers, lookups that found nothing, and
results that may be null."""
from common import *
import common
from p18 import after
from p22 import nm, behind

ASSUMPTIONS = [
    "pointers kept in members are as their class keeps them; a null test of a member counts until the next call or assignment",
    "memory allocation either succeeds or throws, except where the result is compared with null",
]

# library functions that answer with null
PROG = [None]

EXT = {"strchr", "strrchr", "strstr", "memchr", "memrchr", "strpbrk", "fopen", "fdopen", "opendir", "readdir", "popen", "getenv", "secure_getenv"}


def check(ctx):
    p = PROG[0] = ctx.prog
    ctx.rule("null", "a pointer found to be null is not followed", 30)
    ctx.rule("absent", "a position found to be the end is not followed", 15)
    ctx.rule("found", "what a lookup gives is followed only if it was found", 15)
    ctx.rule("tested", "a result that may be null is followed only if it is not", 15)
    may = may_be_null(p)
    for f in sorted(p.funcs.values(), key=lambda f: f.id):
        if not f.file.startswith(("src/", "include/")):
            continue
        g = whole(p, f)
        ctx.analysed(f)
        nulls(ctx, f, g)
        absent(ctx, f, g)
        results(ctx, f, g, may)


# ---- pointers

def strip_eq(e):
    """the variable of an assignment used as a value"""
    e = strip_cast(e)
    return strip_cast(e[2]) if e[0] == "b" and e[1] == "=" else e


def pointer(e):
    e = strip_eq(e)
    if e[0] == "v":
        return e if len(e) > 4 and ("*" in e[4] or e[4] == "auto" or "shared_ptr" in e[4]) else None
    if e[0] == "m":
        return e if steady(e[1]) and len(e) > 3 and str(e[3]).replace("const", "").strip().endswith("*") else None
    return e if e[0] == "x" and steady(e) else None


def steady(e):
    """does naming it twice name the same thing, if nothing happens in between?"""
    e = strip_cast(e)
    if e[0] in ("v", "t", "i"):
        return True
    if e[0] == "m":
        return steady(e[1])
    return e[0] == "x" and steady(e[1]) and steady(e[2])


def own(v):
    """is it a local variable?"""
    return v[0] == "v" and v[3] != "g"


def said(g, l):
    """what a branch says, also of conditions kept in variables"""
    out = []
    for e, t in truths(l):
        e = strip_cast(e)
        while e[0] == "u" and e[1] == "!":
            e, t = strip_cast(e[2]), not t
        if e[0] == "v" and len(e) > 4 and e[4].replace("const ", "") == "bool":
            b = behind(g, e)
            while b[0] == "u" and b[1] == "!":
                b, t = behind(g, b[2]), not t
            # of several conditions, those that must hold
            todo = [(b, t)]
            while todo:
                b, t = todo.pop()
                b = strip_cast(b)
                if b[0] == "b" and b[1] in ("&&", "||"):
                    if (b[1] == "&&") == t:
                        todo += [(b[2], t), (b[3], t)]
                elif b[0] == "u" and b[1] == "!":
                    todo.append((b[2], not t))
                else:
                    out.append((b, t))
        else:
            out.append((e, t))
    return out


def null_said(g, l):
    """(pointer, is null) pairs of a branch"""
    out = []
    for e, t in said(g, l):
        e = strip_cast(e)
        if e[0] == "b" and e[1] in ("==", "!="):
            a, b = strip_cast(e[2]), strip_cast(e[3])
            if a[0] == "n":
                a, b = b, a
            if b[0] == "n" or const_of(b) == 0:
                v = pointer(a)
                if v is not None:
                    out.append((v, (e[1] == "==") == t))
            elif (e[1] == "==") == t:
                # equal to something that is there
                for x, y in ((a, b), (b, a)):
                    if pointer(x) is not None and y[0] == "u" and y[1] == "&":
                        out.append((pointer(x), False))
        elif e[0] == "c" and nm(e) in ("operator==", "operator!=") and "nullptr_t" in e[1]:
            for a in list(e[3]) + [e[2]]:
                if a is not None and pointer(a) is not None:
                    out.append((pointer(a), (nm(e) == "operator==") == t))
        elif e[0] == "c" and nm(e) == "operator bool" and e[2] is not None and pointer(e[2]) is not None:
            out.append((pointer(e[2]), not t))
        else:
            v = pointer(e)
            if v is not None:
                out.append((v, not t))
    return out


# library functions that follow what they are given
USES = {"strlen", "strcmp", "strncmp", "strcpy", "strcat", "strdup", "strchr", "strrchr", "strstr", "memcpy", "memset", "memmove", "memcmp", "atoi", "atol", "atof",
        "stoi", "strtol", "fclose", "fprintf", "fread", "fwrite", "fputs", "fgets", "readdir", "pclose"}


def follows(p, fid, i, busy=()):
    """does the function follow its parameter without looking?"""
    memo = p.__dict__.setdefault("_p30", {})
    if (fid, i) in memo or (fid, i) in busy or len(busy) > 3:
        return memo.get((fid, i), False)
    f, r = p.funcs.get(fid), False
    if f is not None and i < len(f.params) and not f.virt:
        g = whole(p, f)
        isp = lambda x: x[0] == "v" and x[3] == "p" and x[1] == f.params[i]["n"]
        there = lambda q, m: bool(m) and m[0] == "cond" and any(isp(strip_cast(x)) for e, t in truths(m) for x in walk(behind(g, e)))
        hit = lambda q: any(isp(w) for w in followed(q, busy + ((fid, i),)))
        r = paths(g).search([g.entry], hit, stop=lambda q: q.k == "asg" and isp(strip_cast(q.ev["lhs"])), stop_edge=there) is not None
    memo[(fid, i)] = r
    return r


def whole(p, f):
    memo = p.__dict__.setdefault("_p30g", {})
    if f.id not in memo:
        memo[f.id] = Graph(p, f, lambda *a: False)
    return memo[f.id]


def followed(n, busy=(), given=True):
    """the pointers followed here, also by what they are given to"""
    out = []
    if given and n.k == "call" and n.ev["e"][0] == "c":
        e = n.ev["e"]
        for i, a in enumerate(e[3]):
            a = strip_cast(a)
            if (a[0] in ("v", "m", "x")) and (e[1] not in PROG[0].funcs and nm(e) in USES and (i == 0 or nm(e)[:3] in ("mem", "str")) or follows(PROG[0], e[1], i, busy)):
                out.append(a)
    if n.k == "acc" and n.ev.get("arrow"):
        e = strip_cast(n.ev["e"])
        if e[0] == "m":
            out.append(strip_cast(e[1]))
    elif n.k == "deref":
        out.append(strip_cast(n.ev["e"]))
    elif n.k == "sub":
        e = strip_cast(n.ev["e"])
        if e[0] == "x":
            out.append(strip_cast(e[1]))
    elif n.k == "call" and n.ev["e"][0] == "c" and n.ev["e"][2] is not None:
        out.append(strip_cast(n.ev["e"][2]))
    return out


def sets(n, v):
    """may the pointer be another one from here on?"""
    if n.k == "asg" and strip_cast(n.ev["lhs"]) == v:
        return True
    if n.k == "decl":
        return v[0] == "v" and n.ev["id"] == v[2]
    if not own(v) and n.k in ("asg", "del") and any(strip_cast(n.ev.get("lhs") or n.ev["e"]) == strip_cast(x) for x in walk(v)):
        return True
    if renewed(n, v):
        return True
    if n.k in ("call", "ctor"):
        if not own(v):
            return True
        for a in n.ev["e"][3] if n.ev["e"][0] in ("c", "k") else args(n):
            a = strip_cast(a)
            if a[0] == "u" and a[1] == "&" and strip_cast(a[2]) == v:
                return True
            if a == v and by_reference(n.ev["e"]):
                return True
    return False


def renewed(n, v):
    return n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) in ("operator=", "reset") and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2]) == v


def by_reference(e):
    t = str(e[1] if e[0] == "c" else e[2]).replace(" ", "")
    return "*&" in t or "void**" in t


def nulls(ctx, f, g):
    done = set()
    for n in g:
        for s, l in n.succ:
            if not l or l[0] != "cond":
                continue
            for v, null in null_said(g, l):
                if not null or (n.id, s, v) in done:
                    continue
                done.add((n.id, s, v))
                there = lambda q, m: any(w == v and not z for w, z in null_said(g, m))
                r = paths(g).search([g.nodes[s]], lambda q: v in followed(q) and not renewed(q, v), stop=lambda q: sets(q, v), stop_edge=there)
                ctx.ob("null", "%s: %s" % (f.short, v[1] if v[0] == "v" else v[2] if v[0] == "m" else "element"), r is None, n.loc if n.ev else f.loc(), "it is followed although it is null")


# ---- positions in containers

def place(e):
    e = strip_cast(e)
    return e if e[0] == "v" and e[3] != "g" and len(e) > 4 and "iterator" in e[4] else None


def end_said(g, l):
    """(position, is the end) pairs of a branch"""
    out = []
    for e, t in said(g, l):
        if e[0] == "c" and nm(e) in ("operator==", "operator!="):
            a = [strip_cast(x) for x in list(e[3]) + ([e[2]] if e[2] is not None else [])]
            if len(a) != 2:
                continue
            at = [behind(g, x) for x in a]
            for i in (0, 1):
                o = at[1 - i]
                o = strip_cast(o[3][0]) if o[0] == "k" and o[3] else o
                if o[0] == "c" and nm(o) in ("end", "cend", "rend") and place(a[i]) is not None:
                    out.append((place(a[i]), (nm(e) == "operator==") == t))
    return out


def at_place(n):
    e = n.ev["e"] if n.k == "call" and n.ev["e"][0] == "c" else None
    if e is None or not ("operator->" in e[1] or "operator*" in e[1]):
        return None
    return strip_cast(e[2]) if e[2] is not None else strip_cast(e[3][0]) if e[3] else None


def moves(n, v):
    if n.k == "decl":
        return n.ev["id"] == v[2]
    if n.k == "asg":
        return strip_cast(n.ev["lhs"])[:3:2] == v[:3:2]
    if n.k == "call" and n.ev["e"][0] == "c":
        e = n.ev["e"]
        return e[2] is not None and strip_cast(e[2])[:3:2] == v[:3:2] and nm(e) in ("operator=", "operator++", "operator--", "operator+=")
    return False


def absent(ctx, f, g):
    done = set()
    for n in g:
        for s, l in n.succ:
            if not l or l[0] != "cond":
                continue
            for v, end in end_said(g, l):
                if not end or (n.id, s, v) in done:
                    continue
                done.add((n.id, s, v))
                there = lambda q, m: any(w == v and not z for w, z in end_said(g, m))
                r = paths(g).search([g.nodes[s]], lambda q: at_place(q) == v, stop=lambda q: moves(q, v), stop_edge=there)
                ctx.ob("absent", "%s: %s" % (f.short, v[1]), r is None, n.loc if n.ev else f.loc(), "it is followed although nothing was found")


# ---- results

def may_be_null(p):
    out = set()
    for f in p.funcs.values():
        for ev in f.events():
            e = strip_cast(ev["e"]) if ev["k"] == "ret" and ev.get("e") is not None else None
            if e is None:
                continue
            if e[0] == "n" or e[0] == "?" and any(strip_cast(x)[0] == "n" for x in e[2:4]) or e[0] == "v" and own(e) and "*" in str(f.ret) and not f.short.split("::")[-1].startswith("alloc") and kept_null(whole(p, f), e[1]):
                out.add(f.id)
    return out


def kept_null(g, name):
    """may the variable still be null where it is returned?"""
    isv = lambda x: strip_cast(x)[0] == "v" and strip_cast(x)[1] == name
    null = lambda x: x is not None and strip_cast(x)[0] == "n"
    begin = [n for n in g if n.k == "decl" and n.ev["n"] == name and null(n.ev.get("init")) or n.k == "asg" and isv(n.ev["lhs"]) and null(n.ev["rhs"])]
    go = [g.nodes[s] for n in begin for s, l in n.succ if not (l and l[0] in ("eh", "throw"))]
    go += [g.nodes[s] for n in g for s, l in n.succ if l and l[0] == "cond" and any(isv(w) and z for w, z in null_said(g, l))]
    there = lambda q, m: bool(m) and m[0] == "cond" and any(isv(w) and not z for w, z in null_said(g, m))
    given = lambda q: q.k == "call" and q.ev["e"][0] == "c" and any(isv(a[2] if strip_cast(a)[0] == "u" else a) for a in map(strip_cast, q.ev["e"][3]))
    return bool(go) and paths(g).search(go, lambda q: q.k == "ret" and q.ev.get("e") is not None and isv(q.ev["e"]), stop=lambda q: q.k == "asg" and isv(q.ev["lhs"]) or given(q), stop_edge=there) is not None


def results(ctx, f, g, may):
    for n in g:
        if n.k == "decl":
            k, e = n.ev["id"], n.ev.get("init")
        elif n.k == "asg" and n.ev["op"] == "=" and strip_cast(n.ev["lhs"])[0] == "v":
            k, e = strip_cast(n.ev["lhs"])[2], n.ev["rhs"]
        elif n.k == "call" and n.ev["e"][0] == "c" and nm(n.ev["e"]) == "operator=" and n.ev["e"][2] is not None and strip_cast(n.ev["e"][2])[0] == "v" and n.ev["e"][3]:
            k, e = strip_cast(n.ev["e"][2])[2], n.ev["e"][3][0]
        else:
            k, e = None, None
        if e is not None:
            e = strip_cast(e)
            e = strip_cast(e[3][0]) if e[0] == "k" and len(e[3]) == 1 else e
            lookup = e[0] == "c" and nm(e) in ("find", "lower_bound", "upper_bound") and "iterator" in str(n.ev.get("t") or typ(n))
            null = e[0] == "c" and (e[1] in may or nm(e) in EXT) and not asked(e)
            lookup = lookup and not put_before(g, n, e)
            if lookup or null:
                isv = lambda x: x[0] == "v" and x[2] == k
                said_there = end_said if lookup else null_said
                there = lambda q, m: bool(m) and m[0] == "cond" and (any(isv(w) and not z for w, z in said_there(g, m)) or helped(g, m, isv))
                go = [g.nodes[s] for s, l in n.succ if not (l and l[0] in ("eh", "throw")) and not there(n, l)]
                if lookup:
                    r = paths(g).search(go, lambda q: at_place(q) is not None and isv(at_place(q)), stop=lambda q: moves(q, ("v", "", k)), stop_edge=there)
                    ctx.ob("found", "%s: %s" % (f.short, nm(e)), r is None, n.loc, "it is followed although it may not have been found")
                else:
                    r = paths(g).search(go, lambda q: any(isv(w) for w in followed(q, given=nm(e) in EXT)), stop=lambda q: q.k == "asg" and isv(strip_cast(q.ev["lhs"])) or q.k == "decl" and q.ev["id"] == k or refused(q, isv), stop_edge=there)
                    ctx.ob("tested", "%s: %s" % (f.short, nm(e)), r is None, n.loc, "it is followed although it may be null")
        # followed at once
        for w in followed(n):
            if w[0] == "c" and (w[1] in may or nm(w) in EXT) and not asked(w):
                ctx.ob("tested", "%s: %s" % (f.short, nm(w)), False, n.loc, "it is followed although it may be null")
        w = at_place(n)
        if w is not None and w[0] == "c" and nm(w) == "find" and "map" in w[1] and not looked(g, w[2]):
            ctx.ob("found", "%s: %s" % (f.short, nm(w)), False, n.loc, "it is followed although it may not have been found")


def helped(g, l, isv):
    """a function of the program was asked about it"""
    for e, t in said(g, l):
        e = behind(g, e)
        if e[0] == "c" and any(isv(strip_cast(a)) for a in e[3]) and g.prog.funcs.get(e[1]) is not None:
            return True
    return False


def looked(g, box):
    """does a condition ask whether something is there?"""
    return box is not None and any(x[0] == "c" and nm(x) in ("find", "count") and x[2] is not None and strip_cast(x[2]) == strip_cast(box)
                                   for n in g for s, l in n.succ if l and l[0] == "cond" for x in walk(behind(g, l[1])))


def refused(q, isv):
    """given to a function that looks at it and throws"""
    e = q.ev["e"] if q.k == "call" and q.ev["e"][0] == "c" else None
    f = PROG[0].funcs.get(e[1]) if e is not None else None
    if f is None:
        return False
    for i, a in enumerate(e[3]):
        if isv(strip_cast(a)) and i < len(f.params) and any(x.k == "throw" for x in whole(PROG[0], f)):
            g = whole(PROG[0], f)
            if any(w[0] == "v" and w[1] == f.params[i]["n"] and z for x in g for s, l in x.succ if l and l[0] == "cond" for w, z in null_said(g, l)):
                return True
    return False


def asked(e):
    """is what is missing to be made?"""
    return any(strip_cast(a)[0] == "i" and strip_cast(a)[1] in (1, True) and "bool" in e[1] for a in e[3])


def put_before(g, n, e):
    """what is looked up was put there just before"""
    box = e[2]
    if box is None:
        return False
    put = lambda q: q.k == "call" and q.ev["e"][0] == "c" and nm(q.ev["e"]) in ("insert", "emplace", "operator[]", "try_emplace", "insert_or_assign") and q.ev["e"][2] is not None and strip_cast(q.ev["e"][2]) == strip_cast(box)
    return paths(g).search([g.entry], lambda x: x is n, stop=put) is None


def typ(n):
    e = n.ev["e"][2] if n.k == "call" else n.ev.get("lhs")
    e = strip_cast(e) if e is not None else ("n",)
    return e[4] if e[0] == "v" and len(e) > 4 else ""
