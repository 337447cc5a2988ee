"""Resolved-program model.

Runs the extractor over every translation unit of the working tree and loads
functions (with control-flow graphs), records, enums and globals.  Nothing of
the analysed program is executed.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TOOL = os.path.join(VERIF, "tool")


class AnalysisError(Exception):
    """The analysis cannot answer (tree does not parse, an anchor is gone)."""


def repo_root():
    return os.environ.get("VERIF_REPO", "/repo")


# --------------------------------------------------------------------------
# extractor binary

def _src_hash():
    h = hashlib.sha256()
    for n in ("extract.cpp", "build.sh"):
        with open(os.path.join(TOOL, n), "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def _works(path):
    try:
        r = subprocess.run([path], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
        return r.returncode == 2 and b"usage: extract" in r.stderr
    except Exception:
        return False


_tmpdirs = []


def extractor():
    want = _src_hash()
    for cand in (os.path.join(TOOL, "extract.bin"), os.path.join(TOOL, "cache", "extract.bin")):
        try:
            with open(cand + ".hash") as f:
                have = f.read().strip()
        except OSError:
            continue
        if have == want and os.access(cand, os.X_OK) and _works(cand):
            return cand
    d = os.path.join(TOOL, "cache")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "extract.bin")
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(["sh", os.path.join(TOOL, "build.sh"), tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise AnalysisError("cannot build the extractor: " + r.stdout.decode("utf8", "replace")[-2000:])
    os.replace(tmp, out)
    with open(out + ".hash", "w") as f:
        f.write(want)
    return out


FLAGS = ["-std=c++11", "-DCOMPILE_TIME=0", "-DTT_BRANCH=\"b\"", "-DTT_COMMIT=\"c\"", "-O2", "-ffast-math",
         "-resource-dir=/usr/lib/llvm-18/lib/clang/18", "-w", "-ferror-limit=20"]


def _extract_one(args):
    exe, root, f = args
    r = subprocess.run([exe, root, f, "--", "-I", os.path.join(root, "include")] + FLAGS,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=root)
    if r.returncode != 0 or not r.stdout.strip():
        return f, None, r.stderr.decode("utf8", "replace")[-3000:]
    return f, r.stdout, ""


def extract_all(root):
    srcs = sorted(glob.glob(os.path.join(root, "src/*.cpp")) + glob.glob(os.path.join(root, "src/*/*.cpp")))
    if len(srcs) < 20:
        raise AnalysisError("only %d source files found under %s/src" % (len(srcs), root))
    hdrs = sorted(glob.glob(os.path.join(root, "include/*.h")) + glob.glob(os.path.join(root, "include/*/*.h")))
    exe = extractor()
    h = hashlib.sha256()
    h.update(_src_hash().encode())
    h.update(repr(FLAGS).encode())
    for f in hdrs:
        h.update(os.path.relpath(f, root).encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    hkey = h.digest()
    cdir = os.environ.get("VERIF_CACHE")    # used while developing the rules; MANIFEST commands do not set it

    def one(f):
        cfile = None
        if cdir:
            with open(f, "rb") as fh:
                k = hashlib.sha256(hkey + os.path.relpath(f, root).encode() + fh.read()).hexdigest()
            cfile = os.path.join(cdir, k + ".json")
            if os.path.exists(cfile):
                with open(cfile, "rb") as fh:
                    return f, fh.read(), ""
        f, out, err = _extract_one((exe, root, f))
        if cfile and out is not None:
            os.makedirs(cdir, exist_ok=True)
            tmp = "%s.%d" % (cfile, os.getpid())
            with open(tmp, "wb") as fh:
                fh.write(out)
            os.replace(tmp, cfile)
        return f, out, err

    outs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for f, out, err in ex.map(one, srcs):
            if out is None:
                raise AnalysisError("cannot parse %s:\n%s" % (f, err))
            outs.append(out.strip())
    return srcs, outs


# --------------------------------------------------------------------------
# helpers on expression tuples

def tup(x):
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    return x


def walk(e):
    """All sub-expressions, outermost first."""
    if not isinstance(e, tuple):
        return
    if e and isinstance(e[0], str) and e[0] in KINDS:
        yield e
    for y in e:
        if isinstance(y, tuple):
            yield from walk(y)


KINDS = {"i", "s", "f", "n", "t", "v", "fn", "m", "c", "ci", "k", "b", "u", "x", "?", "cast", "new", "del", "lam",
         "il", "o", "throw", "sum", "not"}


def mentions(e, pred):
    return any(pred(s) for s in walk(e))


_short = {}


def short(fid):
    """Class::method without template arguments and parameter list."""
    if fid in _short:
        return _short[fid]
    s = fid
    # cut parameter list: first '(' at template depth 0 that is not operator()
    depth = 0
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith("operator", i) and depth == 0:
            m = re.match(r"operator(\(\)|<<=?|>>=?|<=>?|>=?|->\*?|\[\]|==|!=|\+\+|--|&&|\|\||[-+*/%&|^!~=,]=?|<|>)?", s[i:])
            out.append(m.group(0))
            i += len(m.group(0))
            continue
        c = s[i]
        if c == "<" and s.startswith(("<ctor>", "<dtor>"), i) and depth == 0:
            out.append(s[i:i + 6])
            i += 6
            continue
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "(" and depth == 0 and not s.startswith("(anonymous", i):
            break
        elif depth == 0:
            out.append(c)
        i += 1
    r = "".join(out)
    _short[fid] = r
    return r


def base_name(fid):
    return short(fid).split("::")[-1]


def callee(e):
    """short name of the called function or None"""
    if e and e[0] == "c":
        return short(e[1])
    if e and e[0] == "k":
        return short(e[2])
    return None


def strip_cast(e):
    while isinstance(e, tuple) and e and e[0] == "cast":
        e = e[2]
    return e


# --------------------------------------------------------------------------

class Block:
    __slots__ = ("id", "ev", "succ", "term", "label", "noret", "loopback")


class Func:
    def __init__(self, d):
        self.d = d
        self.id = d["id"]
        self.name = d["name"]
        self.short = short(self.id)
        self.file = d["file"]
        self.line = d["line"]
        self.end = d["end"]
        self.cls = d.get("cls", "")
        self.kind = d["kind"]
        self.virt = bool(d.get("virt"))
        self.over = d.get("over", [])
        self.ret = d["ret"]
        self.params = d["params"]
        self.static = self.kind in ("sm", "f")
        self._blocks = None

    @property
    def entry(self):
        return self.d["entry"]

    @property
    def exit(self):
        return self.d["exit"]

    @property
    def blocks(self):
        if self._blocks is None:
            bl = {}
            for b in self.d.get("blocks", []):
                o = Block()
                o.id = b["id"]
                o.ev = []
                for e in b["ev"]:
                    for k in ("e", "lhs", "rhs", "init", "vla"):
                        if k in e and isinstance(e[k], list):
                            e[k] = tup(e[k])
                    o.ev.append(e)
                t = b.get("term")
                if t and isinstance(t.get("c"), list):
                    t["c"] = tup(t["c"])
                o.term = t
                o.label = tup(b["label"]) if "label" in b else None
                o.noret = bool(b.get("noret"))
                o.loopback = bool(b.get("loopback"))
                o.succ = b["succ"]
                bl[o.id] = o
            # label edges
            for o in bl.values():
                es = []
                ss = o.succ
                t = o.term
                has_throw = any(e["k"] == "throw" for e in o.ev)
                if t is None or "k" not in t:
                    for i, s in enumerate(ss):
                        if s is None or isinstance(s, list):
                            continue
                        if i >= 1:
                            es.append((s, ("eh",)))
                        elif has_throw:
                            es.append((s, ("throw",)))
                        else:
                            es.append((s, None))
                elif t["k"] == "SwitchStmt":
                    cases = []
                    dflt = None
                    for s in ss:
                        if s is None or isinstance(s, list):
                            continue
                        lb = bl[s].label
                        if lb and lb[0] == "case":
                            cases.append((s, lb))
                        else:
                            dflt = s
                    vals = []
                    for s, lb in cases:
                        if len(lb) == 2:
                            vals.append(lb[1])
                        es.append((s, ("case", t.get("c"), lb[1:])))
                    if dflt is not None:
                        es.append((dflt, ("default", t.get("c"), tuple(vals))))
                elif t["k"] == "CXXTryStmt":
                    for s in ss:
                        if s is None or isinstance(s, list):
                            continue
                        es.append((s, ("catch",)))
                elif "c" in t and len(ss) >= 2:
                    for i, s in enumerate(ss):
                        if s is None or isinstance(s, list):
                            continue
                        es.append((s, ("cond", t["c"], i == 0)))
                elif t["k"] == "ForStmt" or t["k"] == "WhileStmt" or t["k"] == "DoStmt" or len(ss) == 1:
                    for s in ss:
                        if s is None or isinstance(s, list):
                            continue
                        es.append((s, None))
                else:
                    for s in ss:
                        if s is None or isinstance(s, list):
                            continue
                        es.append((s, None))
                o.succ = es
            self._blocks = bl
        return self._blocks

    def events(self):
        for b in self.blocks.values():
            for e in b.ev:
                yield e

    def loc(self, line=None):
        return "%s:%d" % (self.file, line or self.line)


class Program:
    def __init__(self, root=None):
        self.root = root or repo_root()
        self.srcs, outs = extract_all(self.root)
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.by_short = {}
        for o in outs:
            d = json.loads(o.decode("utf8").replace("tt::", ""))
            for f in d["functions"]:
                if f["id"] in self.funcs or "nocfg" in f:
                    continue
                fn = Func(f)
                self.funcs[fn.id] = fn
            for r in d["records"]:
                self.records.setdefault(r["name"], r)
            for e in d["enums"]:
                self.enums.setdefault(e["name"], e)
            for g in d["globals"]:
                old = self.globals.get(g["name"])
                if old is None or (old["init"] is None and g["init"] is not None):
                    g["init"] = tup(g["init"]) if g["init"] is not None else None
                    self.globals[g["name"]] = g
        for f in self.funcs.values():
            self.by_short.setdefault(f.short, []).append(f)
        self.subclasses = {}
        for r in self.records.values():
            for b in r["bases"]:
                self.subclasses.setdefault(b, []).append(r["name"])
        self._overriders = {}
        for f in self.funcs.values():
            for o in f.over:
                self._overriders.setdefault(o, []).append(f.id)
        self._callees = None
        self._callers = None
        self._getters = {}
        self._mods = None

    # -- lookup ----------------------------------------------------------
    def get(self, shortname, nparams=None, optional=False, pred=None):
        """The one function with this short name."""
        l = self.by_short.get(shortname, [])
        if nparams is not None:
            l = [f for f in l if len(f.params) == nparams]
        if pred:
            l = [f for f in l if pred(f)]
        if len(l) == 1:
            return l[0]
        if optional and not l:
            return None
        raise AnalysisError("anchor %s%s: %d definitions found" % (shortname, "" if nparams is None else "/%d" % nparams, len(l)))

    def all(self, shortname):
        return self.by_short.get(shortname, [])

    def need(self, shortname):
        l = self.by_short.get(shortname, [])
        if not l:
            raise AnalysisError("anchor %s is gone" % shortname)
        return l

    def subclasses_of(self, cls):
        out = []
        todo = [cls]
        while todo:
            c = todo.pop()
            for s in self.subclasses.get(c, []):
                if s not in out:
                    out.append(s)
                    todo.append(s)
        return out

    def superclasses_of(self, cls):
        out = []
        todo = [cls]
        while todo:
            c = todo.pop()
            r = self.records.get(c)
            if not r:
                continue
            for b in r["bases"]:
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def overriders(self, fid):
        out = []
        todo = [fid]
        while todo:
            c = todo.pop()
            for o in self._overriders.get(c, []):
                if o not in out:
                    out.append(o)
                    todo.append(o)
        return out

    def static_class(self, e, func=None):
        """class of an object expression as declared, or None"""
        while e[0] in ("u", "x") or (e[0] == "b" and e[1] in ("+", "-")):
            if e[0] == "x":
                e = e[1]
            elif e[0] == "b":
                e = e[2]
            elif e[1] in ("*", "&"):
                e = e[2]
            else:
                return None
        t = None
        if e[0] == "t":
            return func.cls if func is not None and func.kind != "lambda" else None
        if e[0] == "v":
            t = e[4] if len(e) > 4 else None
        elif e[0] == "m":
            t = e[3]
        elif e[0] == "cast":
            t = e[1]
        elif e[0] == "c" and e[1] in self.funcs:
            t = self.funcs[e[1]].ret
        elif e[0] == "new":
            t = e[1]
        if not t or "<" in t:
            return None
        t = t.replace("const ", "").replace("struct ", "").replace("class ", "")
        t = t.replace("*", "").replace("&", "").split("[")[0].strip()
        if t.startswith("tt::"):
            t = t[4:]
        return t if t in self.records else None

    def targets(self, e, func=None):
        """repo functions a call expression may reach"""
        if e[0] == "c":
            fid = e[1]
            out = [fid] if fid in self.funcs else []
            if len(e) > 4 and e[4] and e[2] is not None:
                S = self.static_class(e[2], func)
                if S is not None:
                    fam = {fid} | set(self.overriders(fid))
                    bycls = {}
                    for o in fam:
                        if o in self.funcs:
                            bycls[self.funcs[o].cls] = o
                    out = []
                    for D in [S] + self.subclasses_of(S):
                        for c in [D] + self.superclasses_of(D):
                            if c in bycls:
                                if bycls[c] not in out:
                                    out.append(bycls[c])
                                break
                    return out
            if len(e) > 4 and e[4]:
                for o in self.overriders(fid):
                    if o in self.funcs and o not in out:
                        out.append(o)
            return out
        if e[0] == "k":
            return [e[2]] if e[2] in self.funcs else []
        return []

    # function references taken as values: task.doit = &X, std::thread(&C::f)
    def calls_in(self, f):
        for ev in f.events():
            if ev["k"] in ("call", "ctor"):
                yield ev

    def callgraph(self):
        if self._callees is not None:
            return self._callees, self._callers
        ce, cr = {}, {}
        refs = {}
        for f in self.funcs.values():
            s = set()
            for ev in f.events():
                if ev["k"] in ("call", "ctor"):
                    for t in self.targets(ev["e"], f):
                        s.add(t)
                if ev["k"] == "del":
                    for t in self.dtor_of(ev["e"][2]):
                        s.add(t)
                if ev["k"] == "dtor":
                    for t in self.dtor_of(ev["t"]):
                        s.add(t)
                for k in ("e", "rhs", "init"):
                    x = ev.get(k)
                    if isinstance(x, tuple):
                        for y in walk(x):
                            if y[0] == "lam" and y[1] in self.funcs:
                                s.add(y[1])
                            if y[0] == "fn" and y[1] in self.funcs:
                                refs.setdefault(y[1], set()).add(f.id)
            ce[f.id] = s
        for a, s in ce.items():
            for b in s:
                cr.setdefault(b, set()).add(a)
        self._callees, self._callers = ce, cr
        self.refs = refs
        return ce, cr

    def dtor_of(self, cls):
        cls = cls.rstrip(" *&")
        out = []
        for c in [cls] + self.subclasses_of(cls):
            for f in self.by_short.get(c + "::<dtor>", []):
                out.append(f.id)
        return out

    def reachable(self, fids):
        ce, _ = self.callgraph()
        seen = set()
        todo = list(fids)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo.extend(ce.get(x, ()))
        return seen

    # -- pure accessors ---------------------------------------------------
    def getter(self, fid):
        """(param ids, expr) if the function just returns a side-effect free
        expression, else None"""
        if fid in self._getters:
            return self._getters[fid]
        self._getters[fid] = None
        f = self.funcs.get(fid)
        if f is None or f.kind in ("ctor", "dtor", "lambda"):
            return None
        rets = []
        for ev in f.events():
            k = ev["k"]
            if k in ("acc", "cmp", "deref", "sub"):
                if ev.get("rw") in ("w", "rw"):
                    # methods on atomics and the like are reported as rw
                    if k != "acc":
                        return None
                continue
            if k == "ret":
                rets.append(ev)
                continue
            if k == "call":
                e = ev["e"]
                if e[0] == "c":
                    n = short(e[1])
                    if n.startswith("std::atomic") or n.startswith("std::__atomic_base"):
                        if n.split("::")[-1] in ("load",) or "operator " in n or n.split("::")[-1].startswith("operator"):
                            if n.split("::")[-1] in ("operator=", "operator++", "operator--", "operator+=", "operator-="):
                                return None
                            continue
                    if n.startswith("std::") and n.split("::")[-1] in ("size", "empty", "c_str", "operator==", "operator!=", "front", "back"):
                        continue
                    if e[1] in self.funcs and self.getter(e[1]):
                        continue
                return None
            return None
        if len(rets) != 1 or rets[0]["e"] is None or len(list(f.events())) > 40:
            return None
        r = ([p["id"] for p in f.params], rets[0]["e"])
        self._getters[fid] = r
        return r

    # -- modified fields, transitively ------------------------------------
    def mods(self):
        """fid -> frozenset of field names / global names that may be written"""
        if self._mods is not None:
            return self._mods
        ce, cr = self.callgraph()
        own = {}
        for f in self.funcs.values():
            s = set()
            for ev in f.events():
                if ev["k"] == "asg":
                    l = strip_cast(ev["lhs"])
                    s |= _lv_fields(l)
                elif ev["k"] == "acc" and ev.get("rw") in ("w", "rw", "a"):
                    s |= _lv_fields(ev["e"])
                elif ev["k"] == "init":
                    s.add(ev["f"])
            own[f.id] = s
        # propagate
        res = {k: set(v) for k, v in own.items()}
        work = list(res)
        inq = set(work)
        while work:
            x = work.pop()
            inq.discard(x)
            for c in cr.get(x, ()):
                if not res[x] <= res[c]:
                    res[c] |= res[x]
                    if c not in inq:
                        inq.add(c)
                        work.append(c)
        self._mods = res
        return res


def _lv_fields(l):
    l = strip_cast(l)
    out = set()
    if not isinstance(l, tuple):
        return out
    if l[0] == "m":
        out.add(l[2])
        b = l[1]
        # obj.sub.field: writing the field also modifies the enclosing fields
        while isinstance(b, tuple) and b[0] in ("m", "x") and not (b[0] == "m" and b[3].endswith("*")):
            if b[0] == "m":
                out.add(b[2])
            b = b[1]
    elif l[0] == "v" and l[3] == "g":
        out.add(l[1])
    elif l[0] == "x":
        out |= _lv_fields(l[1])
    elif l[0] == "u" and l[1] == "*":
        pass
    return out
