"""Loads the MIR facts written by the driver and indexes them."""
import glob
import json
import os
import pickle
import sys

sys.setrecursionlimit(20000)


class Body:
    __slots__ = ("kind", "path", "h", "parent", "file", "line", "tritem", "trname", "selfty", "derived",
                 "ismacro", "pub", "upvars", "locals", "names", "argc", "blocks", "prom", "crate",
                 "_defs", "_muts", "_preds", "_doms", "promof", "gen")

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.path)

    def __getstate__(self):
        return {k: getattr(self, k, None) for k in self.__slots__ if not k.startswith("_")}

    def __setstate__(self, st):
        for k in self.__slots__:
            if not k.startswith("_"):
                setattr(self, k, st.get(k))
        self._defs = None
        self._muts = None
        self._preds = None
        self._doms = None


class Fn:
    """A function constant: declared path, resolved path, hashes and type arguments."""
    __slots__ = ("path", "h", "rpath", "rh", "args")

    def __init__(self, path, h, rpath, rh, args):
        self.path, self.h, self.rpath, self.rh, self.args = path, h, rpath, rh, args

    def __repr__(self):
        return "Fn(%s)" % self.rpath

    def __getstate__(self):
        return (self.path, self.h, self.rpath, self.rh, self.args)

    def __setstate__(self, s):
        self.path, self.h, self.rpath, self.rh, self.args = s


class Const:
    __slots__ = ("ty", "v", "str", "item", "h", "prom", "ph")

    def __init__(self, ty, v=None, s=None, item=None, h=None, prom=None, ph=None):
        self.ty, self.v, self.str, self.item, self.h, self.prom, self.ph = ty, v, s, item, h, prom, ph

    def __getstate__(self):
        return tuple(getattr(self, k) for k in self.__slots__)

    def __setstate__(self, s):
        for k, v in zip(self.__slots__, s):
            setattr(self, k, v)

    def __repr__(self):
        return "Const(%s)" % (self.v if self.v is not None else self.str or self.item or self.ty)


class Facts:
    def __init__(self):
        self.bodies = {}      # hash -> Body
        self.by_path = {}     # path -> [Body]
        self.adts = {}        # path -> {"h","variants":[(name,[(field,ty)])]}
        self.impls = []       # dicts
        self.traits = {}      # path -> dict
        self.children = {}    # parent hash -> [Body]
        self.impl_of = {}     # trait item hash -> [Body]
        self.crates = {}

    def body(self, path):
        b = self.by_path.get(path)
        if not b:
            return None
        return b[0]

    def method(self, selfty, trait, name):
        """The body of a trait method for a type."""
        for i in self.impls:
            if i.get("trait") == trait and (i.get("self") == selfty or i.get("self", "").split("<")[0] == selfty):
                for n, h, th in i["items"]:
                    if n == name:
                        return self.bodies.get(h)
        return None

    def find(self, suffix, crate=None):
        return [b for p, bs in self.by_path.items() if p.endswith(suffix) for b in bs if crate is None or b.crate == crate]


def _place(p, S):
    out = [p[0]]
    for e in p[1:]:
        if isinstance(e, str):
            out.append((e,))
        elif isinstance(e[0], str):
            if e[0] == "v":
                out.append(("v", e[1], S[e[2]]))
            else:
                out.append(tuple(e))
        else:
            out.append(("f", e[0], S[e[1]]))
    return tuple(out)


def _op(o, S, T):
    if "c" in o:
        return ("c", _place(o["c"], S))
    if "m" in o:
        return ("m", _place(o["m"], S))
    k = o["k"]
    if "fn" in k:
        return ("k", Fn(S[k["fn"]], k["h"], S[k["r"]], k["rh"], tuple(T[a] for a in k["a"])))
    return ("k", Const(T[k["t"]], k.get("v"), k.get("str"), S[k["item"]] if "item" in k else None, k.get("h"),
                       k.get("prom"), k.get("ph")))


def _rv(r, S, T):
    t = r[0]
    if t in ("use", "rep"):
        return (t, _op(r[1], S, T))
    if t == "ref":
        return ("ref", r[1], _place(r[2], S))
    if t == "cast":
        return ("cast", _op(r[1], S, T), T[r[2]])
    if t == "bin":
        return ("bin", r[1], _op(r[2], S, T), _op(r[3], S, T))
    if t == "un":
        return ("un", r[1], _op(r[2], S, T))
    if t == "discr":
        return ("discr", _place(r[1], S))
    if t == "agg":
        return ("agg", r[1], S[r[2]], r[3], S[r[4]], tuple(S[x] for x in r[5]), tuple(_op(x, S, T) for x in r[6]))
    if t == "tls":
        return ("tls", S[r[1]])
    return tuple(r)


def _term(t, S, T):
    k = t[0]
    if k == "switch":
        return ("switch", _op(t[1], S, T), tuple((a, b) for a, b in t[2]), t[3], t[4])
    if k == "drop":
        return ("drop", _place(t[1], S), t[2], T[t[3]], t[4])
    if k == "call":
        return ("call", _op(t[1], S, T), tuple(_op(x, S, T) for x in t[2]), _place(t[3], S), t[4], t[5])
    if k == "assert":
        return ("assert", _op(t[1], S, T), t[2], t[3], t[4], t[5])
    if k == "yield":
        return ("yield", t[1], _place(t[2], S), t[3])
    return tuple(t)


def _fill(b, o, S, T):
    b.locals = [T[x] for x in o["locals"]]
    b.names = {int(k): v for k, v in o["names"].items()}
    b.argc = o["argc"]
    bl = []
    for x in o["blocks"]:
        if x is None:
            bl.append(None)
            continue
        bl.append(([(_place(s[0], S), _rv(s[1], S, T), s[2]) for s in x["s"]], _term(x["t"], S, T)))
    b.blocks = bl


class Ty:
    """Interned type."""
    __slots__ = ("s", "k", "adt", "h", "a", "t", "m")

    def __init__(self):
        self.s = self.k = self.adt = self.h = self.t = self.m = None
        self.a = ()

    def __getstate__(self):
        return tuple(getattr(self, k) for k in self.__slots__)

    def __setstate__(self, s):
        for k, v in zip(self.__slots__, s):
            setattr(self, k, v)

    def peel(self):
        t = self
        while t.k in ("ref", "ptr") and t.t is not None:
            t = t.t
        return t

    def __repr__(self):
        return "Ty(%s)" % self.s


def _tys(tys):
    objs = [Ty() for _ in tys]
    for o, d in zip(objs, tys):
        o.s = d["s"]
        o.k = d.get("k")
        o.adt = d.get("adt")
        o.h = d.get("h")
        o.m = d.get("m")
        o.a = tuple(objs[i] for i in d.get("a", []))
        if "t" in d:
            o.t = objs[d["t"]]
    return objs


def load(d):
    cache = os.path.join(d, "facts.pickle")
    try:
        with open(cache, "rb") as f:
            return pickle.load(f)
    except Exception:
        pass
    F = Facts()
    for fn in sorted(glob.glob(os.path.join(d, "*.jsonl"))):
        if "ProcMacro" in fn:
            continue
        with open(fn) as f:
            lines = [json.loads(l) for l in f]
        tab = lines[-1]
        assert tab["kind"] == "tables", fn
        S, T = tab["strs"], _tys(tab["tys"])
        crate = lines[0]["name"]
        F.crates[crate] = tab["bodies"]
        for o in lines[1:-1]:
            k = o["kind"]
            if k in ("fn", "closure", "coroutine", "const"):
                b = Body()
                b._defs = b._muts = b._preds = b._doms = None
                b.kind, b.path, b.h, b.parent = k, o["path"], o["h"], o["parent"]
                b.file, b.line = o["file"], o["line"]
                b.tritem, b.trname, b.selfty = o["tritem"], o["trname"], o["self"]
                b.derived, b.ismacro, b.pub = o["derived"], o["macro"], o["pub"]
                b.upvars = o.get("upvars", [])
                b.gen = o.get("gen", [])
                b.crate = crate
                b.promof = None
                _fill(b, o, S, T)
                b.prom = []
                for i, p in enumerate(o.get("prom", [])):
                    pb = Body()
                    pb._defs = pb._muts = pb._preds = pb._doms = None
                    pb.kind, pb.path, pb.h = "promoted", b.path + "#prom%d" % i, b.h + "#%d" % i
                    pb.parent, pb.file, pb.line = b.h, b.file, b.line
                    pb.tritem = pb.trname = pb.selfty = ""
                    pb.derived, pb.ismacro, pb.pub, pb.upvars, pb.crate = False, False, False, [], crate
                    pb.prom, pb.gen = [], []
                    pb.promof = b.h
                    _fill(pb, p, S, T)
                    b.prom.append(pb)
                F.bodies[b.h] = b
                F.by_path.setdefault(b.path, []).append(b)
                F.children.setdefault(b.parent, []).append(b)
                if b.tritem:
                    F.impl_of.setdefault(b.tritem, []).append(b)
            elif k == "adt":
                F.adts[o["path"]] = o
            elif k == "impl":
                o["crate"] = crate
                F.impls.append(o)
            elif k == "trait":
                F.traits[o["path"]] = o
            elif k == "stolen":
                raise RuntimeError("MIR of %s was not available" % o["path"])
    try:
        tmp = cache + ".%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(F, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.replace(tmp, cache)
    except Exception:
        pass
    return F
