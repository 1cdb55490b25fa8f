"""Provenance terms over MIR: what a value is made from, in a calling context.

A term is built by following the definitions of a place backwards through a chain of frames.
References, dereferences, clones, conversions, `?` payloads, boxing/pinning and awaiting are
transparent, so that the same value written in different styles has the same term.
"""
from facts import Fn, Const

MAXD = 60


class T:
    """k: par upv con str fn call agg fld phi elem clo rec unk bin un disc"""
    __slots__ = ("k", "d", "x", "_h")

    def __init__(self, k, d, x=None):
        self.k, self.d, self.x = k, d, x
        self._h = hash((k, d))

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and self._h == o._h and self.k == o.k and self.d == o.d)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16}
UNK = T("unk", ())
REC = T("rec", ())


def short(p):
    """Last meaningful segment of a path."""
    p = p.split("::<")[0] if p.endswith(">") and "::<" in p else p
    return p.rsplit("::", 1)[-1]


def show(t, d=0):
    if d > 8:
        return "…"
    k = t.k
    if k == "par":
        return t.d[2] or "arg%d" % t.d[1]
    if k == "upv":
        return t.d[2] or "cap%d" % t.d[1]
    if k in ("con",):
        return str(t.d[0])
    if k == "str":
        return '"%s"' % t.d[0]
    if k == "fn":
        return short(t.d[0])
    if k == "call":
        return "%s(%s)" % (short(t.d[0]), ", ".join(show(a, d + 1) for a in t.d[1]))
    if k == "agg":
        n = t.d[0].rsplit("::", 1)[-1]
        if t.d[1] and t.d[1] != n:
            n += "::" + t.d[1]
        return "%s{%s}" % (n, ", ".join("%s: %s" % (f, show(v, d + 1)) for f, v in t.d[2]))
    if k == "fld":
        return "%s.%s" % (show(t.d[0], d + 1), t.d[1])
    if k == "elem":
        return "each(%s)" % show(t.d[0], d + 1)
    if k == "phi":
        return "{%s}" % " | ".join(sorted(show(a, d + 1) for a in t.d))
    if k == "clo":
        return "|closure|"
    if k in ("bin", "un"):
        return "%s(%s)" % (t.d[0], ", ".join(show(a, d + 1) for a in t.d[1]))
    if k == "disc":
        return "discr(%s)" % show(t.d[0], d + 1)
    return k


def phi(ts):
    s = set()
    for t in ts:
        if t is None:
            continue
        if t.k == "phi":
            s |= set(t.d)
        else:
            s.add(t)
    if len(s) > 1:
        s.discard(REC)
    if len(s) > 1 and len(s) > 40:
        return UNK
    if not s:
        return None
    if len(s) == 1:
        return next(iter(s))
    return T("phi", frozenset(s))


def alts(t):
    return list(t.d) if t.k == "phi" else [t]


# calls whose result stands for their first argument
TRANS_LAST = set("""
deref deref_mut clone borrow borrow_mut to_owned as_ref as_mut into from try_into try_from to_string as_str as_bytes
into_future new_unchecked get_mut as_slice to_vec as_deref as_deref_mut cloned copied unwrap expect unwrap_or_default
ok ok_or ok_or_else map_err unwrap_unchecked into_inner from_residual into_owned as_mut_slice into_boxed_str
into_boxed_slice into_string into_bytes branch transpose collect try_read make_mut upgrade downgrade
""".split())
TRANS_FULL_SUFFIX = (
    "alloc::boxed::Box::<T>::new", "alloc::boxed::Box::<T>::pin", "alloc::rcs::arc::Arc::<T>::new",
    "alloc::rc::Rc::<T>::new", "alloc::sync::Arc::<T>::new",
    "alloc::borrow::Cow::<'_, B>::into_owned",
)
ITER_LAST = set("iter iter_mut into_iter enumerate rev peekable cloned copied fuse values keys drain into_values into_keys".split())


FILLS = {"fill", "fill_bytes", "try_fill", "try_fill_bytes", "copy_from_slice", "clone_from_slice"}
COLLS = ("Vec", "HashSet", "HashMap", "BTreeMap", "BTreeSet", "VecDeque")


def listed(t):
    """an array of literals"""
    return t.k == "agg" and t.d[0] == "array" and all(x.k in ("str", "con") for _, x in t.d[2])


def succs(t):
    k = t[0]
    if k == "switch":
        return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [_assert_target(t)]
    if k == "yield":
        return [t[1] if isinstance(t[1], int) else t[3]]
    return []


def _assert_target(t):
    # ("assert", op, expected, target, line, msg)
    for x in (t[3], t[2], t[4]):
        if isinstance(x, int) and not isinstance(x, bool):
            return x
    return None


def is_std(p):
    q = p.lstrip("<&'_ ")
    return q.startswith(("core::", "alloc::", "std::"))


class Frame:
    __slots__ = ("id", "body", "parent", "args", "upv", "site", "ret", "stack")

    def __init__(self, id, body, parent, args, upv, site, ret=None):
        self.id, self.body, self.parent, self.args, self.upv, self.site, self.ret = id, body, parent, args, upv, site, ret
        self.stack = (parent.stack | {body.h}) if parent is not None else frozenset([body.h])

    def depth(self):
        n, f = 0, self
        while f.parent is not None:
            n, f = n + 1, f.parent
        return n

    def chain(self):
        f, out = self, []
        while f is not None:
            out.append(f)
            f = f.parent
        return out


class Terms:
    def __init__(self, F, opaque=(), transparent=None):
        self.F = F
        self.frames = {}
        self.flist = []
        self.memo = {}
        self.active = set()
        self.opaque = set(opaque)      # workspace paths never looked through by expand()
        self.puts = {}
        self.state = frozenset()       # fields of an argument read as they are at the time, whatever is written to them
        self.extra_trans = transparent or (lambda path: False)

    # -- frames ---------------------------------------------------------------------------
    def frame(self, body, parent=None, args=None, upv=None, site=None, ret=None):
        key = (body.h, parent.id if parent else None, site, tuple(_argkey(a) for a in args) if args else None,
               tuple(_argkey(a) for a in upv) if upv else None, ret)
        f = self.frames.get(key)
        if f is None:
            f = Frame(len(self.flist), body, parent, args, upv, site, ret)
            self.frames[key] = f
            self.flist.append(f)
        return f

    # -- definitions -----------------------------------------------------------------------
    def defs(self, b):
        d = b._defs
        if d is None:
            d = {}
            for i, bl in enumerate(b.blocks):
                if bl is None:
                    continue
                for p, rv, ln in bl[0]:
                    if rv[0] in ("dead", "setd"):
                        continue
                    d.setdefault(p[0], []).append((p, rv, i))
                t = bl[1]
                if t[0] == "call":
                    d.setdefault(t[3][0], []).append((t[3], ("call",) + t[1:], i))
                elif t[0] == "yield":
                    d.setdefault(t[2][0], []).append((t[2], ("yield",), i))
            b._defs = d
        return d

    # -- building ---------------------------------------------------------------------------
    def op(self, fr, o, depth=0):
        if o[0] in ("c", "m"):
            return self.place(fr, o[1], depth)
        if o[0] == "t":     # an already built term
            return o[1]
        if o[0] == "tup":   # element of a tuple operand
            return self.proj(self.op(o[1], o[2], depth + 1), (("f", o[3], str(o[3])),), fr, depth)
        k = o[1]
        if isinstance(k, Fn):
            return T("fn", (k.rpath,), k)
        return self.const(fr, k, depth)

    def const(self, fr, k, depth):
        if k.str is not None:
            return T("str", (k.str,))
        if k.v is not None:
            return T("con", (k.v,))
        if k.prom is not None:
            pb = None
            b = fr.body
            if b.promof:
                b = self.F.bodies.get(b.promof, b)
            if b.prom and (not k.ph or k.ph == b.h):
                pb = b.prom[k.prom] if k.prom < len(b.prom) else None
            elif k.ph in self.F.bodies:
                bb = self.F.bodies[k.ph]
                pb = bb.prom[k.prom] if k.prom < len(bb.prom) else None
            if pb is not None:
                return self.local(self.frame(pb), 0, (), depth + 1)
        if k.item is not None:
            b = self.F.bodies.get(k.h)
            if b is not None:
                r = self.local(self.frame(b), 0, (), depth + 1)
                if r is not None and (r.k in ("str", "con") or listed(r)):
                    return r
            return T("con", (k.item,), k)
        return T("con", (k.ty.s,), k)

    def place(self, fr, p, depth=0):
        proj = tuple(e for e in p[1:] if e[0] != "*")
        return self.local(fr, p[0], proj, depth)

    def local(self, fr, l, proj, depth=0):
        key = (fr.id, l, proj)
        r = self.memo.get(key)
        if r is not None:
            return r
        if key in self.active or depth > MAXD:
            return REC
        self.active.add(key)
        try:
            r = self._local(fr, l, proj, depth)
        finally:
            self.active.discard(key)
        if r is None:
            r = UNK
        if not _has_rec(r):
            self.memo[key] = r
        return r

    def _local(self, fr, l, proj, depth):
        b = fr.body
        out = []
        if 1 <= l <= b.argc or (b.kind == "coroutine" and l == 1):
            out.append(self.argterm(fr, l, proj, depth))
            if self.state and proj and proj[0][0] == "f" and proj[0][-1] in self.state:
                return phi(out)
        for p, rv, bi in self.defs(b).get(l, ()):
            dp = tuple(e for e in p[1:] if e[0] != "*")
            if len(dp) <= len(proj):
                if not _compat(dp, proj[:len(dp)]):
                    continue
                out.append(self.rv(fr, rv, bi, proj[len(dp):], depth + 1, l))
            else:
                if not _compat(dp[:len(proj)], proj) or self.state and dp[0][0] == "f" and dp[0][-1] in self.state and 1 <= l <= b.argc:
                    continue
                # a part of the value is assigned on its own
                r = self.rv(fr, rv, bi, (), depth + 1, l)
                if r is not None and r is not UNK:
                    out.append(T("agg", ("part", "", ((_pname(dp[len(proj):]), r),))))
        return phi(out)

    def argterm(self, fr, l, proj, depth):
        b = fr.body
        if b.kind in ("closure", "coroutine") and l == 1:
            if proj and proj[0][0] == "f":
                i = proj[0][1]
                if fr.upv is not None and i < len(fr.upv):
                    of, oo = fr.upv[i]
                    return self.proj(self.op(of, oo, depth + 1), proj[1:], fr, depth)
                nm = b.upvars[i] if i < len(b.upvars) else str(i)
                return self.proj(T("upv", (b.h, i, nm if isinstance(nm, str) else str(nm))), proj[1:], fr, depth)
            return T("par", (b.h, l, "self"))
        if fr.args is not None and l - 1 < len(fr.args) and fr.args[l - 1] is not None:
            a = fr.args[l - 1]
            return self.proj(self.op(a[0], a[1], depth + 1), proj, fr, depth)
        return self.proj(T("par", (b.h, l, b.names.get(l, "")), b.locals[l]), proj, fr, depth)

    def rv(self, fr, rv, bi, proj, depth, l):
        t = rv[0]
        if t == "use":
            o = rv[1]
            if o[0] in ("c", "m"):
                p = o[1]
                return self.local(fr, p[0], tuple(e for e in p[1:] if e[0] != "*") + proj, depth)
            return self.proj(self.op(fr, o, depth), proj, fr, depth)
        if t == "rep":
            return self.filled(fr, l, bi, depth) or self.op(fr, rv[1], depth)
        if t == "ref":
            p = rv[2]
            return self.local(fr, p[0], tuple(e for e in p[1:] if e[0] != "*") + proj, depth)
        if t == "cast":
            o = rv[1]
            if o[0] in ("c", "m"):
                p = o[1]
                return self.local(fr, p[0], tuple(e for e in p[1:] if e[0] != "*") + proj, depth)
            return self.proj(self.op(fr, o, depth), proj, fr, depth)
        if t == "agg":
            return self.aggproj(fr, rv, proj, depth)
        if t == "call":
            return self.callterm(fr, rv, bi, proj, depth)
        if t == "bin":
            return self.proj(T("bin", (rv[1], (self.op(fr, rv[2], depth), self.op(fr, rv[3], depth)))), proj[1:] if proj and proj[0][0] == "f" and proj[0][1] == 0 else proj, fr, depth)
        if t == "un":
            return T("un", (rv[1], (self.op(fr, rv[2], depth),)))
        if t == "discr":
            return T("disc", (self.place(fr, rv[1], depth),))
        if t == "len":
            return T("call", ("len", (self.place(fr, rv[1], depth),)))
        return UNK

    def filled(self, fr, l, bi, depth):
        """What a generator (or a copy) fills the array l with, straight after block bi."""
        b = fr.body
        refs = {l}
        for _ in range(3):
            for bl in b.blocks:
                for p, rv, _ln in (bl[0] if bl else ()):
                    if len(p) == 1 and (rv[0] == "ref" and rv[2][0] in refs or rv[0] in ("use", "cast") and rv[1][0] in ("c", "m") and rv[1][1][0] in refs and rv[1][1][0] != l):
                        refs.add(p[0])
        for _ in range(40):
            bl = b.blocks[bi]
            if bl is None:
                return None
            tm = bl[1]
            if tm[0] == "call" and tm[1][0] == "k" and isinstance(tm[1][1], Fn) and short(tm[1][1].path) in FILLS and not tm[1][1].rh in self.F.bodies:
                for i, o in enumerate(tm[2]):
                    if o[0] in ("c", "m") and o[1][0] in refs:
                        return T("call", (tm[1][1].rpath, tuple(self.op(fr, x, depth) for j, x in enumerate(tm[2]) if j != i)), (tm[1][1], fr, tm[2], bi))
            n = set(succs(tm))
            if len(n) != 1:
                return None
            bi = n.pop()
        return None

    def boxed(self, fr, o, depth):
        """The array that vec![..] moves into the box o."""
        b = fr.body
        own = {o[1][0]}
        for _ in range(6):
            for l in list(own):
                for p, rv, _bi in self.defs(b).get(l, ()):
                    if rv[0] in ("use", "cast") and rv[1][0] in ("c", "m") and len(p) == 1:
                        own.add(rv[1][1][0])
        for _ in range(6):
            for bl in b.blocks:
                for p, rv, _ln in (bl[0] if bl else ()):
                    if rv[0] in ("use", "cast") and rv[1][0] in ("c", "m") and rv[1][1][0] in own and len(p) == 1:
                        own.add(p[0])
        for bl in b.blocks:
            for p, rv, _ln in (bl[0] if bl else ()):
                if p[0] in own and p[1:2] == (("*",),) and len(p) > 2:
                    return self.rv(fr, rv, None, (), depth + 1, p[0])
        return None

    def aggproj(self, fr, rv, proj, depth):
        _, kind, name, vi, vn, fields, ops = rv
        if kind in ("closure", "coroutine"):
            return T("clo", (name, fr.id), (name, fr, ops))
        if proj:
            e = proj[0]
            if e[0] == "v":
                if e[1] != vi:
                    return None
                return self.aggproj(fr, rv, proj[1:], depth) if len(proj) > 1 else self.agg(fr, rv, depth)
            if e[0] == "f":
                if name.endswith("::Pin") and e[1] == 0 or e[1] >= len(ops):
                    return self.op(fr, ops[0], depth) if ops else UNK
                o = ops[e[1]]
                if o[0] in ("c", "m"):
                    p = o[1]
                    return self.local(fr, p[0], tuple(x for x in p[1:] if x[0] != "*") + proj[1:], depth)
                return self.proj(self.op(fr, o, depth), proj[1:], fr, depth)
            if e[0] in ("i", "ci", "sub"):
                return phi([self.proj(self.op(fr, o, depth), proj[1:], fr, depth) for o in ops]) or UNK
        return self.agg(fr, rv, depth)

    def agg(self, fr, rv, depth):
        _, kind, name, vi, vn, fields, ops = rv
        if len(ops) == 1 and vn in ("Some", "Ok", "Ready", "Continue") and name.startswith("core::"):
            return self.op(fr, ops[0], depth)
        if name == "core::pin::Pin" and ops:
            return self.op(fr, ops[0], depth)
        fs = fields if len(fields) == len(ops) else tuple(str(i) for i in range(len(ops)))
        nm = name if kind == "adt" else kind
        return T("agg", (nm, vn, tuple((f, self.op(fr, o, depth)) for f, o in zip(fs, ops))))

    def proj(self, t, proj, fr, depth):
        for n, e in enumerate(proj):
            if t is None:
                return None
            if t.k == "phi":
                return phi([self.proj(a, proj[n:], fr, depth) for a in t.d])
            if t.k in ("rec",):
                return t
            if e[0] == "v":
                if t.k == "agg" and t.d[1]:
                    if t.d[1] != e[2]:
                        return None
                    continue
                if e[2] in ("Some", "Ok", "Ready", "Continue"):
                    # payload of option-like values is transparent: skip the field that follows
                    if t.k == "con" and str(t.d[0]).endswith("None"):
                        return None
                    t = T("okp", (t,), t.x)
                    continue
                if t.k == "con" and isinstance(t.d[0], str):
                    return None
                t = T("fld", (t, e[2]))
                continue
            if e[0] == "f":
                if t.k == "okp":
                    t = t.d[0]
                    continue
                if t.k == "agg":
                    m = None
                    for i, (f, v) in enumerate(t.d[2]):
                        if f == e[2] or (t.d[0] != "part" and i == e[1]):
                            m = v
                            break
                    if m is not None:
                        t = m
                        continue
                if t.k == "clo":
                    h, cf, ops = t.x
                    if e[1] < len(ops):
                        t = self.op(cf, ops[e[1]], depth + 1)
                        continue
                if t.k == "elem" and t.d[0].k == "call" and e[1] in (0, 1) and t.d[0].d[0] == "enumerate":
                    t = self.elem(t.d[0].d[1][0], depth) if e[1] == 1 else T("call", ("index", (t.d[0].d[1][0],)))
                    continue
                nm = e[2]
                if t.k == "fld" and t.d[1] in ("Err", "Break") and nm == "0":
                    continue
                if nm == "0" and t.k == "bin":
                    continue
                t = T("fld", (t, nm))
                continue
            if e[0] in ("i", "ci", "sub", "l"):
                t = self.elem(t, depth)
                continue
        if t is not None and t.k == "okp":
            return t.d[0]
        return t

    def elem(self, t, depth=0):
        """An element of t: what a mapped iterator's closure makes of an element, what was put into a new collection."""
        if depth < MAXD - 20:
            if t.k == "phi":
                return phi([self.elem(a, depth + 1) for a in t.d])
            if t.k == "call" and short(t.d[0]) == "map" and t.d[0].endswith("Iterator::map") and len(t.d[1]) == 2 and t.d[1][1].k == "clo":
                r = self.applied(t.d[1][1], self.elem(t.d[1][0], depth + 1), depth)
                if r is not None:
                    return r
            if t.k == "agg" and t.d[0] == "array" and t.d[2] and not listed(t):
                return phi([x for _, x in t.d[2]])
            if t.k == "call" and not t.d[1] or t.k == "call" and short(t.d[0]) == "with_capacity":
                r = self.gathered(t, depth)
                if r is not None:
                    return r
        return T("elem", (t,))

    def applied(self, clo, arg, depth=0):
        """What a closure returns for the given argument."""
        h, cf, ops = clo.x
        b = self.F.bodies.get(h)
        if b is None or b.kind != "closure" or h in cf.stack or b.argc > 2:
            return None
        nf = self.frame(b, cf, (None, (cf, ("t", arg)))[:b.argc], tuple((cf, o) for o in ops), ("ap", h))
        r = self.local(nf, 0, (), depth + 1)
        return None if r is None or any(a.k in ("unk", "rec") for a in alts(r)) else r

    def combined(self, t):
        """What an Option's or Result's combinator makes of its payload."""
        n, a = short(t.d[0]), t.d[1]
        if t.d[0].startswith("core::bool") and len(a) == 2:
            return a[1] if n == "then_some" else self.applied(a[1], UNK) if n == "then" and a[1].k == "clo" else None
        if not t.d[0].startswith(("core::option::Option", "core::result::Result")) or not a or any(z.k != "clo" for z in a[1:]):
            return None
        pay = phi([z for z in alts(a[0]) if not _is_err(z)]) or a[0]
        if n in ("map", "and_then") and len(a) == 2:
            return self.applied(a[1], pay)
        if n == "map_or_else" and len(a) == 3:
            z, r = self.applied(a[1], T("agg", ("core::result::Result", "Err", (("0", T("fld", (a[0], "Err"))),)))), self.applied(a[2], pay)
            return phi([z, r]) if z is not None and r is not None else None
        if n == "unwrap_or_else" and len(a) == 2:
            z = self.applied(a[1], T("agg", ("core::result::Result", "Err", (("0", T("fld", (a[0], "Err"))),))))
            return phi([z, pay]) if z is not None else None
        return None

    def selective(self, t):
        """Some iteration that fills the new collection t passes over an item."""
        self.gathered(t)
        fr = t.x[1]
        b = fr.body
        puts = self.puts.get((fr.id, t.x[3]), ())
        succ = {i: succs(bl[1]) for i, bl in enumerate(b.blocks) if bl is not None}
        nexts = {i for i, bl in enumerate(b.blocks) if bl is not None and bl[1][0] == "call" and bl[1][1][0] == "k" and isinstance(bl[1][1][1], Fn) and bl[1][1][1].path.endswith("Iterator::next")}

        def reach(a, stop):
            seen, st = set(), list(succ.get(a, ()))
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x not in stop:
                    st += succ.get(x, ())
            return seen
        for n in nexts:
            mine = reach(n, nexts) & set(puts)
            if mine and any(n in reach(p, ()) for p in mine) and n in reach(n, mine | (nexts - {n})):
                return True
        return False

    def gathered(self, t, depth=0):
        """What is put, one by one, into the new collection t; None if that is not known."""
        if t.x is None or not isinstance(t.x, tuple) or len(t.x) != 4 or short(t.d[0]) not in ("new", "with_capacity", "default"):
            return None
        fn, fr, args, bi = t.x
        if not any(c in fn.rpath or c in str(fn.args) for c in COLLS):
            return None
        out = []
        puts = self.puts.setdefault((fr.id, bi), set())
        own = {fr.body.blocks[bi][1][3][0]}
        refs = set()
        for _ in range(4):
            for bl in fr.body.blocks:
                for p, rv, _ln in (bl[0] if bl else ()):
                    if rv[0] == "use" and rv[1][0] == "m" and rv[1][1][0] in own and len(rv[1][1]) == 1 and len(p) == 1 and p[0] != 0:
                        own.add(p[0])
                    if rv[0] == "ref" and len(p) == 1 and (rv[2][0] in own and len(rv[2]) == 1 or rv[2][0] in refs and all(e[0] == "*" for e in rv[2][1:])):
                        refs.add(p[0])
        for i, bl in enumerate(fr.body.blocks):
            if bl is None or bl[1][0] != "call" or bl[1][1][0] != "k" or not isinstance(bl[1][1][1], Fn):
                continue
            f2, a2 = bl[1][1][1], bl[1][2]
            n = short(f2.path)
            if a2 and a2[0][0] in ("c", "m") and a2[0][1][0] in refs and is_std(f2.path):
                if n in ("push", "push_back", "push_front", "insert", "extend", "append", "extend_from_slice"):
                    puts.add(i)
                if n in ("push", "push_back", "push_front") and len(a2) == 2:
                    out.append(self.op(fr, a2[1], depth + 1))
                elif n == "insert" and len(a2) == 2:
                    out.append(self.op(fr, a2[1], depth + 1))
                elif n == "insert" and len(a2) == 3:
                    k, v = self.op(fr, a2[1], depth + 1), self.op(fr, a2[2], depth + 1)
                    out.append(v if "vec::Vec" in f2.path else T("agg", ("tuple", "", (("0", k), ("1", v)))))
                elif n in ("extend", "append", "extend_from_slice") and len(a2) == 2:
                    out.append(self.elem(self.op(fr, a2[1], depth + 1), depth + 1))
        if not out or any(x is None or x.k in ("unk", "rec") for x in out):
            return None
        return phi(out)

    def callterm(self, fr, rv, bi, proj, depth):
        fo, args = rv[1], rv[2]
        if fo[0] != "k" or not isinstance(fo[1], Fn):
            return self.proj(T("call", ("<indirect>", tuple(self.op(fr, a, depth) for a in args)), None), proj, fr, depth)
        fn = fo[1]
        p = fn.path
        s = short(p)
        ws = fn.rh in self.F.bodies
        if p == "core::ops::try_trait::FromResidual::from_residual":
            t = self.op(fr, args[0], depth)
            if t.k == "agg" or t.k == "fld":
                return self.proj(t, proj, fr, depth)
            return self.proj(T("agg", ("core::result::Result", "Err", (("0", t),))), proj, fr, depth)
        if p == "core::ops::try_trait::Try::branch":
            o = args[0]
            if proj and proj[0][0] == "v" and proj[0][2] == "Break":
                t = self.op(fr, o, depth)
                return phi([self._errpart(a) for a in alts(t)])
            rest = proj[2:] if len(proj) >= 2 else ()
            ts = self.op(fr, o, depth)
            ts = phi([a for a in alts(ts) if not _is_err(a)])
            if ts is None:
                return None
            return self.proj(ts, rest, fr, depth)
        if s == "next" and len(args) == 1 and ("Iterator" in p):
            return self.proj(self.elem(self.op(fr, args[0], depth), depth), proj[2:] if proj and proj[0][0] == "v" else proj, fr, depth)
        if p == "core::future::future::Future::poll":
            t = self.op(fr, args[0], depth)
            pr = proj
            if pr and pr[0][0] == "v":
                if pr[0][2] != "Ready":
                    return None
                pr = pr[2:] if len(pr) > 1 else ()
            return self.proj(self.awaited(t, depth), pr, fr, depth)
        if s in ITER_LAST and len(args) == 1 and (not ws) and p not in self.opaque:
            t = self.op(fr, args[0], depth)
            if s == "enumerate":
                t = T("call", ("enumerate", (t,)))
            elif s in ("values", "into_values", "keys", "into_keys"):
                t = T("fld", (t, "values" if "values" in s else "keys"))
            return self.proj(t, proj, fr, depth)
        if args and self.is_trans(fn, s, ws):
            t = self.op(fr, args[0], depth)
            return self.proj(t, proj, fr, depth)
        if s == "box_assume_init_into_vec_unsafe" and args[0][0] in ("c", "m"):
            r = self.boxed(fr, args[0], depth)
            if r is not None:
                return self.proj(r, proj, fr, depth)
        # calling a closure value
        if s in ("call", "call_mut", "call_once") and p.startswith("core::ops::function::"):
            c = self.op(fr, args[0], depth)
            r = []
            for a in alts(c):
                if a.k == "clo" and a.x[0] in self.F.bodies and depth < MAXD - 10:
                    cb = self.F.bodies[a.x[0]]
                    cf = self.closure_frame(a, fr, args[1], ("t", bi))
                    if cf is not None:
                        r.append(self.proj(self.local(cf, 0, (), depth + 1), proj, fr, depth))
                        continue
                r.append(self.proj(T("call", (s, (a, self.op(fr, args[1], depth)))), proj, fr, depth))
            return phi(r)
        at = tuple(self.op(fr, a, depth) for a in args)
        name = fn.rpath
        if s == "size_of" and not at and fn.args and fn.args[0].s in SIZES:
            return self.proj(T("con", (str(SIZES[fn.args[0].s]),)), proj, fr, depth)
        t = T("call", (name, at), (fn, fr, args, bi))
        return self.proj(t, proj, fr, depth)

    def closure_frame(self, clo, fr, argop, site):
        h, cf, ops = clo.x
        b = self.F.bodies.get(h)
        if b is None or b.h in fr.stack:
            return None
        args = [None] + [(fr, ("tup", fr, argop, i)) for i in range(b.argc - 1)]
        return self.frame(b, fr, tuple(args), tuple((cf, o) for o in ops), site)

    def awaited(self, t, depth):
        """The value produced by awaiting t."""
        r = []
        for a in alts(t):
            if a.k == "clo":
                h, cf, ops = a.x
                b = self.F.bodies.get(h)
                if b is not None and b.kind == "coroutine" and h not in cf.stack and depth < MAXD - 10:
                    nf = self.frame(b, cf, None, tuple((cf, o) for o in ops), ("co", h))
                    r.append(self.local(nf, 0, (), depth + 1))
                    continue
            if a.k == "call" and short(a.d[0]) in ("spawn_blocking", "block_in_place") and a.d[1] and a.d[1][-1].k == "clo" and depth < MAXD - 10:
                h, cf, ops = a.d[1][-1].x
                b = self.F.bodies.get(h)
                if b is not None and h not in cf.stack:
                    nf = self.frame(b, cf, None, tuple((cf, o) for o in ops), ("sb", h))
                    r.append(self.local(nf, 0, (), depth + 1))
                    continue
            r.append(a)
        return phi(r) or UNK

    @staticmethod
    def _errpart(t):
        if t.k == "agg" and t.d[1] == "Err":
            return t
        if t.k == "con" and str(t.d[0]).endswith("None"):
            return t
        return T("agg", ("core::result::Result", "Err", (("0", T("fld", (t, "Err"))),)))

    def is_trans(self, fn, s, ws):
        p = fn.path
        if p in self.opaque or fn.rpath in self.opaque:
            return False
        if s == "collect" and "collect" in self.opaque and any("Set<" in getattr(a, "s", "") for a in fn.args[-1:]):
            return False
        if self.extra_trans(fn.rpath):
            return True
        if s in TRANS_LAST:
            return is_std(p) or "arc_bytes" in p or "borrow" in s or s in ("deref", "clone", "into_inner", "into_owned") or p.startswith("async_lock") or p.startswith("lock_api")
        if s in ("lock", "read", "write") and (p.startswith("lock_api") or "async_lock" in p):
            return True
        return p in TRANS_FULL_SUFFIX or (s in ("new", "pin") and p.startswith(("alloc::boxed", "alloc::sync", "alloc::rc", "alloc::arc")))

    # -- looking through workspace calls -----------------------------------------------------
    def expand(self, t, depth=0):
        """Return term of a call to a workspace body, or None."""
        if t.k != "call" or t.x is None:
            return None
        fn, fr, args, bi = t.x
        if fn.rpath in self.opaque or fn.path in self.opaque:
            return None
        b = self.F.bodies.get(fn.rh)
        if b is None:
            b = self.devirt(fr, fn, args)
        if b is None or b.h in fr.stack or fr.depth() > 12:
            return None
        nf = self.frame(b, fr, tuple((fr, a) for a in args), None, ("c", bi))
        r = self.local(nf, 0, (), 0)
        r = self.awaited(r, 0)
        if any(a.k in ("unk", "rec") for a in alts(r)):
            return None
        return r

    def devirt(self, fr, fn, args):
        """Resolve a trait call on a type parameter through the concrete type of its receiver."""
        impls = self.F.impl_of.get(fn.h)
        if not impls or not args:
            return None
        ty = self.optype(fr, args[0])
        if ty is None:
            return None
        ty = ty.peel()
        c = [b for b in impls if b.selfty and (b.selfty == ty.s or (ty.adt and b.selfty.split("<")[0] == ty.adt))]
        return c[0] if len(c) == 1 else None

    def optype(self, fr, o):
        """Concrete type of an operand, following parameters up the frame chain."""
        while True:
            if o[0] == "tup" or o[0] == "t":
                return None
            if o[0] == "k":
                return o[1].ty if isinstance(o[1], Const) else None
            p = o[1]
            ty = self.placetype(fr, p)
            if ty is None:
                return None
            if ty.peel().k == "param":
                t = self.place(fr, p)
                return self.typeof_term(t)
            return ty

    def typeof_term(self, t):
        if t.k == "par":
            return t.x
        return None

    def placetype(self, fr, p):
        ty = fr.body.locals[p[0]]
        for e in p[1:]:
            if e[0] == "*":
                ty = ty.t if ty is not None and ty.k in ("ref", "ptr") else (ty if ty is not None else None)
                if ty is None:
                    return None
            else:
                return self.fieldtype(ty, p, e)
        return ty

    def fieldtype(self, ty, p, e):
        return None

    # -- queries -------------------------------------------------------------------------------
    def walk(self, t, expand=6, seen=None):
        """All sub-terms, looking through workspace calls up to `expand` levels."""
        if seen is None:
            seen = set()
        st = [(t, expand)]
        while st:
            x, n = st.pop()
            if x in seen:
                continue
            seen.add(x)
            yield x
            k = x.k
            if k == "call":
                for a in x.d[1]:
                    st.append((a, n))
                if n > 0:
                    e = self.expand(x)
                    if e is not None:
                        st.append((e, n - 1))
            elif k == "agg":
                for _, v in x.d[2]:
                    st.append((v, n))
            elif k in ("fld", "elem", "okp", "disc"):
                st.append((x.d[0], n))
            elif k == "phi":
                for a in x.d:
                    st.append((a, n))
            elif k in ("bin", "un"):
                for a in x.d[1]:
                    st.append((a, n))
            elif k == "clo":
                h, cf, ops = x.x
                for o in ops:
                    st.append((self.op(cf, o), n))

    def norm(self, t, keep=lambda path: False, depth=0):
        """The term with every workspace call not kept replaced by what it returns."""
        if depth > 12:
            return t
        k = t.k
        if k == "call":
            if not keep(t.d[0]):
                e = self.expand(t)
                if e is not None:
                    return self.norm(e, keep, depth + 1)
                e = self.combined(t)
                if e is not None:
                    return self.norm(e, keep, depth + 1)
            return T("call", (t.d[0], tuple(self.norm(a, keep, depth + 1) for a in t.d[1])), t.x)
        if k == "agg":
            return T("agg", (t.d[0], t.d[1], tuple((f, self.norm(v, keep, depth + 1)) for f, v in t.d[2])))
        if k == "fld":
            i = self.norm(t.d[0], keep, depth + 1)
            if i is not t.d[0]:
                r = self.proj(i, (("f", -1, t.d[1]),), None, depth) if i.k in ("agg", "phi") else None
                if r is not None:
                    return r
                return T("fld", (i, t.d[1]))
            return t
        if k == "elem":
            return self.elem(self.norm(t.d[0], keep, depth + 1), 0)
        if k == "phi":
            return phi([self.norm(a, keep, depth + 1) for a in t.d]) or t
        return t


def _argkey(a):
    if a is None:
        return None
    f, o = a
    if o[0] == "tup":
        return (f.id, "tup", o[1].id, repr(o[2]), o[3])
    if o[0] == "t":
        return (f.id if f else None, "t", o[1])
    if o[0] == "k":
        return (f.id, "k", id(o[1]))
    return (f.id, o[1])


def _compat(a, b):
    for x, y in zip(a, b):
        if x[0] != y[0]:
            # indexing matches any index
            if x[0] in ("i", "ci", "l", "sub") and y[0] in ("i", "ci", "l", "sub"):
                continue
            return False
        if x[0] in ("f", "v") and x[1] != y[1]:
            return False
    return True


def _pname(p):
    for e in p:
        if e[0] == "f":
            return e[2]
    return "?"


def _is_err(t):
    return (t.k == "agg" and t.d[1] in ("Err", "Break")) or (t.k == "con" and str(t.d[0]).endswith("::None")) or \
        (t.k == "agg" and t.d[1] == "None")


def _has_rec(t, d=0):
    if t.k == "rec":
        return True
    if d > 6:
        return False
    if t.k == "call":
        return any(_has_rec(a, d + 1) for a in t.d[1])
    if t.k == "agg":
        return any(_has_rec(v, d + 1) for _, v in t.d[2])
    if t.k in ("fld", "elem", "okp"):
        return _has_rec(t.d[0], d + 1)
    if t.k == "phi":
        return any(_has_rec(a, d + 1) for a in t.d)
    return False
