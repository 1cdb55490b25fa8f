"""Shared: an event automaton over all paths of a body."""
from explore import Explorer
from terms import alts, short, show
import fwd

ITER = "core::iter::traits::iterator::Iterator::next"


class Proto:
    """events: label -> callee paths (exact, or short names when they contain no '::').
    step(ps, label, call) -> None (not an event after all) | [(ps, val), ...]"""

    def __init__(self, ctx, name, events, step, ret=None, drop=None, branch=None, enter=None, assign=None, left=None, nonempty=False, stop=None, tracked=None, quiet=(), reach_extra=None, prims=False):
        self.ctx, self.name, self.step = ctx, name, step
        self.full, self.shorts = {}, {}
        for l, ps in events.items():
            for p in ps:
                (self.full if "::" in p else self.shorts)[p] = l
        self.n = {}
        if quiet:       # labels that are seen, but for which no function is entered
            loud = {p for l, ps in events.items() if l not in quiet for p in ps}
            self.reaches = lambda p: p in loud or short(p) in loud
        self.rets = 0
        self.prims = prims          # which definition of a number is meant is told apart by path
        self._ret = ret
        self.nonempty = nonempty
        if stop is not None:
            self.stop = stop
        if tracked is not None:
            self.tracked = tracked
        if reach_extra is not None:
            self.reach_extra = reach_extra
        if drop is not None:
            self.drop = drop
        if branch is not None:
            self.branch = branch
        if enter is not None:
            self.enter = enter
        if assign is not None:
            self.assign = assign
        if left is not None:
            self.left = left

    def label(self, p):
        return self.full.get(p) or self.shorts.get(short(p))

    def monitored(self, p):
        return p in self.full or short(p) in self.shorts

    def call(self, ps, c):
        l = self.label(c.path) or self.label(c.fn.path)
        if l is None:
            return None
        r = self.step(ps, l, c)
        if r is not None:
            self.n[l] = self.n.get(l, 0) + 1
        return r

    def ret(self, ps, val, st, ex):
        self.rets += 1
        if self._ret is not None:
            self._ret(ps, val, st, ex)


def run(ctx, TT, root, name, events, step, ps0, need=(), rets=1, **kw):
    """Explores root; `need`: labels that must occur at least once."""
    assert ps0 is not None or not ("assign" in kw or "branch" in kw or "drop" in kw)      # None prunes a path
    mx = kw.pop("max_states", 60000)
    args = kw.pop("args", None)
    frame = kw.pop("frame", None)
    vals = kw.pop("vals", None)
    kcap = kw.pop("kcap", 6)
    r = Proto(ctx, name, events, step, **kw)
    ex = Explorer(ctx.F, TT, r, max_states=mx, kcap=kcap)
    bad = sum(1 for o in ctx.obls if not o[1])
    ex.run(root, ps0, args, frame, vals)
    ctx.states += ex.nstates
    ctx.funcs.add(root.path)
    ctx.funcs |= {ctx.F.bodies[h].path for h in ex.entered}
    for l in need:
        if not r.n.get(l):
            ctx.fail("%s:no-%s" % (name, l), ctx.where(root), "no `%s` step was found on any path" % l)
    if r.rets < rets:
        ctx.fail("%s:no-return" % name, ctx.where(root), "no way to return was found")
    if sum(1 for o in ctx.obls if not o[1]) == bad:
        ctx.ob(name, True, ctx.where(root), "events on explored paths: %s; returns: %d" % (dict(sorted(r.n.items())), r.rets))
    return r


def fld(t):
    """(root term, field path)"""
    return fwd.unwrap(t)


def has_agg(TT, t, name, depth=0):
    return [x for x in TT.walk(t, depth) if x.k == "agg" and x.d[0] == name]


def direct(TT, fr):
    """the frame was entered by plain calls, not through a closure that something else runs any number of times"""
    while fr is not None and fr.ret is not None:
        if fr.ret[0] == "many":
            return False
        if fr.ret[0] == "tail":
            return True
        fr = TT.flist[fr.ret[1]]
    return True


def gty(TT, fr, ty):
    """ty, with the type parameters of the functions it is seen through replaced by what their callers gave"""
    while ty is not None and ty.k == "param" and fr is not None:
        f = fr
        while f is not None and not f.body.gen:          # closures have those of the function that holds them
            f = f.parent
        if f is None or f.parent is None or not isinstance(f.site, int) or ty.s not in f.body.gen:
            return ty
        blk = f.parent.body.blocks[f.site]
        t = blk[1] if blk else None
        if not t or t[0] != "call":
            return ty
        fn = t[1][1] if isinstance(t[1], tuple) else t[1]
        fn = getattr(fn, "fn", fn)
        if getattr(fn, "args", None) is None or (fn.h != f.body.h and fn.rh != f.body.h):
            return ty
        if fn.h == f.body.h and len(fn.args) == len(f.body.gen):
            ty, fr = fn.args[f.body.gen.index(ty.s)], f.parent
        else:
            return ty
    return ty


def callers(F, b):
    """the call sites of b's body: (caller, block index, arguments)"""
    memo = F.__dict__.setdefault("_callers", {})
    if not memo:
        memo[None] = ()
        for cb in F.bodies.values():
            for i, bl in enumerate(cb.blocks):
                if bl is not None and bl[1][0] == "call" and bl[1][1][0] == "k" and getattr(bl[1][1][1], "rh", None) in F.bodies:
                    memo.setdefault(bl[1][1][1].rh, []).append((cb, i, bl[1][2]))
    return memo.get(b.h, ())


def everywhere(F, TT, b, holds, depth=3, up=()):
    """whether holds(frame) is true of b on its own or, where it depends on what b is given, of b as called from each of its call sites"""
    def frame(chain):
        fr = None
        for cb, i, a in chain:          # outermost first
            nf = TT.frame(cb, fr, fr_args, None, site) if fr is not None else TT.frame(cb)
            fr, fr_args, site = nf, tuple((nf, x) for x in a), ("c", i)
        return TT.frame(b, fr, fr_args, None, site) if fr is not None else TT.frame(b)
    r = holds(frame(up))
    if r or depth == 0:
        return r
    top = up[0][0] if up else b
    cs = [c for c in callers(F, top) if c[0].h not in {x[0].h for x in up} | {b.h}]
    if not cs:
        return r
    return all(everywhere(F, TT, b, holds, depth - 1, (c,) + tuple(up)) for c in cs)


def uses_field(b, name):
    """some place in b's code is a field of that name"""
    def has(x):
        return isinstance(x, tuple) and (len(x) == 3 and x[0] == "f" and x[2] == name or any(has(y) for y in x))
    return any(bl is not None and (has(tuple(s[:2] for s in bl[0])) or has(bl[1])) for bl in b.blocks)
