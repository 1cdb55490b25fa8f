"""Shared: a method of a wrapper forwards to the method of the same name it wraps."""
from explore import Explorer, res_ok, res_err
from terms import show, alts, short

CONV = ("clone", "into", "from", "to_vec", "into_vec", "to_owned", "into_owned", "as_ref", "as_slice", "deref", "borrow", "index", "as_str", "as_bytes", "bytes", "iter", "into_iter",
        "copied", "cloned", "to_string", "branch", "into_future", "poll")       # calls that hand on what they are given


def unwrap(t):
    f = []
    while t.k in ("fld", "elem"):
        f.append(t.d[1] if t.k == "fld" else "*")
        t = t.d[0]
    f.reverse()
    return t, tuple(f)


def is_par(t, root, i):
    return t.k == "par" and t.d[0] == root.h and t.d[1] == i


class Fwd:
    """Every path through `root` reaches exactly one call that `target(c)` accepts, with `args(c)` in place,
    and ends the way that call ended."""

    def __init__(self, ctx, TT, root, name, target, argcheck, fallible=True, names=None):
        self.ctx, self.TT, self.root, self.name = ctx, TT, root, name
        self.target, self.argcheck, self.fallible = target, argcheck, fallible
        self.names = names
        self.n = 0
        self.rets = 0

    def monitored(self, p):
        return short(p) in self.names

    def call(self, ps, c):
        if not self.target(c):
            return None
        self.n += 1
        if ps[0] >= 1:
            self.ctx.fail("%s:twice" % self.name, c.where(), "the wrapped operation is performed twice on one path")
            return []
        for ok, why in self.argcheck(c):
            if not ok:
                self.ctx.fail("%s:args" % self.name, c.where(), why)
        if not self.fallible:
            return [((1, None), {})]
        return [((1, 0), res_ok()), ((1, 1), res_err())]

    def ret(self, ps, val, st, ex):
        self.rets += 1
        v = val.get(())
        if not self.fallible:
            if ps[0] != 1:
                self.ctx.fail("%s:skipped" % self.name, self.ctx.where(self.root), "returns without performing the wrapped operation")
            return
        if ps[0] == 0:
            if v != 1:
                self.ctx.fail("%s:skipped" % self.name, self.ctx.where(self.root), "succeeds without performing the wrapped operation")
        elif ps[1] == 0 or self.fallible == "value":
            pass        # what is made of the result may still fail (building a handle, converting a type)
        elif v != 1:
            self.ctx.fail("%s:error-lost" % self.name, self.ctx.where(self.root), "an error of the wrapped operation can end in success")


def fallible(b):
    """Whether this fn (or the async block it returns) returns a Result."""
    return "Result<" in b.ret_s if hasattr(b, "ret_s") else True


def forward(ctx, TT, root, name, names, target, argcheck, is_fallible, want_ret=True):
    r = Fwd(ctx, TT, root, name, target, argcheck, is_fallible, names)
    ex = Explorer(ctx.F, TT, r)
    before = sum(1 for o in ctx.obls if not o[1])
    ex.run(root, (0, None))
    ctx.states += ex.nstates
    ctx.funcs |= {ctx.F.bodies[h].path for h in ex.entered}
    if r.n == 0:
        ctx.fail("%s:no-call" % name, ctx.where(root), "the wrapped operation is never performed")
    elif r.rets == 0:
        ctx.fail("%s:no-return" % name, ctx.where(root), "no return of this operation was reached")
    if sum(1 for o in ctx.obls if not o[1]) == before:
        ctx.ob(name, True, ctx.where(root), "%d call sites, %d ways to return" % (r.n, r.rets))
    return r
