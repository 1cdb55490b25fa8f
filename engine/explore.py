"""Path-sensitive exploration of the supergraph (property simulation).

States are (frame, block, rule state, what is known about enum variants and booleans). Workspace
functions, closures and async bodies that can reach a monitored call are entered; everything else
is opaque. No solver is involved: a branch is pruned only when the variant or boolean it tests is
already known on the path.
"""
from facts import Fn, Const
from terms import T, short, show, alts, succs, _assert_target

OK, ERR = 0, 1
NONE, SOME = 0, 1
FUT = ("fut",)
JOIN = ("join",)


def res_ok(payload=None):
    d = {(): 0}
    for k, v in (payload or {}).items():
        d[(("v", 0), ("f", 0)) + k] = v
    return d


def res_err():
    return {(): 1}


def fut(d):
    r = dict(d)
    r[FUT] = 1
    return r


class Limit(Exception):
    pass


class State:
    __slots__ = ("fr", "bb", "ps", "env", "prev", "why", "site")

    def __init__(self, fr, bb, ps, env, prev, why=None):
        self.fr, self.bb, self.ps, self.env, self.prev, self.why = fr, bb, ps, env, prev, why


def _norm(p):
    """(local, subpath without derefs, index?)"""
    sub = []
    for e in p[1:]:
        if e[0] == "*":
            continue
        if e[0] == "f":
            sub.append(("f", e[1]))
        elif e[0] == "v":
            sub.append(("v", e[1]))
        else:
            sub.append(("?",))
    return p[0], tuple(sub)


class Call:
    """A call about to happen, as shown to rules."""
    __slots__ = ("ex", "st", "fr", "fn", "args", "dest", "line", "bb")

    def __init__(self, ex, st, fn, args, dest, line, bb):
        self.ex, self.st, self.fr, self.fn, self.args, self.dest, self.line, self.bb = ex, st, st.fr, fn, args, dest, line, bb

    def arg(self, i):
        return self.ex.term(self.st, self.args[i]) if i < len(self.args) else None

    @property
    def path(self):
        return self.fn.rpath

    def where(self):
        return "%s:%d (%s)" % (self.fr.body.file, self.line, pretty(self.fr.body))

    def body(self):
        return self.ex.F.bodies.get(self.fn.rh)


def pretty(b):
    return b.path


ITERT = "core::iter::traits::iterator::Iterator::"
ITER_NEXT = ITERT + "next"
GATHER = ("collect", "sum", "product", "count", "last", "max", "min")
EACH = ("for_each", "try_for_each", "try_fold", "fold", "all", "any", "find", "find_map", "position") + GATHER
COMB_OPT = "core::option::Option::<"
COMB_RES = "core::result::Result::<"


class Explorer:
    """rule interface (all optional):
      monitored(path) -> bool: which callees are events, used to decide what to enter
      call(ps, c) -> None | [(ps, val or None)]       an event and its outcomes
      enter(ps, c, body) -> None | False | True       veto / force entering a body
      ret(ps, val, st)                                return from the root
      assign(ps, st, place, rv, line) -> ps           a statement
      drop(ps, st, place, ty, line) -> ps
    """

    def __init__(self, F, TT, rule, max_states=60000, kcap=6, max_depth=24):
        self.F, self.TT, self.rule = F, TT, rule
        self.max_states, self.kcap, self.max_depth = max_states, kcap, max_depth
        self.reach = self._reach()
        self.nstates = 0
        self.entered = set()
        self.live_memo = {}
        self.multi_memo = {}
        self.loop_memo = {}
        self.track_memo = {}
        self.opaque_async = set()

    # ---- what may reach an event -------------------------------------------------------------
    def _reach(self):
        F = self.F
        cg = callgraph(F)
        hit = set()
        mon = getattr(self.rule, "reaches", None) or self.rule.monitored
        stop = getattr(self.rule, "stop", None)
        work = []
        cut = {h for h, b in F.bodies.items() if stop(b)} if stop is not None else ()
        for h, outs in cg["calls"].items():
            if h not in cut and any(mon(p) for p in outs):
                hit.add(h)
                work.append(h)
        extra = getattr(self.rule, "reach_extra", None)
        if extra is not None:
            for h, b in F.bodies.items():
                if h not in hit and extra(b):
                    hit.add(h)
                    work.append(h)
        rev = cg["rev"]
        while work:
            h = work.pop()
            for p in rev.get(h, ()):
                if p not in hit and p not in cut:
                    hit.add(p)
                    work.append(p)
        return hit

    # ---- terms on a path ------------------------------------------------------------------------
    def term(self, st, op, fr=None):
        return PathTerms(self, st).op(fr or st.fr, op)

    def within(self, st, f):
        """f(), with the terms it makes under the definitions that reach this state"""
        over = {k: d[("def",)] for k, d in st.env.items() if ("def",) in d}
        return with_defs(self.TT, over, f) if over else f()

    # ---- env helpers --------------------------------------------------------------------------
    @staticmethod
    def get(env, fr, place):
        l, sub = _norm(place)
        d = env.get((fr.id, l))
        if not d:
            return {}
        if not sub:
            return {k: v for k, v in d.items() if k != ("def",) and k != ("mv",)}
        n = len(sub)
        return {k[n:]: v for k, v in d.items() if k[:n] == sub}

    @staticmethod
    def put(env, fr, place, val):
        l, sub = _norm(place)
        key = (fr.id, l)
        d = env.get(key)
        if d:
            n = len(sub)
            nd = {k: v for k, v in d.items() if k[:n] != sub and not (n and k == FUT)} if n else ({("def",): d[("def",)]} if ("def",) in d else {})
        else:
            nd = {}
        if ("?",) not in sub:
            for k, v in (val or {}).items():
                if k != ("def",):
                    nd[sub + k] = v
        env = dict(env)
        if nd:
            env[key] = nd
        else:
            env.pop(key, None)
        return env

    def opval(self, env, fr, o):
        if o[0] in ("c", "m"):
            return self.get(env, fr, o[1])
        k = o[1]
        if isinstance(k, Const) and k.v is not None and k.ty.s == "bool":
            return {(): int(k.v)}
        if isinstance(k, Const) and k.prom is not None:
            return {}
        return {}

    # ---- liveness ---------------------------------------------------------------------------------
    def live(self, b):
        r = self.live_memo.get(b.h)
        if r is None:
            r = liveness(b)
            self.live_memo[b.h] = r
        return r

    def multi(self, b):
        """locals with several whole definitions, whose reaching definition is worth tracking"""
        r = self.multi_memo.get(b.h)
        if r is None:
            r = set()
            for l, ds in self.TT.defs(b).items():
                if l == 0 or len(ds) < 2:
                    continue
                ty = b.locals[l]
                if ty.k == "prim" and (ty.s == "bool" or not getattr(self.rule, "prims", False)):
                    continue
                if all(len(p) == 1 for p, _, _ in ds):
                    r.add(l)
            self.multi_memo[b.h] = r
        return r

    def tracked(self, b):
        """locals whose drop matters to the rule (coroutine bodies are not drop-elaborated: a moved local may still be `dropped`)"""
        r = self.track_memo.get(b.h)
        if r is None:
            f = getattr(self.rule, "tracked", None)
            r = {l for l, ty in enumerate(b.locals) if f(ty)} if f is not None else set()
            self.track_memo[b.h] = r
        return r

    def moved(self, env, fr, o, tr):
        if o[0] == "m" and len(o[1]) == 1 and o[1][0] in tr:
            env = dict(env)
            d = dict(env.get((fr.id, o[1][0]), {}))
            d[("mv",)] = 1
            env[(fr.id, o[1][0])] = d
        return env

    # ---- driver -------------------------------------------------------------------------------------
    def run(self, root, ps0, args=None, frame=None, vals=None):
        """Explores from the entry of `root` (a Body); vals: {parameter: value}."""
        fr = frame or self.TT.frame(root, None, args)
        self.seen = {}
        self.work = []
        self.root = fr
        self.count = 0
        env = {}
        for l, v in (vals or {}).items():
            env = self.put(env, fr, (l,), v)
        self.push(State(fr, 0, ps0, env, None))
        while self.work:
            st = self.work.pop()
            self.count += 1
            self.nstates += 1
            if self.count > self.max_states:
                raise Limit("%s: more than %d states" % (root.path, self.max_states))
            self.step(st)

    def push(self, st):
        b = st.fr.body
        lv = self.live(b)[st.bb]
        env = {}
        for k, d in st.env.items():
            if k[0] == st.fr.id and k[1] not in lv and k[1] != 0 and not isinstance(k[1], str):
                if ("def",) in d:
                    env[k] = {("def",): d[("def",)]}
                continue
            env[k] = d
        st.env = env
        key = (st.fr.id, st.bb, st.ps)
        got = self.seen.setdefault(key, [])
        fz = freeze(env)
        if fz in got:
            return
        for g in got:
            if g <= fz:      # an already explored, less informed state covers this one
                return
        if len(got) >= self.kcap:
            j = got[0]
            for g in got[1:]:
                j = j & g
            j = j & fz
            got.clear()
            got.append(j)
            st.env = thaw(j)
        else:
            got.append(fz)
        self.work.append(st)

    def step(self, st):
        b = st.fr.body
        blk = b.blocks[st.bb]
        if blk is None:
            return
        env, ps, fr = st.env, st.ps, st.fr
        rule = self.rule
        has_assign = getattr(rule, "assign", None)
        multi = self.multi(b)
        tr = self.tracked(b)
        for p, rv, ln in blk[0]:
            t = rv[0]
            if tr and t in ("use", "agg", "cast"):
                for o in (rv[6] if t == "agg" else (rv[1],)):
                    env = self.moved(env, fr, o, tr)
            if t == "dead":
                if (fr.id, p[0]) in env and len(p) == 1:
                    env = dict(env)
                    d = env.pop((fr.id, p[0]))
                    if ("def",) in d:
                        env[(fr.id, p[0])] = {("def",): d[("def",)]}
                continue
            if has_assign is not None and t != "setd":
                st.env = env
                st.ps = ps
                ps = rule.assign(ps, st, p, rv, ln, self)
                if ps is None:
                    return
            if t == "use":
                v = self.opval(env, fr, rv[1])
                env = self.put(env, fr, p, v)
            elif t == "ref":
                v = self.get(env, fr, rv[2])
                env = self.put(env, fr, p, v)
                if rv[1] and v and FUT not in v and JOIN not in v:
                    # mutable borrow: what was known may change behind our back
                    ty = b.locals[rv[2][0]]
                    if not (ty.k == "coroutine" or "Future" in ty.s or "JoinHandle" in ty.s or "Pin<" in ty.s):
                        env = self.put(env, fr, rv[2], {})
            elif t == "cast":
                v = self.opval(env, fr, rv[1])
                env = self.put(env, fr, p, v)
            elif t == "agg":
                v = {}
                if rv[1] == "adt" and rv[4] and rv[4] != "":
                    ad = self.F.adts.get(rv[2])
                    isenum = ad is None or len(ad.get("variants", ())) > 1 or ad.get("enum")
                    if rv[2].startswith(("core::option::Option", "core::result::Result", "core::ops::control_flow", "core::task::poll")) or isenum:
                        v[()] = rv[3]
                        pre = (("v", rv[3]),)
                    else:
                        pre = ()
                else:
                    pre = ()
                for i, o in enumerate(rv[6]):
                    for k, x in self.opval(env, fr, o).items():
                        v[pre + (("f", i),) + k] = x
                if rv[2] == "core::pin::Pin" and rv[6]:
                    v = self.opval(env, fr, rv[6][0])
                env = self.put(env, fr, p, v)
            elif t == "un" and rv[1] == "Not":
                v = self.opval(env, fr, rv[2])
                env = self.put(env, fr, p, {(): 1 - v[()]} if () in v and v[()] in (0, 1) else {})
            elif t == "discr":
                v = self.get(env, fr, rv[1])
                env = self.put(env, fr, p, {(): v[()]} if () in v else {})
            elif t == "setd":
                env = self.put(env, fr, p, {(): rv[1]} if len(rv) > 1 else {})
            else:
                env = self.put(env, fr, p, {})
            if len(p) == 1 and p[0] in multi:
                env = self.setdef(env, fr, p[0], st.bb, p, rv)
        st.env, st.ps = env, ps
        self.terminator(st, blk[1])

    def setdef(self, env, fr, l, bb, p, rv):
        ds = self.TT.defs(fr.body)[l]
        for i, (dp, drv, di) in enumerate(ds):
            if di == bb and (drv is rv or (rv is None and drv[0] == "call")):
                key = (fr.id, l)
                env = dict(env)
                d = dict(env.get(key, {}))
                d[("def",)] = i
                env[key] = d
                return env
        return env

    def goto(self, st, bb, ps=None, env=None):
        if bb is None:
            return
        self.push(State(st.fr, bb, st.ps if ps is None else ps, st.env if env is None else env, st))

    def terminator(self, st, t):
        k = t[0]
        fr, env, ps = st.fr, st.env, st.ps
        if k == "goto":
            self.goto(st, t[1])
        elif k == "switch":
            self.switch(st, t)
        elif k == "drop":
            h = getattr(self.rule, "drop", None)
            if len(t[1]) == 1 and ("mv",) in env.get((fr.id, t[1][0]), ()):
                h = None
            if h is not None:
                ps = h(ps, st, t[1], t[3], t[4], self)
                if ps is None:
                    return
            self.goto(st, t[2], ps)
        elif k == "assert":
            self.goto(st, _assert_target(t))
        elif k == "yield":
            h = getattr(self.rule, "yielded", None)
            if h is not None:
                h(ps, st, self)
            self.goto(st, t[1] if isinstance(t[1], int) else t[3])
        elif k == "ret":
            self.ret(st)
        elif k == "call":
            self.call(st, t)

    def switch(self, st, t):
        _, o, targets, other, ln = t
        fr, env = st.fr, st.env
        val = self.opval(env, fr, o)
        src = None
        if o[0] in ("c", "m") and len(o[1]) == 1:
            # is it the discriminant of a place?
            for p, rv, bi in self.TT.defs(fr.body).get(o[1][0], ()):
                if rv[0] == "discr" and bi == st.bb:
                    src = rv[1]
        isbool = o[0] in ("c", "m") and len(o[1]) == 1 and fr.body.locals[o[1][0]].s == "bool"
        if () in val:
            v = val[()]
            for a, bb in targets:
                if a == v:
                    self.goto(st, bb)
                    return
            self.goto(st, other)
            return
        h = getattr(self.rule, "branch", None)
        taken = [a for a, _ in targets]
        for a, bb in targets:
            e = env
            if src is not None:
                e = self.refine(e, fr, src, a)
            elif isbool:
                e = self.put(e, fr, o[1], {(): a})
            ps = st.ps
            if h is not None:
                ps = h(ps, st, o, src, a, self)
                if ps is None:
                    continue
            self.goto(st, bb, ps, e)
        if other is not None and fr.body.blocks[other] is not None and fr.body.blocks[other][1][0] != "unreachable":
            e = env
            n = self.nvariants(fr, src) if src is not None else None
            rest = None
            if n is not None:
                r = [i for i in range(n) if i not in taken]
                rest = r[0] if len(r) == 1 else None
                if not r:
                    return
            if isbool and len(taken) == 1:
                rest = 1 - taken[0]
                e = self.put(e, fr, o[1], {(): rest})
            elif src is not None and rest is not None:
                e = self.refine(e, fr, src, rest)
            ps = st.ps
            if h is not None:
                ps = h(ps, st, o, src, rest, self)
                if ps is None:
                    return
            self.goto(st, other, ps, e)

    def refine(self, env, fr, place, v, depth=0):
        l, sub = _norm(place)
        if ("?",) in sub:
            return env
        key = (fr.id, l)
        d = dict(env.get(key, {}))
        d[sub] = v
        env = dict(env)
        env[key] = d
        # through a reference that was made once, what it refers to is known too
        if depth < 4:
            ds = self.TT.defs(fr.body).get(l, ())
            if len(ds) == 1 and len(ds[0][0]) == 1 and not (1 <= l <= fr.body.argc):
                rv = ds[0][1]
                rest = tuple(e for e in place[1:] if e[0] != "*")
                if rv[0] == "ref":
                    return self.refine(env, fr, rv[2] + rest, v, depth + 1)
                if rv[0] == "use" and rv[1][0] == "c" and fr.body.locals[l].k == "ref":
                    return self.refine(env, fr, rv[1][1] + rest, v, depth + 1)
        return env

    def nvariants(self, fr, place):
        ty = fr.body.locals[place[0]]
        for e in place[1:]:
            if e[0] == "*":
                ty = ty.t
                if ty is None:
                    return None
            else:
                return None
        if ty.adt is None:
            return None
        if ty.adt in ("core::option::Option", "core::result::Result", "core::task::poll::Poll", "core::ops::control_flow::ControlFlow"):
            return 2
        ad = self.F.adts.get(ty.adt)
        return len(ad["variants"]) if ad and ad.get("variants") else None

    # ---- returning -------------------------------------------------------------------------------
    def ret(self, st):
        fr = st.fr
        val = self.get(st.env, fr, (0,))
        if fr.ret is None:
            # an async root: run the future it returns
            c = self.callable_of(st, fr, ("m", (0,)), want="coroutine") if self.may_be_future(fr, ("m", (0,))) else None
            if c is not None:
                h, cf, ops = c
                b = self.F.bodies.get(h)
                if b is not None and b.h not in fr.stack:
                    nf = self.TT.frame(b, cf, None, tuple((cf, o) for o in ops), ("tail", h), ("tail",))
                    self.push(State(nf, 0, st.ps, st.env, st))
                    return
            r = getattr(self.rule, "ret", None)
            if r is not None:
                r(st.ps, val, st, self)
            return
        self.leave(st, val)

    def leave(self, st, val):
        fr = st.fr
        kind = fr.ret[0]
        if kind == "tail":
            r = getattr(self.rule, "ret", None)
            if r is not None:
                r(st.ps, val, st, self)
            return
        caller = self.TT.flist[fr.ret[1]]
        env = {k: d for k, d in st.env.items() if k[0] != fr.id}
        site_bb, target, dest = fr.ret[2], fr.ret[3], fr.ret[4]
        post = fr.ret[5]
        ns = State(caller, site_bb, st.ps, env, st)
        if kind == "each":
            h = getattr(self.rule, "left", None)
            if h is not None:
                ns.ps = h(ns.ps, st, val, self)
            self.each_left(ns, fr, val, target, dest)
            return
        if kind == "many":
            if val.get(()) == 1 and fr.body.locals[0].adt == "core::result::Result":
                ns.env[(caller.id, "err")] = {(): 1}
            h = getattr(self.rule, "left", None)
            if h is not None:
                ns.ps = h(ns.ps, st, val, self)
            self.unknown_continue(ns, target, dest, fr.ret[6], already=True)
            return
        h = getattr(self.rule, "left", None)
        if h is not None:
            ns.ps = h(ns.ps, st, val, self)
        for v in post_of(post)(val):
            self.finish(ns, target, dest, v)

    def finish(self, st, target, dest, val, ps=None):
        """Continue after a call in st.fr with dest := val."""
        if target is None:
            return
        env = self.put(st.env, st.fr, dest, val)
        if len(dest) == 1 and dest[0] in self.multi(st.fr.body):
            env = self.setdef(env, st.fr, dest[0], st.bb, dest, None)
        self.goto(st, target, ps, env)

    # ---- calling -----------------------------------------------------------------------------------
    def call(self, st, t):
        _, fo, args, dest, target, line = t
        fr, env = st.fr, st.env
        if fo[0] != "k" or not isinstance(fo[1], Fn):
            self.opaque(st, None, args, dest, target, line)
            return
        fn = fo[1]
        c = Call(self, st, fn, args, dest, line, st.bb)
        tr = self.tracked(fr.body)
        if tr:
            for a in args:
                env = self.moved(env, fr, a, tr)
            st.env = env
        r = self.rule.call(st.ps, c) if (self.rule.monitored(fn.rpath) or self.rule.monitored(fn.path)) else None
        if r is not None:
            for out in r:
                ps, val = out[:2]
                v = dict(val or {})
                v[FUT] = 1
                s2 = st
                if len(out) > 2:        # ((frame, place), value), … that the call changes besides its result
                    e2 = env
                    for (f2, pl), x in out[2]:
                        e2 = self.put(e2, f2, pl, x)
                    s2 = State(fr, st.bb, st.ps, e2, st.prev)
                self.finish(s2, target, dest, v, ps)
            return
        ps = st.ps
        p, s = fn.path, short(fn.path)
        if p == "core::mem::drop" and args and args[0][0] == "m" and len(args[0][1]) == 1 and getattr(self.rule, "drop", None) is not None:
            ps = self.rule.drop(ps, st, args[0][1], fr.body.locals[args[0][1][0]], line, self)
            if ps is not None:
                self.finish(st, target, dest, {}, ps)
            return
        if s == "next" and p == "core::iter::traits::iterator::Iterator::next" and getattr(self.rule, "nonempty", False) \
                and self.loop_has_event(fr.body, st.bb):
            seen = env.get((fr.id, "it%d" % st.bb))
            self.finish(State(fr, st.bb, ps, {**env, (fr.id, "it%d" % st.bb): {(): 1}}, st.prev), target, dest, {(): 1})
            if seen:
                self.finish(st, target, dest, {(): 0})
            return
        if p.startswith(ITERT) and s in EACH and self.each(st, fn, args, dest, target, line):
            return
        if p.startswith(ITERT) and s in ("map", "filter_map", "inspect") and self.feeds_consumer(st, dest, args):
            self.finish(st, target, dest, {})
            return
        if s in ("collect", "sum", "product", "unzip", "extend") and self.is_result(fr, dest):
            pend = env.get((fr.id, "err"))
            e2 = {k: v for k, v in env.items() if k != (fr.id, "err")}
            ns = State(fr, st.bb, ps, e2, st.prev)
            if not pend:
                self.finish(ns, target, dest, {(): 0})
            self.finish(ns, target, dest, {(): 1})
            return
        m = MODELS.get(p)
        if m is None and (p.startswith(COMB_OPT) or p.startswith(COMB_RES)):
            m = COMB.get(s)
        if m is not None:
            if m(self, st, fn, args, dest, target, line):
                return
        if p == "core::future::future::Future::poll":
            self.poll(st, fn, args, dest, target, line)
            return
        if s in ("call", "call_mut", "call_once") and p.startswith("core::ops::function::"):
            if self.invoke(st, args[0], args[1], dest, target, "id"):
                return
        if s in PASS and (p.startswith("core::") or p.startswith("alloc::")) and args:
            self.finish(st, target, dest, self.opval(env, fr, args[0]))
            return
        if s in ("spawn_blocking", "block_in_place", "block_on") and "tokio" in p:
            o = args[-1]
            if s == "block_on":
                if self.await_op(st, o, dest, target, "id"):
                    return
            elif self.invoke(st, o, None, dest, target, "join" if s == "spawn_blocking" else "id"):
                return
        # a workspace body
        b = self.F.bodies.get(fn.rh)
        if b is None and fn.h in self.F.impl_of:
            b = self.TT.devirt(fr, fn, args)
        dv = getattr(self.rule, "devirt", None)
        if b is None and dv is not None:
            b = dv(c)
        if b is not None and b.kind in ("fn", "closure") and self.want(st, c, b):
            nf = self.TT.frame(b, fr, tuple((fr, a) for a in args), None, st.bb, ("call", fr.id, st.bb, target, dest, "id"))
            e = env
            for i, a in enumerate(args):
                v = self.opval(env, fr, a)
                if v:
                    e = self.put(e, nf, (i + 1,), v)
            self.entered.add(b.h)
            self.push(State(nf, 0, st.ps, e, st))
            return
        self.opaque(st, fn, args, dest, target, line, body=b)

    def want(self, st, c, b):
        e = getattr(self.rule, "enter", None)
        if e is not None:
            r = e(st.ps, c, b)
            if r is False:
                return False
            if r is True:
                return b.h not in st.fr.stack
        if b.h not in self.reach and not self.handed(st, c, b):
            return False
        if b.h in st.fr.stack:
            return False
        if st.fr.depth() >= self.max_depth:
            return False
        return True

    def carries(self, st, cf, ops, depth=0):
        """a closure or future that captured another one which holds an event"""
        for o in ops:
            if o[0] in ("c", "m") and len(o[1]) == 1 and cf.body.locals[o[1][0]].k in ("closure", "coroutine", "param"):
                for x in self.callables(st, cf, o):
                    if x[0] in self.reach or depth < 3 and self.carries(st, x[1], x[2], depth + 1):
                        return True
        return False

    def handed(self, st, c, b):
        """b is given a closure or future that holds an event."""
        for i, a in enumerate(c.args):
            if i < b.argc and b.locals[i + 1].k == "param" and a[0] in ("c", "m") and len(a[1]) == 1 \
                    and st.fr.body.locals[a[1][0]].k in ("closure", "coroutine", "param"):
                if any(x[0] in self.reach for x in self.callables(st, st.fr, a)):
                    return True
        return False

    def opaque(self, st, fn, args, dest, target, line, body=None):
        """A call that is not entered: closures it is given may run any number of times."""
        clos = []
        if body is None:   # workspace callees that were not entered cannot reach an event
            for a in args:
                for c in self.callables(st, st.fr, a):
                    if self.F.bodies[c[0]].kind == "coroutine" and not self.may_be_future(st.fr, a):
                        continue        # what awaiting produced, not the future itself
                    if c[0] in self.reach and c[0] not in st.fr.stack:
                        clos.append(c)
        env = st.env
        # whatever is behind a mutable reference is unknown afterwards
        self.unknown_continue(State(st.fr, st.bb, st.ps, env, st.prev), target, dest, tuple(_clokey(c) for c in clos))

    # An iterator consumed by a call that runs a closure per item: shown to rules as the loop it stands for.
    def feeds_consumer(self, st, dest, args):
        """The adapter's result goes straight into collect and the like, and its closure holds an event."""
        if len(dest) != 1 or len(args) != 2:
            return False
        n = 0
        for bl in st.fr.body.blocks:
            if bl is None:
                continue
            t = bl[1]
            if t[0] == "call" and any(a[0] in ("c", "m") and a[1] == (dest[0],) for a in t[2]):
                if t[1][0] == "k" and isinstance(t[1][1], Fn) and t[1][1].path.startswith(ITERT) and short(t[1][1].path) in GATHER:
                    n += 1
                else:
                    return False
        return n == 1 and any(c[0] in self.reach for c in self.callables(st, st.fr, args[1]))

    def each(self, st, fn, args, dest, target, line):
        s = short(fn.path)
        fr, recv, clo, cfr, over = st.fr, args[0], args[-1], st.fr, fn.args[0]
        if s in GATHER:
            r = self.origin_call(fr.body, args[0])
            if r is None:
                return False
            mfn, margs = r
            if not (mfn.path.startswith(ITERT) and short(mfn.path) in ("map", "filter_map", "inspect")):
                return False
            recv, clo, over = margs[0], margs[1], mfn.args[0]
        c = self.callable_of(st, fr, clo)
        if c is None or c[0] not in self.reach or c[0] in fr.stack or fr.depth() >= self.max_depth:
            return False
        nx = Fn(ITER_NEXT, "", "<%s as core::iter::traits::iterator::Iterator>::next" % over.s, "", (over,))
        self.each_next(st, (nx, recv, _clokey(c), s), dest, target, line)
        return True

    def each_next(self, st, info, dest, target, line):
        nx, recv, (h, cfid, ops), s = info
        outs = None
        if self.rule.monitored(ITER_NEXT):
            outs = self.rule.call(st.ps, Call(self, st, nx, (recv,), dest, line, st.bb))
        if outs is None:
            outs = [(st.ps, {(): 1}), (st.ps, {(): 0})]
            if getattr(self.rule, "nonempty", False) and not st.env.get((st.fr.id, "it%d" % st.bb)):
                outs = outs[:1]
        b = self.F.bodies[h]
        cf = self.TT.flist[cfid]
        for ps, v in outs:
            v = v or {}
            if v.get(()) in (1, None):
                env = {**st.env, (st.fr.id, "it%d" % st.bb): {(): 1}}
                args = (None,) * (b.argc - 1) + ((st.fr, ("t", self.TT.elem(self.TT.op(st.fr, recv)))),) if b.argc >= 2 else None
                nf = self.TT.frame(b, st.fr, args, tuple((cf, o) for o in ops), ("each", st.bb),
                                   ("each", st.fr.id, st.bb, target, dest, "id", info, line))
                self.entered.add(b.h)
                env = self.capenv(env, cf, ops, nf)
                item = {k[2:]: x for k, x in v.items() if k[:2] == (("v", 1), ("f", 0))}
                if item and b.argc >= 2:
                    env = self.put(env, nf, (b.argc,), item)
                self.push(State(nf, 0, ps, env, st))
            if v.get(()) in (0, None):
                done = {}
                if s in ("try_for_each", "try_fold") or (s in GATHER and self.is_result(st.fr, dest)):
                    done = {(): 0}
                elif s in ("all", "any"):
                    done = {(): int(s == "all")}
                elif s in ("find", "find_map", "position"):
                    done = {(): 0}
                self.finish(State(st.fr, st.bb, ps, st.env, st.prev), target, dest, done)

    def each_left(self, ns, fr, val, target, dest):
        info, line = fr.ret[6], fr.ret[7]
        s = info[3]
        v = val.get(())
        ty = fr.body.locals[0].adt
        if s in ("try_for_each", "try_fold") or (s in GATHER and self.is_result(ns.fr, dest) and ty == "core::result::Result"):
            bad = {"core::result::Result": 1, "core::option::Option": 0}.get(ty)
            if v == bad or v is None:
                self.finish(ns, target, dest, {(): bad} if bad is not None else {})
            if v == bad:
                return
        if s in ("all", "any", "find", "find_map", "position"):
            stop = {"all": 0, "any": 1, "find": 1, "position": 1, "find_map": 1}[s]
            if v == stop or v is None:
                self.finish(ns, target, dest, {(): stop})
            if v == stop:
                return
        self.each_next(ns, info, dest, target, line)

    def origin_call(self, b, o):
        """The call that produced an operand moved around in one body."""
        for _ in range(6):
            if o[0] not in ("c", "m") or len(o[1]) != 1:
                return None
            l = o[1][0]
            hits = [t for x in b.blocks if x for t in (x[1],) if t[0] == "call" and t[3] == (l,)]
            asg = [rv for x in b.blocks if x for p, rv, ln in x[0] if p == (l,) and rv[0] not in ("dead", "live")]
            if len(hits) == 1 and not asg:
                t = hits[0]
                return (t[1][1], t[2]) if t[1][0] == "k" and isinstance(t[1][1], Fn) else None
            if len(asg) == 1 and not hits and asg[0][0] == "use":
                o = asg[0][1]
                continue
            return None
        return None

    @staticmethod
    def may_be_future(fr, o):
        if o[0] not in ("c", "m") or len(o[1]) != 1:
            return True
        ty = fr.body.locals[o[1][0]]
        if ty.k in ("alias", "coroutine", "param", "closure", "tuple"):
            return True
        return any(x in ty.s for x in ("Future", "async", "dyn ", "JoinHandle", "impl ", "closure"))

    def is_result(self, fr, place):
        return len(place) == 1 and fr.body.locals[place[0]].adt == "core::result::Result"

    def loop_has_event(self, b, bb):
        key = (b.h, bb)
        r = self.loop_memo.get(key)
        if r is None:
            r = False
            calls = None
            for x in loop_blocks(b, bb):
                bl = b.blocks[x]
                for p, rv, ln in bl[0]:
                    if rv[0] == "agg" and rv[1] in ("closure", "coroutine") and rv[2] in self.reach:
                        r = True
                t = bl[1]
                if t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1], Fn):
                    fn = t[1][1]
                    if self.rule.monitored(fn.rpath) or self.rule.monitored(fn.path) or fn.rh in self.reach:
                        r = True
            self.loop_memo[key] = r
        return r

    def unknown_continue(self, st, target, dest, clos, already=False):
        if already or not clos or not getattr(self.rule, "nonempty", False):
            self.finish(st, target, dest, {})
        for h, cfid, ops in clos:
            b = self.F.bodies.get(h)
            cf = self.TT.flist[cfid]
            nf = self.TT.frame(b, st.fr, None, tuple((cf, o) for o in ops), ("many", st.bb),
                               ("many", st.fr.id, st.bb, target, dest, "id", clos))
            self.entered.add(b.h)
            self.push(State(nf, 0, st.ps, st.env, st))

    # ---- closures and futures ----------------------------------------------------------------------
    def callables(self, st, fr, o, want=None):
        t = PathTerms(self, st).op(fr, o)
        out = []
        for a in alts(t):
            if a.k == "clo":
                out.append(a.x)
            elif a.k == "call" and a.x is not None:
                e = self.TT_expand_co(a)
                if e is not None:
                    out.append(e)
        return [x for x in out if x[0] in self.F.bodies and (want is None or self.F.bodies[x[0]].kind == want)]

    def TT_expand_co(self, t):
        """A call to a workspace async fn: the coroutine it returns."""
        fn, fr, args, bi = t.x
        b = self.F.bodies.get(fn.rh)
        if b is None:
            b = self.TT.devirt(fr, fn, args)
        if b is None or b.h in fr.stack:
            return None
        if not any(self.F.bodies[c.h].kind == "coroutine" for c in self.F.children.get(b.h, ())):
            return None
        nf = self.TT.frame(b, fr, tuple((fr, a) for a in args), None, ("c", bi))
        r = self.TT.local(nf, 0, ())
        for a in alts(r):
            if a.k == "clo":
                return a.x
            if a.k == "call" and a.x is not None:
                return self.TT_expand_co(a)
        return None

    def callable_of(self, st, fr, o, want=None):
        c = self.callables(st, fr, o, want)
        return c[0] if len(c) == 1 else None

    def invoke(self, st, fo, argop, dest, target, post, payload=None):
        """Calls a closure or function value exactly once. argop: a tuple operand, or None."""
        c = self.callable_of(st, st.fr, fo)
        if c is None:
            if fo[0] == "k" and isinstance(fo[1], Fn) and short(fo[1].path) in SAME and payload is not None:
                pk = _optype_kind(self, st, payload)
                good = 1 if pk == "opt" else 0
                n = (("v", good), ("f", 0))
                v = {k[2:]: x for k, x in self.opval(st.env, st.fr, payload).items() if k[:2] == n}
                for w in post_of(post)(v):
                    self.finish(st, target, dest, w)
                return True
            b = self.F.bodies.get(fo[1].rh) if fo[0] == "k" and isinstance(fo[1], Fn) else None
            if b is not None and b.argc == 1 and argop is None and payload is not None and (b.h in self.reach or tiny(b)) and b.h not in st.fr.stack \
                    and st.fr.depth() < self.max_depth:
                nf = self.TT.frame(b, st.fr, ((st.fr, payload),), None, st.bb, ("call", st.fr.id, st.bb, target, dest, post))
                self.entered.add(b.h)
                n = (("v", 1 if _optype_kind(self, st, payload) == "opt" or post == "err" else 0), ("f", 0))
                v = {k[2:]: x for k, x in self.opval(st.env, st.fr, payload).items() if k[:2] == n}
                self.push(State(nf, 0, st.ps, self.put(st.env, nf, (1,), v) if v else st.env, st))
                return True
            return False
        h, cf, ops = c
        b = self.F.bodies[h]
        if (h not in self.reach and not tiny(b) and not self.carries(st, cf, ops)) or h in st.fr.stack or st.fr.depth() >= self.max_depth:
            for v in post_of(post)({}):
                self.finish(st, target, dest, v)
            return True
        args = None
        if argop is None and b.argc == 2 and payload is not None:
            args = (None, (st.fr, payload))
        if argop is not None:
            args = (None,) + tuple((st.fr, ("tup", st.fr, argop, i)) for i in range(b.argc - 1))
        nf = self.TT.frame(b, st.fr, args, tuple((cf, o) for o in ops), st.bb,
                           ("call", st.fr.id, st.bb, target, dest, post))
        self.entered.add(b.h)
        env = self.capenv(st.env, cf, ops, nf)
        # what was known when the closure was made (its operands may be gone by now)
        made = self.opval(st.env, st.fr, fo)
        for i, o in enumerate(ops):
            if o[0] in ("c", "m") and len(o[1]) == 1 and not cf.body.locals[o[1][0]].s.startswith("&mut") and not self.opval(env, cf, o):
                v = {k[1:]: x for k, x in made.items() if k[:1] == (("f", i),)}
                if v:
                    env = self.put(env, nf, (1, ("f", i, "")), v)
        if argop is None and b.argc == 2 and payload is not None:
            n = (("v", 1 if _optype_kind(self, st, payload) == "opt" or post == "err" else 0), ("f", 0))
            v = {k[2:]: x for k, x in self.opval(st.env, st.fr, payload).items() if k[:2] == n}
            if v:
                env = self.put(env, nf, (2,), v)
        self.push(State(nf, 0, st.ps, env, st))
        return True

    def capenv(self, env, cf, ops, nf):
        for i, o in enumerate(ops):
            v = self.opval(env, cf, o)
            if v:
                env = self.put(env, nf, (1, ("f", i, "")), v)
        return env

    def await_op(self, st, o, dest, target, post):
        v = self.opval(st.env, st.fr, o)
        if FUT in v:
            v = {k: x for k, x in v.items() if k != FUT}
            for w in post_of(post)(v):
                self.finish(st, target, dest, w)
            return True
        if JOIN in v:
            v = {k: x for k, x in v.items() if k != JOIN}
            for w in (res_ok(v), res_err()):
                for z in post_of(post)(w):
                    self.finish(st, target, dest, z)
            return True
        c = self.callable_of(st, st.fr, o, want="coroutine")
        if c is None:
            return False
        h, cf, ops = c
        b = self.F.bodies[h]
        if (h not in self.reach and not self.carries(st, cf, ops)) or h in st.fr.stack or st.fr.depth() >= self.max_depth:
            for w in post_of(post)({}):
                self.finish(st, target, dest, w)
            return True
        nf = self.TT.frame(b, st.fr, None, tuple((cf, o) for o in ops), ("await", st.bb),
                           ("call", st.fr.id, st.bb, target, dest, post))
        self.entered.add(b.h)
        self.push(State(nf, 0, st.ps, self.capenv(st.env, cf, ops, nf), st))
        return True

    def poll(self, st, fn, args, dest, target, line):
        if self.await_op(st, args[0], dest, target, "ready"):
            return
        # an unknown future: it completes with something
        self.finish(st, target, dest, {(): 0})

    def trace(self, st, n=14):
        out = []
        s = st
        last = None
        while s is not None:
            if s.why:
                out.append(s.why)
            s = s.prev
        out.reverse()
        return out[-n:]

    def stackline(self, st):
        f, out = st.fr, []
        while f is not None:
            out.append(f.body.path)
            f = f.parent
        return " <- ".join(short_body(x) for x in out)


def short_body(p):
    return p.replace("bonsaidb_core::", "").replace("bonsaidb_local::", "").replace("bonsaidb_server::", "")


def _clokey(c):
    return (c[0], c[1].id, c[2])




PASS = set("""into_future new_unchecked deref deref_mut as_ref as_mut pin new get_mut from into clone branch_none as_deref
as_deref_mut map_err ok_or cloned copied""".split())


def _p_id(v):
    return [v]


def _p_ready(v):
    d = {(): 0}
    for k, x in v.items():
        d[(("v", 0), ("f", 0)) + k] = x
    return [d]


def _p_join(v):
    d = dict(v)
    d[JOIN] = 1
    return [d]


def _p_ok(v):
    return [res_ok(v)]


def _p_some(v):
    d = {(): 1}
    for k, x in v.items():
        d[(("v", 1), ("f", 0)) + k] = x
    return [d]


def post_of(p):
    """What a value returned by a closure becomes. ("filter", payload): an Option keeps its payload iff the closure says so."""
    if isinstance(p, tuple):
        def keep(v):
            some = [{(): 1, **{(("v", 1), ("f", 0)) + k: x for k, x in p[1]}}]
            none = [{(): 0}]
            x = v.get(())
            return some if x == 1 else none if x == 0 else some + none
        return keep
    return POST[p]


POST = {"id": _p_id, "ready": _p_ready, "join": _p_join, "ok": _p_ok, "some": _p_some,
        "err": lambda v: [{(): 1}], "none": lambda v: [{}], "any": lambda v: [{}],
        "ready_ok": lambda v: _p_ready(res_ok(v))}


# ---- models of Option / Result / Try ---------------------------------------------------------------
def _kind(fn):
    p = fn.path
    return "opt" if p.startswith(COMB_OPT) else "res"


def _variants(ex, st, fn, o, kind):
    """[(isgood, payload val, original val)] for a value of Option/Result type."""
    v = ex.opval(st.env, st.fr, o)
    good, bad = (1, 0) if kind == "opt" else (0, 1)
    pre = (("v", good), ("f", 0))
    pay = {k[2:]: x for k, x in v.items() if k[:2] == pre}
    if () in v:
        if v[()] == good:
            return [(True, pay, v)]
        return [(False, {}, v)]
    return [(True, pay, v), (False, {}, v)]


def _optype_kind(ex, st, o):
    if o[0] in ("c", "m"):
        ty = st.fr.body.locals[o[1][0]]
        if len(o[1]) == 1:
            p = ty.peel()
            if p.adt == "core::option::Option":
                return "opt"
            if p.adt == "core::result::Result":
                return "res"
            if p.adt == "core::task::poll::Poll":
                return "poll"
    return None


def m_branch(ex, st, fn, args, dest, target, line):
    k = _optype_kind(ex, st, args[0])
    if k not in ("opt", "res"):
        return False
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        d = {(): 0 if good else 1}
        if good:
            for kk, x in pay.items():
                d[(("v", 0), ("f", 0)) + kk] = x
        else:
            d[(("v", 1), ("f", 0))] = 1 if k == "res" else 0
        ex.finish(st, target, dest, d)
    return True


def m_from_residual(ex, st, fn, args, dest, target, line):
    ty = st.fr.body.locals[dest[0]]
    bad = {"core::option::Option": 0, "core::result::Result": 1}.get(ty.adt)
    val = {(): bad} if bad is not None else {}
    if ty.adt == "core::task::poll::Poll" and ty.a:      # a ready error
        v = (("v", 0), ("f", 0))
        if ty.a[0].adt == "core::result::Result":
            val = {(): 0, v: 1}
        elif ty.a[0].adt == "core::option::Option":
            val = {(): 0, v: 1, v + (("v", 1), ("f", 0)): 1}
    ex.finish(st, target, dest, val)
    return True


def m_from_output(ex, st, fn, args, dest, target, line):
    ty = st.fr.body.locals[dest[0]]
    v = ex.opval(st.env, st.fr, args[0])
    if ty.adt == "core::option::Option":
        ex.finish(st, target, dest, _p_some(v)[0])
    else:
        ex.finish(st, target, dest, res_ok(v))
    return True


def _c_is(goodval):
    def f(ex, st, fn, args, dest, target, line):
        v = ex.opval(st.env, st.fr, args[0])
        if () in v:
            k = _kind(fn)
            good = v[()] == (1 if k == "opt" else 0)
            ex.finish(st, target, dest, {(): int(good == goodval)})
            return True
        return False
    return f


def _mk(kind, good, pay):
    if kind == "opt":
        if not good:
            return {(): 0}
        return _p_some(pay)[0]
    return res_ok(pay) if good else {(): 1}


def c_map(ex, st, fn, args, dest, target, line):
    k = _kind(fn)
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        if good:
            if not ex.invoke(st, args[1], None, dest, target, "some" if k == "opt" else "ok", args[0]):
                ex.finish(st, target, dest, _mk(k, True, {}))
        else:
            ex.finish(st, target, dest, _mk(k, False, {}))
    return True


def c_and_then(ex, st, fn, args, dest, target, line):
    k = _kind(fn)
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        if good:
            if not ex.invoke(st, args[1], None, dest, target, "id", args[0]):
                ex.finish(st, target, dest, {})
        else:
            ex.finish(st, target, dest, _mk(k, False, {}))
    return True


def c_or_else(ex, st, fn, args, dest, target, line):
    k = _kind(fn)
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        if not good:
            if not ex.invoke(st, args[1], None, dest, target, "id", args[0]):
                ex.finish(st, target, dest, {})
        else:
            ex.finish(st, target, dest, _mk(k, True, pay))
    return True


def c_map_err(ex, st, fn, args, dest, target, line):
    for good, pay, v in _variants(ex, st, fn, args[0], "res"):
        if good:
            ex.finish(st, target, dest, _mk("res", True, pay))
        elif not ex.invoke(st, args[1], None, dest, target, "err", args[0]):
            ex.finish(st, target, dest, {(): 1})
    return True


def c_ok_or(ex, st, fn, args, dest, target, line):
    for good, pay, v in _variants(ex, st, fn, args[0], "opt"):
        if good:
            ex.finish(st, target, dest, res_ok(pay))
        elif short(fn.path) == "ok_or_else" and ex.invoke(st, args[1], None, dest, target, "err", args[0]):
            pass
        else:
            ex.finish(st, target, dest, {(): 1})
    return True


def c_ok(ex, st, fn, args, dest, target, line):
    for good, pay, v in _variants(ex, st, fn, args[0], "res"):
        ex.finish(st, target, dest, _mk("opt", good, pay))
    return True


def c_err(ex, st, fn, args, dest, target, line):
    for good, pay, v in _variants(ex, st, fn, args[0], "res"):
        ex.finish(st, target, dest, _mk("opt", not good, {}))
    return True


def c_unwrap_or(ex, st, fn, args, dest, target, line):
    k = _kind(fn)
    s = short(fn.path)
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        if good:
            ex.finish(st, target, dest, pay)
        elif s == "unwrap_or":
            ex.finish(st, target, dest, ex.opval(st.env, st.fr, args[1]))
        elif s == "unwrap_or_else" and ex.invoke(st, args[1], None, dest, target, "id", args[0]):
            pass
        elif s == "unwrap_or_default" and fn.args and (fn.args[0].s == "bool" or fn.args[0].adt == "core::option::Option"):
            ex.finish(st, target, dest, {(): 0})
        else:
            ex.finish(st, target, dest, {})
    return True


def c_map_or(ex, st, fn, args, dest, target, line):
    k = _kind(fn)
    s = short(fn.path)
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        if good:
            if not ex.invoke(st, args[2], None, dest, target, "id", args[0]):
                ex.finish(st, target, dest, {})
        elif s == "map_or":
            ex.finish(st, target, dest, ex.opval(st.env, st.fr, args[1]))
        elif not ex.invoke(st, args[1], None, dest, target, "id", args[0]):
            ex.finish(st, target, dest, {})
    return True


def m_then(ex, st, fn, args, dest, target, line):
    v = ex.opval(st.env, st.fr, args[0]).get(())
    if v is None:
        return False
    if v == 0:
        ex.finish(st, target, dest, {(): 0})
    elif short(fn.path) == "then_some" or not ex.invoke(st, args[1], None, dest, target, "some"):
        ex.finish(st, target, dest, {(): 1})
    return True


def c_is_and(ex, st, fn, args, dest, target, line):
    k = _kind(fn)
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        if good:
            if not ex.invoke(st, args[1], None, dest, target, "id", args[0]):
                ex.finish(st, target, dest, {})
        else:
            ex.finish(st, target, dest, {(): 0})
    return True


def c_unwrap(ex, st, fn, args, dest, target, line):
    k = _kind(fn)
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        if good:
            ex.finish(st, target, dest, pay)
    return True


def c_same(ex, st, fn, args, dest, target, line):
    ex.finish(st, target, dest, ex.opval(st.env, st.fr, args[0]))
    return True


def c_or(ex, st, fn, args, dest, target, line):
    k = _kind(fn)
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        ex.finish(st, target, dest, _mk(k, True, pay) if good else ex.opval(st.env, st.fr, args[1]))
    return True


def c_and(ex, st, fn, args, dest, target, line):
    k = _kind(fn)
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        ex.finish(st, target, dest, ex.opval(st.env, st.fr, args[1]) if good else dict(v, **{}) if () in v else _mk(k, False, {}))
    return True


def c_filter(ex, st, fn, args, dest, target, line):
    if _kind(fn) != "opt":
        return False
    for good, pay, v in _variants(ex, st, fn, args[0], "opt"):
        if not good:
            ex.finish(st, target, dest, {(): 0})
            continue
        post = ("filter", tuple(sorted(pay.items(), key=repr)))
        if not ex.invoke(st, args[1], None, dest, target, post, args[0]):
            for w in post_of(post)({}):
                ex.finish(st, target, dest, w)
    return True


def c_flatten(ex, st, fn, args, dest, target, line):
    if _kind(fn) != "opt":
        return False
    for good, pay, v in _variants(ex, st, fn, args[0], "opt"):
        ex.finish(st, target, dest, pay if good else {(): 0})
    return True


def c_transpose(ex, st, fn, args, dest, target, line):
    """Option<Result<T, E>> <-> Result<Option<T>, E>"""
    def under(pay, k):
        n = (("v", k), ("f", 0))
        return {p[2:]: x for p, x in pay.items() if p[:2] == n}
    k = _kind(fn)
    for good, pay, v in _variants(ex, st, fn, args[0], k):
        if k == "opt":
            if not good:                                    # None -> Ok(None)
                ex.finish(st, target, dest, res_ok({(): 0}))
                continue
            for e in ((0, 1) if pay.get(()) is None else (pay[()],)):
                ex.finish(st, target, dest, res_err() if e else res_ok({(): 1, **{(("v", 1), ("f", 0)) + p: x for p, x in under(pay, 0).items()}}))
        else:
            if not good:                                    # Err(e) -> Some(Err(e))
                ex.finish(st, target, dest, {(): 1, (("v", 1), ("f", 0)): 1})
                continue
            for e in ((0, 1) if pay.get(()) is None else (pay[()],)):
                ex.finish(st, target, dest, {(): 1, (("v", 1), ("f", 0)): 0, **{(("v", 1), ("f", 0), ("v", 0), ("f", 0)) + p: x for p, x in under(pay, 1).items()}} if e else {(): 0})
    return True


SAME = ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "clone", "from", "into", "as_str", "as_slice", "identity", "to_owned")
COMB = {
    "map_or": c_map_or, "map_or_else": c_map_or, "is_some_and": c_is_and, "is_ok_and": c_is_and,
    "is_ok": _c_is(True), "is_err": _c_is(False), "is_some": _c_is(True), "is_none": _c_is(False),
    "map": c_map, "and_then": c_and_then, "or_else": c_or_else, "map_err": c_map_err, "ok_or": c_ok_or,
    "ok_or_else": c_ok_or, "ok": c_ok, "err": c_err, "unwrap_or": c_unwrap_or, "unwrap_or_else": c_unwrap_or,
    "unwrap_or_default": c_unwrap_or, "unwrap": c_unwrap, "expect": c_unwrap, "as_ref": c_same, "as_mut": c_same,
    "as_deref": c_same, "as_deref_mut": c_same, "cloned": c_same, "copied": c_same,
    "and": c_and, "or": c_or, "filter": c_filter, "flatten": c_flatten, "transpose": c_transpose,
}
MODELS = {
    "core::ops::try_trait::Try::branch": m_branch,
    "core::ops::try_trait::FromResidual::from_residual": m_from_residual,
    "core::ops::try_trait::Try::from_output": m_from_output,
    "core::bool::<impl bool>::then": m_then,
    "core::bool::<impl bool>::then_some": m_then,
}


class PathTerms:
    """Terms under the reaching definitions recorded in a state."""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def op(self, fr, o):
        TT = self.ex.TT
        over = {}
        for k, d in self.st.env.items():
            i = d.get(("def",))
            if i is not None:
                over[k] = i
        if not over:
            return TT.op(fr, o)
        return with_defs(TT, over, lambda: TT.op(fr, o))


def with_defs(TT, over, f):
    saved_memo, saved_defs = TT.memo, TT.defs
    base = saved_defs

    class _M(dict):
        pass
    TT.memo = {}
    frames_over = {}
    for (fid, l), i in over.items():
        frames_over.setdefault(fid, {})[l] = i
    orig_local = TT._local
    before = TT.__dict__.get("_local")

    def _local(fr, l, proj, depth):
        i = frames_over.get(fr.id, {}).get(l)
        if i is None:
            return orig_local(fr, l, proj, depth)
        ds = base(fr.body).get(l, ())
        if i >= len(ds):
            return orig_local(fr, l, proj, depth)
        p, rv, bi = ds[i]
        return TT.rv(fr, rv, bi, proj, depth + 1, l)
    TT._local = _local
    try:
        return f()
    finally:
        TT.memo = saved_memo
        if before is None:
            del TT._local
        else:
            TT._local = before


def tiny(b):
    return sum(1 for x in b.blocks if x is not None) <= (16 if b.kind == "closure" else 8) and not any(
        x is not None and x[1][0] == "yield" for x in b.blocks)


def freeze(env):
    return frozenset((k, kk, v) for k, d in env.items() for kk, v in d.items())


def thaw(fz):
    env = {}
    for k, kk, v in fz:
        env.setdefault(k, {})[kk] = v
    return env


def reachable(b, start):
    seen, st = set(), [start]
    while st:
        x = st.pop()
        bl = b.blocks[x]
        if bl is None:
            continue
        for y in succs(bl[1]):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def loop_blocks(b, bb):
    """Blocks on a cycle through bb."""
    return [x for x in reachable(b, bb) if bb in reachable(b, x)]


def _uses_op(o, s):
    if o[0] in ("c", "m"):
        s.add(o[1][0])
        for e in o[1][1:]:
            if e[0] == "i" and len(e) > 1 and isinstance(e[1], int):
                s.add(e[1])


def liveness(b):
    n = len(b.blocks)
    use = [set() for _ in range(n)]
    kill = [set() for _ in range(n)]
    succ = [[] for _ in range(n)]
    for i, bl in enumerate(b.blocks):
        if bl is None:
            continue
        u, kl = use[i], kill[i]

        def rd(l):
            if l not in kl:
                u.add(l)
        for p, rv, ln in bl[0]:
            s = set()
            t = rv[0]
            if t in ("use", "rep", "cast"):
                _uses_op(rv[1], s)
            elif t == "ref":
                s.add(rv[2][0])
            elif t == "bin":
                _uses_op(rv[2], s)
                _uses_op(rv[3], s)
            elif t == "un":
                _uses_op(rv[2], s)
            elif t == "discr":
                s.add(rv[1][0])
            elif t == "agg":
                for o in rv[6]:
                    _uses_op(o, s)
            elif t == "len":
                s.add(rv[1][0])
            for l in s:
                rd(l)
            if t == "dead":
                kl.add(p[0])
            elif len(p) == 1 and t != "setd":
                kl.add(p[0])
            else:
                rd(p[0])
        t = bl[1]
        s = set()
        if t[0] == "switch":
            _uses_op(t[1], s)
            succ[i] = [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        elif t[0] == "goto":
            succ[i] = [t[1]]
        elif t[0] == "drop":
            s.add(t[1][0])
            succ[i] = [t[2]]
        elif t[0] == "call":
            _uses_op(t[1], s)
            for a in t[2]:
                _uses_op(a, s)
            if len(t[3]) > 1:
                s.add(t[3][0])
            succ[i] = [t[4]] if t[4] is not None else []
        elif t[0] == "assert":
            _uses_op(t[1], s)
            succ[i] = [_assert_target(t)]
        elif t[0] == "yield":
            succ[i] = [t[1] if isinstance(t[1], int) else t[3]]
        elif t[0] == "ret":
            s.add(0)
        for l in s:
            rd(l)
        if t[0] == "call" and len(t[3]) == 1:
            pass
    live = [set(u) for u in use]
    # references keep what they borrow observable: treat a borrowed local as live while any block
    # reachable from the borrow exists (simple: never kill knowledge about borrowed futures)
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for x in succ[i]:
                if x is not None:
                    o |= live[x]
            t = b.blocks[i][1] if b.blocks[i] is not None else None
            if t is not None and t[0] == "call" and len(t[3]) == 1:
                o.discard(t[3][0])
            nl = use[i] | (o - kill[i])
            if nl != live[i]:
                live[i] = nl
                ch = True
    return live


_CG = {}


def callgraph(F):
    """calls: body hash -> set of callee paths (declared and resolved); rev: body hash -> callers."""
    g = _CG.get(id(F))
    if g is not None:
        return g
    calls, edges, near = {}, {}, {}     # near: without implementations of foreign traits

    def addfn(h, fn):
        calls[h].add(fn.path)
        calls[h].add(fn.rpath)
        if fn.rh in F.bodies:
            edges[h].add(fn.rh)
            near[h].add(fn.rh)
        else:
            for b in F.impl_of.get(fn.h, ()):
                edges[h].add(b.h)
                if fn.path.startswith("bonsaidb"):
                    near[h].add(b.h)

    def scan(h, b):
        def op(o):
            if o[0] == "k":
                k = o[1]
                if isinstance(k, Fn):
                    addfn(h, k)
        for bl in b.blocks:
            if bl is None:
                continue
            for p, rv, ln in bl[0]:
                t = rv[0]
                if t in ("use", "cast", "rep"):
                    op(rv[1])
                elif t == "agg":
                    if rv[1] in ("closure", "coroutine"):
                        edges[h].add(rv[2])
                        near[h].add(rv[2])
                    for o in rv[6]:
                        op(o)
            t = bl[1]
            if t[0] == "call":
                op(t[1])
                for a in t[2]:
                    op(a)
        for pb in b.prom:
            scan(h, pb)
    for h, b in F.bodies.items():
        calls[h] = set()
        edges[h] = set()
        near[h] = set()
        scan(h, b)
    rev = {}
    for h, es in edges.items():
        for e in es:
            rev.setdefault(e, set()).add(h)
    nrev = {}
    for h, es in near.items():
        for e in es:
            nrev.setdefault(e, set()).add(h)
    g = {"calls": calls, "edges": edges, "rev": rev, "nrev": nrev}
    _CG[id(F)] = g
    return g
