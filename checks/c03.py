"""C03: the server carries out each request as asked, as the requester."""
from explore import Explorer
from terms import alts, short, show
import fwd
import wire

EXPLAIN = ("Each request handler of the server's dispatcher is explored path by path (async bodies included); the operation it "
           "performs, the handle it uses and every argument are reconstructed from compiler MIR.")
RULE = ("Every request type has a handler registered under its own name; the handler performs exactly the operation the protocol "
        "defines for the request, on the handle limited to the requester's session (for database operations: on the database the "
        "request names, opened through that handle), with the request's fields as arguments in the right places, and errors of the "
        "operation are reported; logging in makes the new session available on the requester's connection only, logging out ends "
        "exactly the named session.")
ASSUME = ["The table of operations and request types (wire.py) was confirmed by hand against the networking protocol's documentation.",
          "The pot serialization format is trusted to give back the request that was sent."]

SD = "bonsaidb_server::dispatch::ServerDispatcher"
NET = wire.NET
CLI = {
    "SubscribeTo": ("subscribe_by_id", ["subscriber_id", "topic", "@session"]),
    "UnsubscribeFrom": ("unsubscribe_by_id", ["subscriber_id", "topic", "@session"]),
    "UnregisterSubscriber": ("unregister_subscriber_by_id", ["subscriber_id", "@session"]),
    "LogOutSession": ("log_out", ["0"]),
}


def handlers(F):
    out = {}
    for i in F.impls:
        t = i.get("trait") or ""
        if i.get("self") == SD and t.split("<")[0] == "bonsaidb_server::api::Handler":
            for n, h, th in i["items"]:
                b = F.bodies.get(h)
                if b is not None and n == "handle" and b.kind == "fn":
                    ty = b.locals[2]
                    out[short(ty.adt or ty.s)] = b
    return out


def check(ctx):
    F = ctx.F
    TT = ctx.terms()
    H = handlers(F)
    byreq = {}
    for (kind, m), op in wire.OPS.items():
        byreq.setdefault(op[0], []).append((kind, m, op))
    n = 0
    for req, ops in byreq.items():
        b = H.get(req)
        if b is None:
            ctx.fail("handler:%s" % req, "", "the server has no handler for this request")
            continue
        n += 1
        one(ctx, F, TT, req, ops, b)
    for req, (m, fields) in CLI.items():
        b = H.get(req)
        if b is None:
            ctx.fail("handler:%s" % req, "", "the server has no handler for this request")
            continue
        n += 1
        client_op(ctx, F, TT, req, m, fields, b)
    for req in H:
        ctx.ob("known:%s" % req, req in byreq or req in CLI, ctx.where(H[req]), "a request type the protocol table does not know")
    ctx.floor("handlers", n, 35)
    registered(ctx, F, TT, H)
    login(ctx, F, TT, H)
    plumbing(ctx, F, TT)


def is_client(t, b):
    """The handle limited to the requester's session."""
    for a in alts(t):
        r, f = fwd.unwrap(a)
        if not (fwd.is_par(r, b, 1) and f[:1] == ("as_client",)):
            return False
    return True


def one(ctx, F, TT, req, ops, b):
    names = {m for _, m, _ in ops}
    kind = ops[0][0]
    alls = {m for (k, m) in wire.OPS if k == kind} | {m for m, _ in CLI.values()}
    keep = lambda p: short(p) == "database_without_schema"
    T2 = ctx.terms(opaque={p for p in F.by_path if short(p) == "database_without_schema"})
    switch = [o for o in ops if len(o[2]) > 2]

    class R(fwd.Fwd):
        def branch(self, ps, st, o, src, val, ex):
            # which way a request that both adds and removes goes
            if switch and val is not None:
                t = ex.term(st, o)
                for a in alts(T2.norm(t)):
                    i = wire.base(T2, a)
                    if i and fwd.is_par(i[0], b, 2) and i[1] == ("should_be_member",):
                        return (ps[0], ps[1], bool(val)) if len(ps) == 3 else ps
            return ps

        def call(self, ps, c):
            m = short(c.fn.path) if short(c.fn.path) in alls else short(c.path)
            if m not in alls or not ("bonsaidb" in c.path):
                return None
            if c.path.startswith("bonsaidb_server::server::connected_client") and m not in names:
                return None
            self.n += 1
            if m not in names:
                ctx.fail("%s:operation" % req, c.where(), "performs %s for a request to %s" % (m, "/".join(sorted(names))))
                return []
            if ps[0] >= 1:
                ctx.fail("%s:twice" % req, c.where(), "the operation is performed twice")
                return []
            op = [o for o in ops if o[1] == m][0]
            if switch:
                want = op[2][2]["should_be_member"]
                if ps[2] is not want:
                    ctx.fail("%s:direction" % req, c.where(), "%s is performed %s" % (m, "when should_be_member is %s" % ps[2] if ps[2] is not None else "without looking at should_be_member"))
            recv = T2.norm(c.arg(0), keep)
            if kind == wire.SC:
                if not is_client(recv, b):
                    ctx.fail("%s:session" % req, c.where(), "performed on %s, not on the handle limited to the requester's session" % show(recv)[:160])
            else:
                for a in alts(recv):
                    r = a
                    while r.k == "fld":
                        r = r.d[0]
                    if r.k != "call" or short(r.d[0]) not in ("database_without_schema",):
                        ctx.fail("%s:session" % req, c.where(), "performed on %s, not on a database opened through the requester's handle" % show(a)[:160])
                        continue
                    if not is_client(r.d[1][0], b):
                        ctx.fail("%s:session" % req, c.where(), "the database is opened through %s" % show(r.d[1][0])[:160])
                    if not wire.is_field(T2, r.d[1][1], b, 2, wire.dbfield(kind, op[2][1])):
                        ctx.fail("%s:database" % req, c.where(), "the database opened is %s" % show(r.d[1][1])[:160])
            args = op[2][1]
            if len(c.args) - 1 != len(args):
                ctx.fail("%s:args" % req, c.where(), "%d arguments" % (len(c.args) - 1))
            for i, f in enumerate(args):
                if not wire.is_field(T2, T2.norm(c.arg(i + 1)), b, 2, f):
                    ctx.fail("%s:args" % req, c.where(), "argument %d is %s, not the request's %s" % (i + 1, show(c.arg(i + 1))[:160], f))
            return [((1, 0) + ps[2:], res_ok()), ((1, 1) + ps[2:], res_err())]
    from explore import res_ok, res_err
    before = sum(1 for o in ctx.obls if not o[1])
    r = R(ctx, T2, b, req, None, None, True, alls)
    ex = Explorer(F, T2, r)
    ex.run(b, (0, None, None))
    ctx.states += ex.nstates
    ctx.funcs.add(b.path)
    if r.n == 0:
        ctx.fail("%s:no-call" % req, ctx.where(b), "the operation is never performed")
    elif r.rets == 0:
        ctx.fail("%s:no-return" % req, ctx.where(b), "no return was reached")
    if sum(1 for o in ctx.obls if not o[1]) == before:
        ctx.ob(req, True, ctx.where(b), "%d operation sites, %d ways to return" % (r.n, r.rets))


def client_op(ctx, F, TT, req, m, fields, b):
    def target(c):
        return short(c.path) == m and "connected_client" in c.path

    def args(c):
        out = []
        for a in alts(TT.norm(c.arg(0))):
            r, f = fwd.unwrap(a)
            out.append((fwd.is_par(r, b, 1) and f[:1] == ("client",), "performed on %s, not on the requester's connection" % show(a)))
        for i, f in enumerate(fields):
            t = TT.norm(c.arg(i + 1))
            if f == "@session":
                ok = any(is_client(x, b) for x in TT.walk(c.arg(i + 1), 2) if x.k == "fld" and x.d[1] == "as_client")
                bad = any(x.k == "fld" and x.d[1] == "server" and fwd.is_par(x.d[0], b, 1) for x in TT.walk(c.arg(i + 1), 2))
                out.append((ok and not bad, "the session is %s, not the requester's" % show(t)[:160]))
            else:
                out.append((wire.is_field(TT, t, b, 2, f), "argument %d is %s, not the request's %s" % (i + 1, show(t)[:160], f)))
        return out
    fwd.forward(ctx, TT, b, req, {m}, target, args, req not in ("LogOutSession",))


def registered(ctx, F, TT, H):
    from explore import callgraph
    b = ctx.need("bonsaidb_server::dispatch::register_api_handlers")
    if b is None:
        return
    cg = callgraph(F)
    seen, work = set(), [b.h]
    got = set()
    while work:
        h = work.pop()
        if h in seen:
            continue
        seen.add(h)
        bb = F.bodies[h]
        for bl in bb.blocks:
            if bl is None or bl[1][0] != "call":
                continue
            fo = bl[1][1]
            if fo[0] == "k" and hasattr(fo[1], "rpath") and short(fo[1].path) == "with_api":
                tys = [a.adt or a.s for a in fo[1].args]
                if SD in tys:
                    got.add(short(tys[-1]))
        for e in cg["edges"].get(h, ()):
            if F.bodies[e].crate == "bonsaidb_server" and "dispatch" in F.bodies[e].path:
                work.append(e)
    for req in list(wire_reqs()) + list(CLI) + ["Authenticate"]:
        ctx.ob("registered:%s" % req, req in got, ctx.where(b), "the handler of this request is never registered")
    # the registered handler is the one with that name
    wa = [x for x in F.by_path if short(x) == "with_api" and "bonsaidb_server" in x]
    # distinct names
    names = {}
    for i in F.impls:
        if (i.get("trait") or "") == "bonsaidb_core::api::Api":
            for n, h, th in i["items"]:
                bb = F.bodies.get(h)
                if n == "name" and bb is not None and bb.crate == "bonsaidb_core":
                    t = TT.norm(TT.local(TT.frame(bb), 0, ()))
                    strs = tuple(x.d[0] for x in sorted(TT.walk(t, 3), key=show) if x.k == "str")
                    names.setdefault(strs, []).append(i["self"])
    for s, tys in names.items():
        ctx.ob("api-name:%s" % "/".join(s), len(tys) == 1, "", "the same name is used by %s" % tys)
    ctx.floor("api names", len(names), 35)


def wire_reqs():
    return {op[0] for op in wire.OPS.values()}


def login(ctx, F, TT, H):
    """Authenticate/AssumeIdentity: the session given to the connection is the one that was just authenticated."""
    for req in ("Authenticate", "AssumeIdentity"):
        b = H.get(req)
        if b is None:
            continue

        class R:
            n = 0

            def monitored(self, p):
                return short(p) == "logged_in_as" and "connected_client" in p

            def call(self, ps, c):
                R.n += 1
                for a in alts(TT.norm(c.arg(0))):
                    r, f = fwd.unwrap(a)
                    ctx.ob("%s:connection" % req, fwd.is_par(r, b, 1) and f[:1] == ("client",), c.where(), "logs in %s" % show(a))
                calls = [x for x in TT.walk(c.arg(1), 0) if x.k == "call" and short(x.d[0]) in ("authenticate", "assume_identity")]
                ctx.ob("%s:new-session" % req, bool(calls), c.where(), "the session is %s" % show(c.arg(1))[:160])
                return [(1, None)]

            def ret(self, ps, val, st, ex):
                if val.get(()) == 0:
                    ctx.ob("%s:logged-in" % req, ps == 1, ctx.where(b), "succeeds without making the session available to the connection")
        ex = Explorer(F, TT, R())
        ex.run(b, 0)
        ctx.states += ex.nstates
        ctx.ob("%s:login-site" % req, R.n > 0, ctx.where(b), "the connection never learns its session")
        # the answer is that session
        t = TT.norm(TT.awaited(TT.local(TT.frame(b), 0, ()), 0))
        ok = any(x.k == "call" and short(x.d[0]) in ("authenticate", "assume_identity") for x in TT.walk(t, 0))
        ctx.ob("%s:answer" % req, ok, ctx.where(b), "answers %s" % show(t)[:160])


def plumbing(ctx, F, TT):
    # a request is dispatched to the handler registered under its name, with its bytes and its session
    b = ctx.need("bonsaidb_server::dispatch::ServerDispatcher::dispatch_api_request")
    if b is not None:
        def target(c):
            return short(c.fn.path) == "handle" and "AnyHandler" in c.fn.path

        def args(c):
            d = [x for x in TT.walk(c.arg(0), 0) if x.k == "call" and short(x.d[0]) == "custom_api_dispatcher"]
            ok = bool(d) and all(wire.is_field(TT, x.d[1][1], b, 2, "") for x in d)
            return [(ok, "handled by %s" % show(c.arg(0))[:120]),
                    (wire.is_field(TT, TT.norm(c.arg(1)), b, 1, ""), "the session is %s" % show(c.arg(1))[:120]),
                    (wire.is_field(TT, TT.norm(c.arg(2)), b, 3, ""), "the bytes are %s" % show(c.arg(2))[:120])]
        fwd.forward(ctx, TT, b, "dispatch", {"handle"}, target, args, True)
    # the wrapper around a handler passes session and decoded request
    bs = [x for x in F.bodies.values() if x.trname == "handle" and x.kind == "fn" and (x.selfty or "").startswith("bonsaidb_server::api::AnyWrapper")] or \
        [F.bodies[h] for i in F.impls if (i.get("self") or "").startswith("bonsaidb_server::api::AnyWrapper") for n, h, th in i["items"] if n == "handle"]
    if not bs:
        ctx.fail("anchor:AnyWrapper::handle", "", "not found")
        return
    b = bs[0]

    def target(c):
        return short(c.fn.path) == "handle" and c.fn.path.startswith("bonsaidb_server::api::Handler")

    def args(c):
        r = [x for x in TT.walk(c.arg(1), 1) if x.k == "call" and short(x.d[0]) == "from_slice"]
        return [(wire.is_field(TT, TT.norm(c.arg(0)), b, 2, ""), "the session is %s" % show(c.arg(0))[:120]),
                (any(wire.is_field(TT, x.d[1][0], b, 3, "") for x in r), "the request is %s" % show(c.arg(1))[:120])]
    fwd.forward(ctx, TT, b, "AnyWrapper::handle", {"handle"}, target, args, "value")
